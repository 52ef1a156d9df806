//! C01: compose; the calls of the combining function are the trace.
use crate::common::*;
use crate::label::*;
use d10::*;
use serde_json::{json, Value};
use std::cell::RefCell;

type Seen = RefCell<Vec<(u32, u32, Vec<i64>, i64)>>;

fn combine(seen: &Seen, fail: i64, x: u32, y: u32, colors: Vec<i64>) -> Result<i64, i64> {
    let pos = seen.borrow().len() as i64;
    if pos > 2000000 {
        panic!("far too many calls");
    }
    if pos == fail {
        seen.borrow_mut().push((x, y, colors, -1));
        return Err(1000 + pos);
    }
    let k = (colors.iter().sum::<i64>() * 3 + pos * 5) % 9973 + 1;
    seen.borrow_mut().push((x, y, colors, k));
    Ok(k)
}
fn arr<T: Color + 'static, const N: usize>(b: &[PixelBuffer<T>], d: i64, fail: i64, f: &str, seen: &Seen) -> Result<PixelBuffer<T>, i64> {
    let r: [&PixelBuffer<T>; N] = std::array::from_fn(|i| &b[i]);
    if f == "try" {
        ops::try_compose(r, col(d), |x, y, c| combine(seen, fail, x, y, px(&c)).map(col))
    } else {
        Ok(ops::compose(r, col(d), |x, y, c| col(combine(seen, -1, x, y, px(&c)).unwrap())))
    }
}
fn arr_img<const N: usize>(b: &[Image], d: i64, fail: i64, f: &str, seen: &Seen) -> Result<Image, i64> {
    let r: [&Image; N] = std::array::from_fn(|i| &b[i]);
    if f == "try" {
        Image::try_compose(r, col(d), |x, y, c| combine(seen, fail, x, y, px(&c)).map(col))
    } else {
        Ok(Image::compose(r, col(d), |x, y, c| col(combine(seen, -1, x, y, px(&c)).unwrap())))
    }
}
fn typed<T: Color + 'static>(imgs: &[(u32, u32, Vec<i64>)], d: i64, fail: i64, form: &str, f: &str, seen: &Seen) -> Result<Value, i64> {
    let b: Vec<PixelBuffer<T>> = imgs.iter().map(|(w, h, p)| buf(*w, *h, p)).collect();
    let r = match form {
        "array" => match b.len() {
            1 => arr::<T, 1>(&b, d, fail, f, seen)?,
            2 => arr::<T, 2>(&b, d, fail, f, seen)?,
            3 => arr::<T, 3>(&b, d, fail, f, seen)?,
            4 => arr::<T, 4>(&b, d, fail, f, seen)?,
            _ => arr::<T, 5>(&b, d, fail, f, seen)?,
        },
        _ => {
            let r: Vec<&PixelBuffer<T>> = b.iter().collect();
            if f == "try" {
                ops::try_compose_slice(&r, col(d), |x, y, c| combine(seen, fail, x, y, px(c)).map(col))?
            } else {
                ops::compose_slice(&r, col(d), |x, y, c| col(combine(seen, -1, x, y, px(c)).unwrap()))
            }
        }
    };
    Ok(json!({"w": r.width(), "h": r.height(), "px": px(r.data())}))
}
fn image(imgs: &[(u32, u32, Vec<i64>)], d: i64, fail: i64, form: &str, f: &str, seen: &Seen) -> Result<Value, i64> {
    let b: Vec<Image> = imgs.iter().map(|(w, h, p)| Image::new_from_buffer(buf(*w, *h, p))).collect();
    let r = match form {
        "array" => match b.len() {
            1 => arr_img::<1>(&b, d, fail, f, seen)?,
            2 => arr_img::<2>(&b, d, fail, f, seen)?,
            3 => arr_img::<3>(&b, d, fail, f, seen)?,
            4 => arr_img::<4>(&b, d, fail, f, seen)?,
            _ => arr_img::<5>(&b, d, fail, f, seen)?,
        },
        _ => {
            let r: Vec<&Image> = b.iter().collect();
            if f == "try" {
                Image::try_compose_slice(&r, col(d), |x, y, c| combine(seen, fail, x, y, px(c)).map(col))?
            } else {
                Image::compose_slice(&r, col(d), |x, y, c| col(combine(seen, -1, x, y, px(c)).unwrap()))
            }
        }
    };
    Ok(json!({"w": r.width(), "h": r.height(), "px": px(r.data())}))
}

fn one(ctx: &mut Ctx, imgs: &[(u32, u32, Vec<i64>)], d: i64, fail: i64, t: u64, form: &str, f: &str) {
    ctx.session();
    let begin = json!({"op": "begin", "imgs": imgs.iter().map(|(w, h, p)| json!({"w": w, "h": h, "px": p})).collect::<Vec<_>>(), "d": d, "t": t, "form": form, "f": f, "fail": fail});
    ctx.mark(&begin);
    ctx.emit(begin);
    let seen: Seen = RefCell::new(vec![]);
    let r = guard(|| match t % 4 {
        0 => image(imgs, d, fail, form, f, &seen),
        1 => typed::<Rgb>(imgs, d, fail, form, f, &seen),
        2 => typed::<Hsv>(imgs, d, fail, form, f, &seen),
        _ => typed::<Xyz>(imgs, d, fail, form, f, &seen),
    });
    for (x, y, c, k) in seen.into_inner() {
        if k == -1 {
            ctx.emit(json!({"op": "visitfail", "x": x, "y": y, "colors": c}));
        } else {
            ctx.emit(json!({"op": "visit", "x": x, "y": y, "colors": c, "ret": k}));
        }
    }
    match r {
        Ok(Ok(mut v)) => {
            v["op"] = json!("end");
            v["ok"] = json!(true);
            ctx.emit(v);
        }
        Ok(Err(code)) => ctx.emit(json!({"op": "enderr", "code": code})),
        Err(m) => ctx.emit(json!({"op": "end", "ok": false, "panic": m})),
    }
}

/// images too large for the trace: totals, and the calls at some positions
fn wide<T: Color + 'static>(ctx: &mut Ctx, k: usize, image_form: bool) {
    let mut dims = vec![wide_dims(&mut ctx.rng, k)];
    let tall = dims[0].0 < dims[0].1;
    for _ in 0..ctx.rng.below(3) {
        let (a, b) = match ctx.rng.below(3) { 0 => (65540, 1), 1 => (ctx.rng.range(1, 300), 3), _ => (65536, 2) };
        dims.push(if dims[0].0.min(dims[0].1) > 3 { (ctx.rng.range(1, 400), ctx.rng.range(1, 300)) } else if tall { (b, a) } else { (a, b) });
    }
    if ctx.rng.chance(1, 2) { dims.reverse() }
    let (w, h) = (dims.iter().map(|d| d.0).max().unwrap(), dims.iter().map(|d| d.1).max().unwrap());
    let d = ctx.rng.range(0, 900);
    let fail = if ctx.rng.chance(1, 3) { ctx.rng.range(60000.min(w * h - 2), w * h - 1) } else { -1 };
    let imgs: Vec<(u32, u32, Vec<i64>)> = dims.iter().map(|(w, h)| (*w as u32, *h as u32, (0..w * h).map(wide_label).collect())).collect();
    let f = if fail >= 0 || ctx.rng.chance(1, 2) { "try" } else { "plain" };
    let form = *ctx.rng.pick(&["array", "slice"]);
    let mut e = json!({"op": "wide", "imgs": dims.iter().map(|(w, h)| json!({"w": w, "h": h})).collect::<Vec<_>>(), "d": d, "fail": fail, "form": form, "f": f});
    ctx.session();
    ctx.mark(&e);
    let seen: Seen = RefCell::new(vec![]);
    let r = guard(|| if image_form { image(&imgs, d, fail, form, f, &seen) } else { typed::<T>(&imgs, d, fail, form, f, &seen) });
    let seen = seen.into_inner();
    e["calls"] = json!(seen.len());
    let out: Option<Vec<i64>> = match &r {
        Ok(Ok(v)) => { e["end"] = json!([v["w"], v["h"]]); Some(v["px"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()) }
        Ok(Err(code)) => { e["end"] = json!([code]); None }
        Err(_) => { e["end"] = json!([]); None }
    };
    let mut at = vec![];
    for _ in 0..40 {
        let (x, y) = (wide_at(&mut ctx.rng, w), wide_at(&mut ctx.rng, h));
        let i = (y * w + x) as usize;
        if let Some((x, y, c, k)) = seen.get(i) {
            at.push(json!([i, x, y, c, k, out.as_ref().map_or(-9, |o| o[i])]));
        }
    }
    if let Some((x, y, c, _)) = seen.last() { at.push(json!([seen.len() - 1, x, y, c, 0, -9])) }
    e["at"] = json!(at);
    ctx.emit(e);
}
pub fn c01(ctx: &mut Ctx) {
    let cases = ctx.cases();
    for (i, c) in cases.iter().enumerate() {
        let imgs: Vec<(u32, u32, Vec<i64>)> = c["imgs"].as_array().unwrap().iter()
            .map(|m| (gi(m, "w") as u32, gi(m, "h") as u32, m["px"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect()))
            .collect();
        let fail = gi(c, "fail");
        let (form, f) = if fail >= 0 { (["array", "slice"][i % 2], "try") } else { (["array", "slice"][i % 2], ["try", "plain"][(i / 2) % 2]) };
        one(ctx, &imgs, gi(c, "d"), fail, i as u64 / 3, form, f);
    }
    for i in 0..ctx.n(600, 8000) {
        let n = if ctx.rng.chance(1, 8) { ctx.rng.range(6, 24) } else { ctx.rng.range(1, 5) };
        let imgs: Vec<(u32, u32, Vec<i64>)> = (0..n).map(|_| {
            let (w, h) = match ctx.rng.below(10) { 0 => (0, 0), 1 if ctx.rng.chance(1, 25) => crate::imgs::big(&mut ctx.rng), 1 => (1, 9), 2 => (9, 1), _ => (ctx.rng.range(1, 5), ctx.rng.range(1, 5)) };
            (w as u32, h as u32, (0..w * h).map(|_| ctx.rng.range(0, 900)).collect())
        }).collect();
        let area = imgs.iter().map(|m| m.0).max().unwrap() as i64 * imgs.iter().map(|m| m.1).max().unwrap() as i64;
        let f = *ctx.rng.pick(&["try", "try", "plain"]);
        let fail = if f == "try" && area > 0 && ctx.rng.chance(2, 3) { ctx.rng.range(0, area - 1) } else { -1 };
        let form = if n > 5 { "slice" } else { *ctx.rng.pick(&["array", "slice"]) };
        let d = ctx.rng.range(0, 900);
        one(ctx, &imgs, d, fail, i, form, f);
    }
    for k in 0..ctx.n(36, 400) {
        match k % 3 {
            0 => wide::<Rgb>(ctx, k as usize / 3, true),
            1 => wide::<Rgb>(ctx, k as usize / 3, false),
            _ => wide::<Lch>(ctx, k as usize / 3, false),
        }
    }
}
