//! G01: operations that only move pixels, in histories, on labels.
use crate::common::*;
use crate::label::*;
use d10::*;
use serde_json::{json, Value};

enum Cur {
    Img(Image),
    Rgb(PixelBuffer<Rgb>),
    Srgb(PixelBuffer<Srgb>),
    Hsl(PixelBuffer<Hsl>),
    Lab(PixelBuffer<DefaultLab>),
}
fn u(c: &Value, k: &str) -> u32 {
    let v = gi(c, k);
    if v >= 2147483647 { u32::MAX - (v % 2) as u32 } else { v as u32 }
}
fn apply<T: Color>(b: &PixelBuffer<T>, c: &Value) -> PixelBuffer<T> {
    match gs(c, "op") {
        "fh" => ops::flip_horizontal(b),
        "fv" => ops::flip_vertical(b),
        "r90" => ops::rotate90(b),
        "r180" => ops::rotate180(b),
        "r270" => ops::rotate270(b),
        "crop" => ops::crop(b, u(c, "x"), u(c, "y"), u(c, "cw"), u(c, "ch")),
        "interlace" => ops::interlace(b, u(c, "o")),
        o => panic!("op {}", o),
    }
}
fn apply_img(b: &Image, c: &Value) -> Image {
    match gs(c, "op") {
        "fh" => b.flip_horizontal(),
        "fv" => b.flip_vertical(),
        "r90" => b.rotate90(),
        "r180" => b.rotate180(),
        "r270" => b.rotate270(),
        "crop" => b.crop(u(c, "x"), u(c, "y"), u(c, "cw"), u(c, "ch")),
        "interlace" => b.interlace(u(c, "o")),
        o => panic!("op {}", o),
    }
}
impl Cur {
    fn new(t: u64, w: u32, h: u32, p: &[i64]) -> Cur {
        match t % 5 {
            0 => Cur::Img(Image::new_from_buffer(buf(w, h, p))),
            1 => Cur::Rgb(buf(w, h, p)),
            2 => Cur::Srgb(buf(w, h, p)),
            3 => Cur::Hsl(buf(w, h, p)),
            _ => Cur::Lab(buf(w, h, p)),
        }
    }
    fn step(&mut self, c: &Value) -> Result<(), String> {
        let n = match self {
            Cur::Img(b) => Cur::Img(guard(|| apply_img(b, c))?),
            Cur::Rgb(b) => Cur::Rgb(guard(|| apply(b, c))?),
            Cur::Srgb(b) => Cur::Srgb(guard(|| apply(b, c))?),
            Cur::Hsl(b) => Cur::Hsl(guard(|| apply(b, c))?),
            Cur::Lab(b) => Cur::Lab(guard(|| apply(b, c))?),
        };
        *self = n;
        Ok(())
    }
    fn st(&self) -> Value {
        fn f<T: Color>(b: &PixelBuffer<T>) -> Value {
            json!({"w": b.width(), "h": b.height(), "px": px(b.data())})
        }
        match self {
            Cur::Img(b) => f(b.buffer()),
            Cur::Rgb(b) => f(b),
            Cur::Srgb(b) => f(b),
            Cur::Hsl(b) => f(b),
            Cur::Lab(b) => f(b),
        }
    }
    fn dims(&self) -> (i64, i64) {
        let s = self.st();
        (gi(&s, "w"), gi(&s, "h"))
    }
}
fn step(ctx: &mut Ctx, cur: &mut Cur, c: &Value) -> bool {
    ctx.mark(c);
    let mut e = c.clone();
    let r = cur.step(c);
    e["ok"] = json!(r.is_ok());
    e["st"] = cur.st();
    ctx.emit(e);
    r.is_ok()
}
fn dim(rng: &mut Rng, n: i64) -> i64 {
    match rng.below(8) {
        0 => 0,
        1 => n,
        2 => n + rng.range(1, 5),
        // below zero: counted down from 2^32
        3 => *rng.pick(&[2147483647, 2147483646, 65536, -1, -2, -2147483648, -2147483647, -1000]),
        _ => rng.range(0, n),
    }
}

/// a history of one to three steps on an image too large for the trace
fn wide<T: Color>(ctx: &mut Ctx, k: usize, img: bool) {
    let (w, h) = wide_dims(&mut ctx.rng, k);
    let mut cur = wide_buf::<T>(w, h);
    let mut calls: Vec<Value> = vec![];
    let mut ok = true;
    for _ in 0..ctx.rng.range(1, 3) {
        let (w, h) = (cur.width() as i64, cur.height() as i64);
        let r = &mut ctx.rng;
        let c = match r.below(9) {
            0 | 1 => json!({"op": *r.pick(&["fh", "fv"])}),
            2 | 3 => json!({"op": *r.pick(&["r90", "r180", "r270"])}),
            4 | 5 => { let n = w; json!({"op": "interlace", "o": if r.chance(1, 5) { 2147483647 } else { wide_at(r, n) }}) }
            _ => { let (x, y) = (if r.chance(1, 2) { 0 } else { wide_at(r, w) }, wide_at(r, h) * r.below(2) as i64); json!({"op": "crop", "x": x, "y": y, "cw": wide_at(r, w) + 1, "ch": wide_at(r, h) + 1}) }
        };
        ctx.mark(&c);
        calls.push(c.clone());
        match guard(|| if img { apply_img(&Image::new_from_buffer(PixelBuffer::new_from_raw(w as u32, h as u32, cur.data().iter().map(|v| col::<Rgb>(lab(v))).collect())), &c).buffer().map_colors(|v| col::<T>(lab(v))) } else { apply(&cur, &c) }) {
            Ok(b) => cur = b,
            Err(_) => { ok = false; break }
        }
        if cur.is_empty() { break }
    }
    let mut e = json!({"op": "wide", "w": w, "h": h, "c": calls, "ok": ok, "nw": cur.width(), "nh": cur.height()});
    let mut at = vec![];
    if !cur.is_empty() {
        for _ in 0..40 {
            let (x, y) = (wide_at(&mut ctx.rng, cur.width() as i64), wide_at(&mut ctx.rng, cur.height() as i64));
            at.push(json!([x, y, lab(cur.get_pixel(x as u32, y as u32))]));
        }
    }
    e["at"] = json!(at);
    ctx.emit(e);
}
pub fn g01(ctx: &mut Ctx) {
    let mut t = 0;
    for c in ctx.cases() {
        let calls = c.as_array().unwrap().clone();
        let p: Vec<i64> = calls[0]["px"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
        ctx.session();
        ctx.emit(calls[0].clone());
        t += 1;
        let mut cur = Cur::new(t, gi(&calls[0], "w") as u32, gi(&calls[0], "h") as u32, &p);
        for c in &calls[1..] {
            if !step(ctx, &mut cur, c) {
                break;
            }
        }
    }
    for i in 0..ctx.n(1500, 20000) {
        let (w, h) = match ctx.rng.below(8) {
            // a band, so wide or tall that no two sides are alike
            0 if i % 3 == 0 => {
                let (a, b) = (ctx.rng.range(60, 900), ctx.rng.range(1, 4));
                if ctx.rng.chance(1, 2) { (a, b) } else { (b, a) }
            }
            0 => (1, ctx.rng.range(1, 20)),
            1 => (ctx.rng.range(1, 20), 1),
            2 => (ctx.rng.range(15, 40), ctx.rng.range(15, 40)),
            _ => (ctx.rng.range(1, 9), ctx.rng.range(1, 9)),
        };
        let p: Vec<i64> = (0..w * h).map(|k| if ctx.rng.chance(1, 20) { 0 } else { k + 1 }).collect();
        ctx.session();
        ctx.emit(json!({"op": "img", "w": w, "h": h, "px": p}));
        let mut cur = Cur::new(i, w as u32, h as u32, &p);
        for _ in 0..8 {
            let (w, h) = cur.dims();
            let c = match ctx.rng.below(9) {
                0 | 1 => json!({"op": *ctx.rng.pick(&["fh", "fv"])}),
                2 | 3 => json!({"op": *ctx.rng.pick(&["r90", "r180", "r270"])}),
                4 | 5 => json!({"op": "interlace", "o": match ctx.rng.below(8) { 0 => 2147483647, 1 => 2147483646, 6 => -1, 7 => -2147483648, 2 => w, _ => ctx.rng.range(0, 6) }}),
                // most of a large image
                _ if w.max(h) > 60 => {
                    let r = &mut ctx.rng;
                    let mut part = |n: i64| { let o = if r.chance(1, 3) { 0 } else { r.range(0, (n - 1) / 4) }; (o, match r.below(4) { 0 => n - o + r.range(0, 2), 1 => -r.range(1, 9), _ => (n - o - r.range(0, (n - 1) / 4)).max(1) }) };
                    let ((x, cw), (y, ch)) = (part(w), part(h));
                    json!({"op": "crop", "x": x, "y": y, "cw": cw, "ch": ch})
                }
                _ if w > 4 && h > 4 => {
                    let (x, y) = (ctx.rng.range(0, 3), ctx.rng.range(0, 3));
                    json!({"op": "crop", "x": x, "y": y, "cw": ctx.rng.range(1, w + 2), "ch": ctx.rng.range(1, h + 2)})
                }
                _ => json!({"op": "crop", "x": dim(&mut ctx.rng, w), "y": dim(&mut ctx.rng, h), "cw": dim(&mut ctx.rng, w), "ch": dim(&mut ctx.rng, h)}),
            };
            if !step(ctx, &mut cur, &c) {
                break;
            }
        }
    }
    for k in 0..ctx.n(50, 600) {
        ctx.session();
        match k % 3 {
            0 => wide::<Rgb>(ctx, k as usize / 3, true),
            1 => wide::<Rgb>(ctx, k as usize / 3, false),
            _ => wide::<Yuv>(ctx, k as usize / 3, false),
        }
    }
}
