//! F01, F02: neighbourhood filters.
use crate::common::*;
use crate::imgs::*;
use d10::*;
use serde_json::{json, Value};

fn k256(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| exact(*v, 256.0)).collect()).collect()
}
fn run(ctx: &mut Ctx, mut e: Value, a: &PixelBuffer<Rgb>, f: impl FnOnce(&PixelBuffer<Rgb>) -> PixelBuffer<Rgb>) {
    e["w"] = json!(a.width());
    e["h"] = json!(a.height());
    e["px"] = json!(if e["op"] == "blur" || e["op"] == "unsharp" { pxs(a.data()) } else { k256(a.data()) });
    ctx.mark(&e);
    let r = guard(|| f(a));
    e["ok"] = json!(r.is_ok());
    if let Ok(r) = r {
        e["rw"] = json!(r.width());
        e["rh"] = json!(r.height());
        e["v"] = json!(pxs(r.data()));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn im(b: &PixelBuffer<Rgb>) -> Image {
    Image::new_from_buffer(b.clone())
}
fn case_img(c: &Value) -> PixelBuffer<Rgb> {
    let d = c["v"].as_array().unwrap().iter().map(|v| {
        let v = v.as_i64().unwrap() as f32 / 256.0;
        Rgb { data: [v, 1.0 - v, v / 2.0, 1.0] }
    }).collect();
    PixelBuffer::new_from_raw(gi(c, "w") as u32, gi(c, "h") as u32, d)
}
/// opposite pixels often are equally far away from the centre, though they differ
fn ties(r: &mut Rng) -> PixelBuffer<Rgb> {
    let (w, h) = (r.range(2, 7), r.range(2, 6));
    let base: [i64; 3] = std::array::from_fn(|_| r.range(64, 192));
    let (d, f) = (r.range(1, 60), r.range(0, 30));
    let px = (0..w * h)
        .map(|_| {
            let mut s = [d, f, 0];
            for k in 0..2 {
                let j = k + r.below(3 - k as u64) as usize;
                s.swap(k, j);
            }
            if r.chance(1, 4) {
                s = [0; 3];
            }
            let c: [i64; 3] = std::array::from_fn(|i| base[i] + if r.chance(1, 2) { s[i] } else { -s[i] });
            Rgb { data: [c[0] as f32 / 256.0, c[1] as f32 / 256.0, c[2] as f32 / 256.0, r.range(0, 256) as f32 / 256.0] }
        })
        .collect();
    PixelBuffer::new_from_raw(w as u32, h as u32, px)
}
fn dims(r: &mut Rng) -> (i64, i64) {
    match r.below(8) { 0 if r.chance(1, 6) => big(r), 0 => (1, r.range(1, 5)), 1 => (r.range(1, 5), 1), 2 => (1, 1), _ => (r.range(1, 6), r.range(1, 5)) }
}
pub fn f01(ctx: &mut Ctx) {
    let cases = ctx.cases();
    let n = cases.len() + ctx.n(1600, 30000) as usize;
    for i in 0..n {
        let a = match cases.get(i) {
            Some(c) => case_img(c),
            None if i % 4 == 1 && i % 3 == 0 => ties(&mut ctx.rng),
            // nothing but the ends of the range
            None if i % 7 == 0 => {
                let r = &mut ctx.rng;
                let (w, h) = dims(r);
                let n = r.range(2, 9) as u64;
                PixelBuffer::new_from_func(w as u32, h as u32, |_, _| Rgb { data: std::array::from_fn(|_| (r.below(n) == 0) as i64 as f32) })
            }
            None => { let (w, h) = dims(&mut ctx.rng); image(&mut ctx.rng, w, h) }
        };
        let m = ctx.rng.chance(1, 2);
        match i % 4 {
            0 => {
                let thr = match ctx.rng.below(5) { 0 => 0, 1 => 256, 2 => ctx.rng.range(257, 400), _ => ctx.rng.range(1, 255) };
                let am = match ctx.rng.below(5) { 0 => 255, 1 => 8, 2 => 9, _ => ctx.rng.range(0, 10) };
                let t = thr as f32 / 256.0;
                run(ctx, json!({"op": "despeckle", "thr": thr, "amount": am}), &a,
                    |a| if m { im(a).despeckle(t, am as u8).buffer().clone() } else { ops::despeckle(a, t, am as u8) });
            }
            1 => {
                let (r, c) = (if ctx.rng.chance(1, 6) { ctx.rng.range(5, 24) } else { ctx.rng.range(0, 4) }, ctx.rng.chance(1, 2));
                run(ctx, json!({"op": "snn", "radius": r, "center": c}), &a,
                    |a| if m { im(a).symmetric_nearest_neighbor(r as usize, c).buffer().clone() } else { ops::symmetric_nearest_neighbor(a, r as usize, c) });
            }
            2 => run(ctx, json!({"op": "sobel"}), &a, |a| if m { im(a).edge_detection(EdgeDetection::Sobel).buffer().clone() } else { ops::edge_detection(a, EdgeDetection::Sobel) }),
            _ => run(ctx, json!({"op": "laplace"}), &a, |a| if m { im(a).edge_detection(EdgeDetection::Laplace).buffer().clone() } else { ops::edge_detection(a, EdgeDetection::Laplace) }),
        }
    }
}
pub fn f02(ctx: &mut Ctx) {
    let cases = ctx.cases();
    let n = cases.len() + ctx.n(900, 12000) as usize;
    for i in 0..n {
        let a = match cases.get(i) {
            Some(c) => case_img(c),
            // for wide kernels
            None if i % 60 < 2 => { let n = ctx.rng.range(12, 24); let (w, h) = if ctx.rng.chance(1, 2) { (1, n) } else { (n, 1) }; let r = &mut ctx.rng; PixelBuffer::new_from_raw(w as u32, h as u32, (0..n).map(|_| { let v = r.below(2) as f32; Rgb { data: [v, 1.0 - v, 0.5, 1.0] } }).collect()) }
            None => { let (w, h) = dims(&mut ctx.rng); image(&mut ctx.rng, w, h) }
        };
        let wide = i >= cases.len() && i % 60 < 2;
        let m = ctx.rng.chance(1, 2);
        // the optimised radii 1..3, the general ones and sometimes a large one
        let r = match ctx.rng.below(12) { _ if a.data().len() > 60 => ctx.rng.range(0, 3), 0 => 0, 1 => ctx.rng.range(5, 20), _ => ctx.rng.range(1, 4) };
        let r = if wide { ctx.rng.range(14, 20) } else if r > 8 && a.data().len() > 20 { 5 } else { r };
        let (sigma, sg) = match if wide { 4 } else { ctx.rng.below(8) } {
            0..=2 => (None, 8 * r),
            3 => (Some(0.0), 0),
            // nearly a plain average
            4 => { let s = ctx.rng.range(100, 1400); (Some(s as f32 / 16.0), s) }
            _ => { let s = ctx.rng.range(1, 16 * (r + 1)); (Some(s as f32 / 16.0), s) }
        };
        if i % 2 == 0 {
            run(ctx, json!({"op": "blur", "radius": r, "sg": sg}), &a,
                |a| if m { im(a).gaussian_blur(r as u32, sigma).buffer().clone() } else { ops::gaussian_blur(a, r as u32, sigma) });
        } else {
            let f16 = match ctx.rng.below(5) { 0 => 0, 1 => 16, 2 => -ctx.rng.range(1, 32), 3 if ctx.rng.chance(1, 2) => ctx.rng.range(-400, 400), _ => ctx.rng.range(1, 80) };
            let f = f16 as f32 / 16.0;
            run(ctx, json!({"op": "unsharp", "radius": r, "sg": sg, "f16": f16}), &a,
                |a| if m { im(a).unsharp(r as u32, f, sigma).buffer().clone() } else { ops::unsharp(a, r as u32, f, sigma) });
        }
    }
}
