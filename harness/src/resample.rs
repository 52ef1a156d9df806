//! R01, R02, G02: resize and rotate.
use crate::common::*;
use crate::imgs::*;
use d10::*;
use serde_json::{json, Value};

const FILTERS: [&str; 5] = ["nearest", "bilinear", "bicubic", "lanczos3", "auto"];

fn out(e: &mut Value, r: Result<PixelBuffer<Rgb>, String>, f: impl Fn(&[Rgb]) -> Vec<Vec<i64>>) {
    e["ok"] = json!(r.is_ok());
    if let Ok(r) = r {
        e["rw"] = json!(r.width());
        e["rh"] = json!(r.height());
        e["v"] = json!(f(r.data()));
    }
}
fn resize(a: &PixelBuffer<Rgb>, nw: u32, nh: u32, f: &str, method: bool) -> PixelBuffer<Rgb> {
    let fm: FilterMode = f.parse().unwrap();
    if method {
        Image::new_from_buffer(a.clone()).resize(nw, nh, fm).buffer().clone()
    } else {
        ops::resize(a, nw, nh, fm)
    }
}
fn rotate(a: &PixelBuffer<Rgb>, deg: f32, bg: Option<Rgb>, f: &str, method: bool) -> PixelBuffer<Rgb> {
    let fm: FilterMode = f.parse().unwrap();
    if method {
        assert!(bg.is_none()); // there is no way to set an image's own background colour
        Image::new_from_buffer(a.clone()).rotate(deg, fm).buffer().clone()
    } else {
        ops::rotate(a, deg, bg.unwrap_or(Rgb::NONE), fm)
    }
}
fn one_resize(ctx: &mut Ctx, a: &PixelBuffer<Rgb>, nw: u32, nh: u32, f: &str, method: bool) {
    let mut e = json!({"op": "resize", "f": f, "w": a.width(), "h": a.height(), "px": pxs(a.data()), "nw": nw, "nh": nh, "method": method});
    ctx.mark(&e);
    out(&mut e, guard(|| resize(a, nw, nh, f, method)), pxs);
    ctx.stateless();
    ctx.emit(e);
}
fn dims(r: &mut Rng, n: i64) -> (i64, i64) {
    match r.below(8) {
        0 if r.chance(1, 8) => big(r),
        0 => (1, r.range(1, n)),
        1 => (r.range(1, n), 1),
        _ => (r.range(1, n), r.range(1, n)),
    }
}
pub fn r01(ctx: &mut Ctx) {
    // every 1-D case of the model, lying and standing
    for c in ctx.cases() {
        let p: Vec<Rgb> = c["px"].as_array().unwrap().iter().map(|v| {
            let v = v.as_i64().unwrap() as f32 / 2.0;
            Rgb { data: [v, 1.0 - v, 0.25, 1.0] }
        }).collect();
        let (w, nw) = (p.len() as u32, gi(&c, "nw") as u32);
        let up = ctx.rng.chance(1, 2);
        let a = if up { PixelBuffer::new_from_raw(1, w, p) } else { PixelBuffer::new_from_raw(w, 1, p) };
        if up { one_resize(ctx, &a, 1, nw, gs(&c, "f"), false) } else { one_resize(ctx, &a, nw, 1, gs(&c, "f"), false) }
    }
    for i in 0..ctx.n(700, 6000) {
        let f = FILTERS[i as usize % 5];
        let (w, h) = if f == "auto" && i % 2 == 0 { (ctx.rng.range(1, 24), ctx.rng.range(1, 24)) } else { dims(&mut ctx.rng, 7) };
        let (nw, nh) = match ctx.rng.below(7) {
            0 => (w, h),
            1 => (h, w),
            2 => (ctx.rng.range(1, w), ctx.rng.range(1, h)),
            3 => (1, 1),
            _ => dims(&mut ctx.rng, 7),
        };
        let a = image(&mut ctx.rng, w, h);
        let m = ctx.rng.chance(1, 2);
        let cap = if ctx.rng.chance(1, 12) { 60 } else { 9 };
        let (nw, nh) = (nw.min(cap), nh.min(cap));
        // long and thin, also with nothing but one side changed by a little
        let (nw, nh) = match ctx.rng.below(60) {
            0 => (ctx.rng.range(257, 400), 1),
            1 => (1, ctx.rng.range(257, 400)),
            2 => (w, (h + ctx.rng.range(-1, 1)).max(1)),
            3 => ((w + ctx.rng.range(-1, 1)).max(1), h),
            _ => (nw, nh),
        };
        one_resize(ctx, &a, nw as u32, nh as u32, f, m);
    }
    // long sides
    for i in 0..ctx.n(20, 200) {
        let f = FILTERS[i as usize % 5];
        let (n, t) = (ctx.rng.range(257, 420), ctx.rng.range(1, 2));
        let m = match ctx.rng.below(6) {
            0 | 1 => n + *ctx.rng.pick(&[-2, -1, 1, 2]),
            2 => n + ctx.rng.range(-12, 12),
            3 => ctx.rng.range(1, 40),
            _ => ctx.rng.range(200, 420),
        };
        let u = if ctx.rng.chance(2, 3) { t } else { ctx.rng.range(1, 2) };
        let me = ctx.rng.chance(1, 2);
        let up = (i / 5) % 2 == 0;
        let a = if up { image(&mut ctx.rng, t, n) } else { image(&mut ctx.rng, n, t) };
        if up { one_resize(ctx, &a, u as u32, m as u32, f, me) } else { one_resize(ctx, &a, m as u32, u as u32, f, me) }
    }
    // percentages in steps of 1/8
    for i in 0..ctx.n(60, 1000) {
        let f = FILTERS[i as usize % 5];
        let (w, h) = dims(&mut ctx.rng, 8);
        let p8 = match ctx.rng.below(6) { 0 => 800, 1 => ctx.rng.range(1, 30), 2 => 400, 3 => 1200, _ => ctx.rng.range(1, 1400) };
        let a = image(&mut ctx.rng, w, h);
        let mut e = json!({"op": "pct", "f": f, "w": w, "h": h, "px": pxs(a.data()), "p8": p8});
        ctx.mark(&e);
        out(&mut e, guard(|| Image::new_from_buffer(a.clone()).resize_pct(p8 as f32 / 8.0, f.parse().unwrap()).buffer().clone()), pxs);
        ctx.stateless();
        ctx.emit(e);
    }
}
fn angle(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 | 1 => 90 * r.range(-12, 12) * 64,
        2 => *r.pick(&[45, 30, -45, 135, 1, -1, 359]) * 64,
        3 => r.range(-64, 64),
        4 => r.range(-1000 * 64, 1000 * 64),
        _ => r.range(-360 * 64, 360 * 64),
    }
}
pub fn g02(ctx: &mut Ctx) {
    let cases = ctx.cases();
    for i in 0..cases.len() + ctx.n(900, 8000) as usize {
        let (q, w, h);
        let f = FILTERS[i % 5];
        if let Some(c) = cases.get(i) {
            (q, w, h) = (gi(c, "q"), gi(c, "w"), gi(c, "h"));
        } else {
            let r = &mut ctx.rng;
            if i % 30 == 0 {
                // long and thin, nearly along an axis
                let (a, b) = (r.range(200, 300), r.range(1, 3));
                (w, h) = if r.chance(1, 2) { (a, b) } else { (b, a) };
                q = 90 * r.range(-5, 5) * 64 + if r.chance(1, 2) { r.range(-40, 40) } else { 0 };
            } else {
                q = angle(r);
                (w, h) = dims(r, 7);
            }
        }
        let a = image(&mut ctx.rng, w, h);
        let bg = if ctx.rng.chance(1, 3) { None } else { Some(color(&mut ctx.rng)) };
        let m = bg.is_none() && ctx.rng.chance(1, 2);
        let mut e = json!({"op": "rotate", "f": f, "w": w, "h": h, "px": pxs(a.data()), "q": q, "method": m, "bg": px4(&bg.unwrap_or(Rgb::NONE))});
        ctx.mark(&e);
        out(&mut e, guard(|| rotate(&a, q as f32 / 64.0, bg, f, m)), pxs);
        ctx.stateless();
        ctx.emit(e);
    }
}
/// images with flat areas and colours that are no binary fractions
pub fn flatish(r: &mut Rng, w: i64, h: i64) -> PixelBuffer<Rgb> {
    let opaque = r.chance(1, 2);
    let col = |r: &mut Rng| {
        let mut c = match r.below(4) {
            0 => Rgb { data: [0.0, 1.0, 1.0 / 3.0, 1.0] },
            1 => Rgb { data: [1.0, 0.0, r.unit() as f32, r.unit() as f32] },
            _ => Rgb { data: [r.unit() as f32, r.unit() as f32, r.unit() as f32, r.unit() as f32] },
        };
        if opaque { c.data[3] = 1.0 }
        c
    };
    let (a, b) = (col(r), col(r));
    let (mode, cut) = (r.below(6), r.range(0, w.max(h)));
    let data = (0..w * h).map(|i| {
        let (x, y) = (i % w, i / w);
        match mode {
            0 | 1 => a,
            2 => if x < cut { a } else { b },
            3 => if y < cut { a } else { b },
            4 => if x * 3 % 7 == 0 { b } else { a },
            _ => col(r),
        }
    }).collect();
    PixelBuffer::new_from_raw(w as u32, h as u32, data)
}
pub fn r02(ctx: &mut Ctx) {
    let px = |d: &[Rgb]| -> Vec<Vec<i64>> { d.iter().map(|c| c.data.iter().map(|v| fx(*v as f64, 16777216.0)).collect()).collect() };
    for i in 0..ctx.n(1100, 12000) as usize {
        let f = FILTERS[i % 5];
        let rot = ctx.rng.chance(1, 2);
        let m = ctx.rng.chance(1, 2);
        let (w, h) = dims(&mut ctx.rng, if rot { 10 } else { 26 });
        let a = flatish(&mut ctx.rng, w, h);
        let (nw, nh) = match ctx.rng.below(4) { 0 => dims(&mut ctx.rng, 14), 1 => dims(&mut ctx.rng, 3), _ => (ctx.rng.range(1, w), ctx.rng.range(1, h)) };
        let (nw, nh) = if ctx.rng.chance(1, 12) { (nw.min(50), nh.min(20)) } else { (nw.min(12), nh.min(12)) };
        let q = angle(&mut ctx.rng);
        let bg = if m || ctx.rng.chance(1, 3) { Rgb::NONE } else { Rgb { data: [0.5, 0.25, 1.0, 1.0] } };
        let mut e = json!({"op": "flat", "k": if rot { "rotate" } else { "resize" }, "f": f, "w": w, "h": h, "px": px(a.data()), "q": q, "bg": px(&[bg])[0],
            "nw": nw, "nh": nh});
        ctx.mark(&e);
        let r = guard(|| if rot { rotate(&a, q as f32 / 64.0, if m { None } else { Some(bg) }, f, m) } else { resize(&a, nw as u32, nh as u32, f, m) });
        out(&mut e, r, px);
        ctx.stateless();
        ctx.emit(e);
    }
}
