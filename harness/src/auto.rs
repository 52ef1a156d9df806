//! H02: optimize_lightness, optimize_saturation, change_color_temperature, optimize_color_temperature.
use crate::common::*;
use d10::*;
use serde_json::{json, Value};

const P: f64 = 1048576.0;
fn scaled(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| fx(*v as f64, P)).collect()).collect()
}
fn run(ctx: &mut Ctx, k: &str, m: &str, w: u32, px: Vec<Rgb>, q: Value) {
    let h = px.len() as u32 / w;
    let buf = PixelBuffer::new_from_raw(w, h, px);
    let mut e = json!({"op": k, "m": m, "w": w, "h": h, "px": scaled(buf.data()), "q": q});
    ctx.mark(&e);
    let r = apply(ctx, k, m, &buf, &q);
    e["ok"] = json!(r.is_ok());
    if let Ok(b) = r {
        e["nw"] = json!(b.width());
        e["nh"] = json!(b.height());
        e["v"] = json!(scaled(b.data()));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn apply(ctx: &mut Ctx, k: &str, m: &str, buf: &PixelBuffer<Rgb>, q: &Value) -> Result<PixelBuffer<Rgb>, String> {
    let img = Image::new_from_buffer(buf.clone());
    let free = ctx.rng.chance(1, 3);
    let n = |i: usize| q[i].as_i64().unwrap();
    let f = |i: usize| (n(i) as f64 / 64.0) as f32;
    // part degrees are dropped
    let part = if ctx.rng.chance(1, 4) { 0.5 } else { 0.0 };
    guard(|| match k {
        "lightness" if free => ops::optimize_lightness(buf, f(0)),
        "lightness" => img.optimize_lightness(f(0)).buffer().clone(),
        "saturation" if free => ops::optimize_saturation(buf, f(0), m.parse().unwrap()),
        "saturation" => img.optimize_saturation(f(0), m.parse().unwrap()).buffer().clone(),
        "temperature" if free => ops::change_color_temperature(buf, n(0) as f32, n(1) as f32 + part, f(2)),
        "temperature" => img.change_color_temperature(n(0) as f32 + part, n(1) as f32, f(2)).buffer().clone(),
        "auto_temperature" if free => ops::optimize_color_temperature(buf, f(0), f(1)),
        _ => img.optimize_color_temperature(f(0), f(1)).buffer().clone(),
    })
}
/// a picture that is the same few pixels over and over: its mean is theirs
fn tiled(ctx: &mut Ctx, k: &str, m: &str, px: Vec<Rgb>, q: Value, pixels: i64) {
    let n = px.len();
    let across = ctx.rng.range(1, 40) as usize;
    let down = pixels as usize / (n * across) + 1;
    let mut all = Vec::with_capacity(n * across * down);
    for _ in 0..across * down {
        all.extend(px.iter().cloned());
    }
    let (bw, bh) = ((n * across) as u32, down as u32);
    let buf = PixelBuffer::new_from_raw(bw, bh, all);
    let mut e = json!({"op": k, "m": m, "w": n, "h": 1, "px": scaled(&px), "q": q, "across": across, "down": down});
    ctx.mark(&e);
    let r = apply(ctx, k, m, &buf, &q);
    e["ok"] = json!(r.is_ok());
    if let Ok(b) = r {
        let same = b.width() == bw && b.height() == bh && b.data().chunks(n).all(|c| c == &b.data()[..n]);
        e["nw"] = json!(if same { n } else { 0 });
        e["nh"] = json!(1);
        e["v"] = json!(scaled(&b.data()[..n.min(b.data().len())]));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn image(r: &mut Rng, n: usize) -> Vec<Rgb> {
    let few: Vec<[f32; 3]> = (0..3).map(|_| [crate::imgs::ch(r), crate::imgs::ch(r), crate::imgs::ch(r)]).collect();
    let mode = r.below(5);
    let tint = [r.range(100, 256) as f32 / 256.0, r.range(100, 256) as f32 / 256.0, r.range(100, 256) as f32 / 256.0];
    (0..n).map(|_| {
        let d = match mode {
            0 => *r.pick(&few),
            1 => { let v = crate::imgs::ch(r); [v, v, v] }
            2 => { let v = r.range(0, 256) as f32 / 256.0; let t = |x: f32| (v * x * 256.0).round() / 256.0; [t(tint[0]), t(tint[1]), t(tint[2])] }
            _ => [crate::imgs::ch(r), crate::imgs::ch(r), crate::imgs::ch(r)],
        };
        Rgb { data: [d[0], d[1], d[2], crate::imgs::alpha(r)] }
    }).collect()
}
fn temp(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => r.range(1, 12) * 1000,
        1 => r.range(1, 11) * 1000 + r.range(0, 2),
        2 => r.range(500, 2200),
        3 => r.range(11000, 14000),
        _ => r.range(2500, 10000),
    }
}
pub fn h02(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let px: Vec<Rgb> = c["px"].as_array().unwrap().iter().map(|p| {
            let f = |i: usize| (p[i].as_i64().unwrap() as f64 / P) as f32;
            Rgb { data: [f(0), f(1), f(2), f(3)] }
        }).collect();
        let n = px.len() as u32;
        let w = if ctx.rng.chance(1, 2) { n } else { 1 };
        run(ctx, gs(&c, "k"), gs(&c, "m"), w, px, c["q"].clone());
    }
    for _ in 0..ctx.n(3500, 50000) {
        let big = ctx.rng.chance(1, 10);
        let (w, h) = if big && ctx.rng.chance(1, 4) { crate::imgs::big(&mut ctx.rng) } else if big { (ctx.rng.range(4, 7), ctx.rng.range(4, 7)) } else { (ctx.rng.range(1, 4), ctx.rng.range(1, 3)) };
        let px = image(&mut ctx.rng, (w * h) as usize);
        let tc = match ctx.rng.below(3) { 0 => 0, 1 => ctx.rng.range(1, 96), _ => ctx.rng.range(-20, 40) };
        match ctx.rng.below(4) {
            0 => { let f = ctx.rng.range(-128, 200); run(ctx, "lightness", "-", w as u32, px, json!([f])) }
            1 => { let m = *ctx.rng.pick(&["hsl", "hsv", "lch"]); let o = if ctx.rng.chance(1, 4) { 64 } else { ctx.rng.range(0, 160) }; run(ctx, "saturation", m, w as u32, px, json!([o])) }
            2 => { let a = temp(&mut ctx.rng); let b = if ctx.rng.chance(1, 5) { a } else { temp(&mut ctx.rng) }; run(ctx, "temperature", "-", w as u32, px, json!([a, b, tc])) }
            _ => { let f = ctx.rng.range(-100, 100) * ctx.rng.below(2) as i64; run(ctx, "auto_temperature", "-", w as u32, px, json!([f, tc])) }
        }
    }
    // as many pixels as a photograph has
    for i in 0..ctx.n(40, 400) {
        let n = ctx.rng.range(1, 7) as usize;
        let px = image(&mut ctx.rng, n);
        let pixels = if i % 20 == 0 { ctx.rng.range(4_000_000, 12_000_000) } else { ctx.rng.range(50_000, 300_000) };
        match ctx.rng.below(4) {
            0 => { let f = ctx.rng.range(-128, 200); tiled(ctx, "lightness", "-", px, json!([f]), pixels) }
            1 => { let m = *ctx.rng.pick(&["hsl", "hsv", "lch"]); let o = ctx.rng.range(0, 160); tiled(ctx, "saturation", m, px, json!([o]), pixels) }
            2 => { let (a, b, c) = (temp(&mut ctx.rng), temp(&mut ctx.rng), ctx.rng.range(1, 96)); tiled(ctx, "temperature", "-", px, json!([a, b, c]), pixels) }
            _ => { let (f, c) = (ctx.rng.range(-100, 100), ctx.rng.range(1, 96)); tiled(ctx, "auto_temperature", "-", px, json!([f, c]), pixels) }
        }
    }
}
