//! C02: blend.
use crate::common::*;
use crate::imgs::*;
use crate::orc;
use d10::ops::BlendOp;
use d10::*;
use serde_json::json;
use std::f64::consts::PI;

pub const OPS: [&str; 12] = ["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten",
    "lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color"];

fn hue_moved(h1: f64, h2: f64, t: f64) -> f64 {
    let mut d = h2 - h1;
    if d > PI { d -= 2.0 * PI } else if d < -PI { d += 2.0 * PI }
    let h = h1 + d * t;
    if h > PI { h - 2.0 * PI } else if h <= -PI { h + 2.0 * PI } else { h }
}
pub fn target(k: &str, q1: [f64; 3], q2: [f64; 3], t: f64) -> [f64; 3] {
    let lerp = |a: f64, b: f64| a + (b - a) * t;
    match k {
        "lch_darken" => [lerp(q1[0], q1[0].min(q2[0])), q1[1], q1[2]],
        "lch_lighten" => [lerp(q1[0], q1[0].max(q2[0])), q1[1], q1[2]],
        "lch_hue" => [q1[0], q1[1], hue_moved(q1[2], q2[2], t)],
        "lch_saturation" => [q1[0], lerp(q1[1], q2[1]), q1[2]],
        _ => [q1[0], lerp(q1[1], q2[1]), hue_moved(q1[2], q2[2], t)],
    }
}

fn one(ctx: &mut Ctx, k: &str, a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>, t: f64, method: bool) {
    let mut e = json!({"op": "blend", "k": k, "t": fx(t, S), "w1": a.width(), "h1": a.height(), "px1": pxs(a.data()),
        "w2": b.width(), "h2": b.height(), "px2": pxs(b.data()), "method": method});
    ctx.mark(&e);
    let r = guard(|| {
        let op: BlendOp = k.parse().unwrap();
        if method {
            Image::new_from_buffer(a.clone()).blend(&Image::new_from_buffer(b.clone()), op, t as f32).buffer().clone()
        } else {
            ops::blend_image(a, b, op, t as f32)
        }
    });
    e["ok"] = json!(r.is_ok());
    if let Ok(r) = r {
        e["w"] = json!(r.width());
        e["h"] = json!(r.height());
        e["v"] = json!(pxs(r.data()));
        if k.starts_with("lch") {
            let mut v = vec![];
            for y in 0..r.height() as i32 {
                for x in 0..r.width() as i32 {
                    v.push(match (a.get_pixel_optional(x, y), b.get_pixel_optional(x, y)) {
                        (Some(p), Some(q)) => {
                            let (q1, q2) = (orc::lch(c3(p), orc::D65), orc::lch(c3(q), orc::D65));
                            let tq = target(k, q1, q2, t);
                            json!({"q1": f3(q1), "q2": f3(q2), "tq": f3(tq), "rgb": f3(orc::lch_rgb(tq, orc::D65))})
                        }
                        _ => json!({"q1": [0, 0, 0], "q2": [0, 0, 0], "tq": [0, 0, 0], "rgb": [0, 0, 0]}),
                    });
                }
            }
            e["lch"] = json!(v);
        }
    }
    ctx.stateless();
    ctx.emit(e);
}

pub fn c02(ctx: &mut Ctx) {
    for i in 0..ctx.n(2400, 40000) {
        let d = |r: &mut Rng| match r.below(12) { 0 if r.chance(1, 4) => big(r), 0 => (0, 0), 1 => (1, 5), 2 => (5, 1), _ => (r.range(1, 4), r.range(1, 4)) };
        let (w1, h1) = d(&mut ctx.rng);
        let (w2, h2) = if i % 3 == 0 { (w1, h1) } else { d(&mut ctx.rng) };
        let a = image(&mut ctx.rng, w1, h1);
        let b = image(&mut ctx.rng, w2, h2);
        let t = match ctx.rng.below(4) { 0 => 1.0, 1 => 0.0, _ => ctx.rng.range(0, 16) as f64 / 16.0 };
        let method = ctx.rng.chance(1, 2);
        one(ctx, OPS[i as usize % 12], &a, &b, t, method);
    }
}
