//! T01, T02: adjustments of single pixels.
use crate::common::*;
use d10::*;
use serde_json::{json, Value};

const P: f64 = 1048576.0;
pub const GRAYS: [&str; 9] = ["average", "rec601luma", "rec709luma", "brightness", "lightness", "saturation", "red", "green", "blue"];
const T1: [&str; 10] = ["gamma", "gamma_opt", "level", "brightness", "contrast", "brightness_contrast", "invert", "gray", "sepia", "difference"];
const T2: [&str; 7] = ["saturation", "stretch_saturation", "gamma_saturation", "lightness", "hue_rotate", "vibrance", "modulate"];

fn rgb(v: &[i64]) -> Rgb {
    let f = |i: usize| (v[i] as f64 / P) as f32;
    Rgb { data: [f(0), f(1), f(2), f(3)] }
}
fn scaled(c: &Rgb) -> Vec<i64> {
    c.data.iter().map(|v| fx(*v as f64, P)).collect()
}
pub fn apply(k: &str, q: &Value, c: &Rgb, o: &Rgb) -> Rgb {
    let p = |i: usize| (q[i].as_i64().unwrap() as f64 / 64.0) as f32;
    match k {
        "gamma" => c.with_gamma(p(0)),
        "gamma_opt" => c.with_gamma_opt(p(0)),
        "level" => c.with_level(p(0), p(1), p(2)),
        "brightness" => c.with_brightness(p(0)),
        "contrast" => c.with_contrast(p(0)),
        "brightness_contrast" => c.with_brightness_contrast(p(0), p(1)),
        "invert" => c.invert(),
        "gray" => match q[0].as_str().unwrap() {
            "rec709luma" if c.red() > 0.5 => c.to_gray(),
            i => c.to_gray_with_intensity(i.parse().unwrap()),
        },
        "sepia" => c.with_sepia(),
        "difference" => c.difference(o),
        "saturation" => c.with_saturation(p(0)),
        "stretch_saturation" => c.stretch_saturation(p(0)),
        "gamma_saturation" => c.with_gamma_saturation(p(0)),
        "lightness" => c.with_lightness(p(0)),
        "hue_rotate" => c.with_hue_rotate(p(0)),
        "vibrance" => c.with_vibrance(p(0)),
        "modulate" => c.modulate(p(0), p(1), p(2)),
        _ => panic!("op"),
    }
}
/// channels are exact multiples of 1/P
fn color(r: &mut Rng, wide: bool) -> Vec<i64> {
    let u = |r: &mut Rng| r.range(0, 1048576);
    let mut d = match r.below(10) {
        0 => {
            let v = u(r);
            vec![v, v, v]
        }
        1 => {
            let (v, w) = (u(r), u(r));
            r.pick(&[[v, v, w], [v, w, v], [w, v, v]]).to_vec()
        }
        2 => (0..3).map(|_| r.below(3) as i64 * 524288).collect(),
        3 => (0..3).map(|_| r.range(0, 256) * 4096).collect(),
        4 => (0..3).map(|_| r.range(0, 3000)).collect(),
        5 => {
            let v = r.range(0, 1048000);
            (0..3).map(|_| v + r.range(0, 500)).collect()
        }
        6 if wide => (0..3).map(|_| r.range(-400000, 1400000)).collect(),
        _ => (0..3).map(|_| u(r)).collect(),
    };
    d.push(match r.below(4) {
        0 => 1048576,
        1 => 0,
        _ => u(r),
    });
    d
}
fn params(r: &mut Rng, k: &str) -> Value {
    let gamma = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1 => -r.range(1, 200),
        2 => 64,
        3 if r.chance(1, 2) => r.range(640, 6400),
        _ => r.range(4, 640),
    };
    let factor = |r: &mut Rng| match r.below(6) {
        0 => 64,
        1 => 0,
        2 => -r.range(1, 200),
        3 if r.chance(1, 2) => *r.pick(&[-1, 1, 1]) * r.range(320, 2500),
        _ => r.range(1, 320),
    };
    match k {
        "gamma" | "gamma_opt" | "gamma_saturation" => json!([gamma(r)]),
        "level" => {
            let (a, b) = (r.range(-20, 70), r.range(-5, 90));
            let b = if r.chance(1, 8) { a } else { b };
            let (a, b) = if r.chance(1, 8) { (0, 64) } else { (a, b) };
            json!([a, b, if r.chance(1, 3) { 64 } else { gamma(r) }])
        }
        "brightness" | "vibrance" => json!([if r.chance(1, 6) { 0 } else { r.range(-100, 100) * *r.pick(&[1, 1, 1, 8]) }]),
        "brightness_contrast" => json!([r.range(-64, 64) * r.below(2) as i64, factor(r)]),
        "contrast" | "saturation" | "stretch_saturation" | "lightness" => json!([factor(r)]),
        "hue_rotate" => json!([match r.below(6) {
            0 => r.range(-5, 5) * 360 * 64,
            1 => r.range(-1900, 1900) * 64,
            2 => r.range(-12, 12) * 30 * 64,
            _ => r.range(-400 * 64, 400 * 64),
        }]),
        "modulate" => {
            let f = |r: &mut Rng| if r.chance(1, 3) { 64 } else { r.range(0, 200) };
            json!([f(r), f(r), f(r)])
        }
        "gray" => json!([*r.pick(&GRAYS)]),
        _ => json!([]),
    }
}
fn run(ctx: &mut Ctx, k: &str, q: Value, c: Vec<i64>, o: Vec<i64>) {
    let (a, b) = (rgb(&c), rgb(&o));
    let mut e = json!({"op": "tone", "k": k, "q": q, "c": c, "o": o});
    ctx.mark(&e);
    let r = guard(|| apply(k, &q, &a, &b));
    e["ok"] = json!(r.is_ok());
    if let Ok(v) = r {
        e["v"] = json!(scaled(&v));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn all(ctx: &mut Ctx, ops: &[&'static str], n: u64) {
    for c in ctx.cases() {
        let mut v: Vec<i64> = c["c"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        v.push(*ctx.rng.pick(&[0, 524288, 1048576]));
        run(ctx, gs(&c, "k"), c["q"].clone(), v, vec![1048576, 0, 524288, 262144]);
    }
    for _ in 0..n {
        let k = *ctx.rng.pick(ops);
        let q = params(&mut ctx.rng, k);
        let wide = matches!(k, "gamma" | "gamma_opt" | "level" | "brightness" | "contrast" | "brightness_contrast" | "sepia" | "invert" | "difference")
            // the others are not linear
            || k == "gray" && matches!(q[0].as_str().unwrap(), "average" | "rec601luma" | "rec709luma" | "red" | "green" | "blue");
        let (c, o) = (color(&mut ctx.rng, wide), color(&mut ctx.rng, false));
        run(ctx, k, q, c, o);
    }
}
pub fn t01(ctx: &mut Ctx) {
    let n = ctx.n(8000, 200000);
    all(ctx, &T1, n);
}
pub fn t02(ctx: &mut Ctx) {
    let n = ctx.n(8000, 200000);
    all(ctx, &T2, n);
}
