//! E01: drawing and simulated JPEG quality, with the steps they are defined by.
use crate::common::*;
use crate::imgs::*;
use d10::*;
use serde_json::{json, Value};

const P: f64 = 1048576.0;
type B = PixelBuffer<Rgb>;
fn scaled(b: &B) -> Vec<Vec<i64>> {
    b.data().iter().map(|c| c.data.iter().map(|v| fx(*v as f64, P)).collect()).collect()
}
fn zip(a: &B, b: &B, f: impl Fn(&Rgb, &Rgb) -> Rgb) -> B {
    let d = a.data().iter().zip(b.data()).map(|(p, q)| f(p, q)).collect();
    PixelBuffer::new_from_raw(a.width(), a.height(), d)
}
fn stroke(o: &Rgb, s: &Rgb) -> Rgb {
    let mean = |c: &Rgb| (c.data[0] + c.data[1] + c.data[2]) / 3.0;
    let ratio = |o: f32, s: f32| o / (1.0 - (1.0 - s) + 0.01).min(1.0);
    let mut r = ratio(mean(o), mean(s)).min(1.0);
    for i in 0..3 {
        if o.data[i] > 0.8 || 1.0 - s.data[i] < 0.2 {
            r = r.min(ratio(o.data[i], s.data[i]));
        }
    }
    let v = if r > 0.8 { 1.0 } else { ((r - 0.5) * 1.2).max(0.0) };
    Rgb::new(v, v, v)
}
fn drawing(ctx: &mut Ctx, a: &B, radius: u32) {
    let spot = ctx.rng.below(1000);
    let mut e = json!({"op": "drawing", "w": a.width(), "h": a.height(), "radius": radius, "px": scaled(a), "spot": spot});
    ctx.mark(&e);
    let forms: Vec<bool> = (0..3).map(|_| ctx.rng.chance(1, 2)).collect();
    let r = guard(|| {
        let make = |m: ops::DrawingMode, i: usize| if forms[i] { ops::drawing(a, radius, m) } else { Image::new_from_buffer(a.clone()).drawing(radius, m).buffer().clone() };
        vec![make(ops::DrawingMode::Gray, 0), make(ops::DrawingMode::Colored, 1), make(ops::DrawingMode::ReducedColors, 2)]
    });
    e["ok"] = json!(r.is_ok());
    if let Ok(r) = r {
        e["rw"] = json!(r[0].width());
        e["rh"] = json!(r[0].height());
        for b in &r {
            if (b.width(), b.height()) != (r[0].width(), r[0].height()) {
                e["rw"] = json!(-1);
            }
        }
        let mut put = |k: &str, b: &B| e[k] = json!(scaled(b));
        put("gray", &r[0]);
        put("colored", &r[1]);
        put("reduced", &r[2]);
        let lift = a.map_colors(|c| Rgb::new_with_alpha(c.red() * 0.8 + 0.2, c.green() * 0.8 + 0.2, c.blue() * 0.8 + 0.2, c.alpha()));
        put("lift", &lift);
        let b = ops::gaussian_blur(&lift, 1, None);
        put("b", &b);
        let u = ops::unsharp(&b, 4, 4.0, Some(5.0));
        put("u", &u);
        let o = u.map_colors(|c| c.with_contrast(1.05));
        put("o", &o);
        let s = ops::gaussian_blur(&lift, radius, None);
        put("s", &s);
        let ink = zip(&o, &s, stroke);
        put("ink", &ink);
        let sharp = ops::unsharp(&ink, 2, 1.0, None);
        put("sharp", &sharp);
        let clean = ops::despeckle(&sharp, 0.15, 1);
        put("clean", &clean);
        let r0 = a.map_colors(|c| {
            let c = c.to_hsv();
            c.with_saturation(c.saturation() / 2.0).with_value(((c.value() * 6.5 + 0.2) / 4.5).min(1.0)).to_rgb()
        });
        put("r0", &r0);
        let r2 = ops::gaussian_blur(&r0, 2, None);
        put("r2", &r2);
        let t1 = zip(&clean, &r2, |c, d| c.to_hsv().with_saturation(d.to_hsv().saturation()).to_rgb());
        put("t1", &t1);
        let g3 = ops::gaussian_blur(a, 3, None);
        put("g3", &g3);
        let t2 = zip(&t1, &g3, |c, d| c.to_hsv().with_hue(d.to_hsv().hue()).to_rgb());
        put("t2", &t2);
        let g4 = ops::gaussian_blur(a, 4, None);
        put("g4", &g4);
        let t3 = zip(&t2, &g4, |c, d| { let c = c.to_hsv(); c.with_value(c.value() * d.to_hsv().value()).to_rgb() });
        put("t3", &t3);
        let t4 = ops::unsharp(&t3, 3, 1.5, None);
        put("t4", &t4);
        put("t5", &t4.map_colors(|c| c.with_saturation(1.3).with_gamma(1.1).with_vibrance(0.3)));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn jpeg(ctx: &mut Ctx, a: &B, q: u8, keep: bool) {
    let mut e = json!({"op": "jpeg", "w": a.width(), "h": a.height(), "q": q, "keep": keep, "px": scaled(a)});
    ctx.mark(&e);
    let free = ctx.rng.chance(1, 2);
    let im = Image::new_from_buffer(a.clone());
    let r = guard(|| if free { ops::jpeg_quality(a, q, keep) } else { im.with_jpeg_quality(q, keep).buffer().clone() });
    e["ok"] = json!(r.is_ok());
    if let Ok(r) = r {
        e["rw"] = json!(r.width());
        e["rh"] = json!(r.height());
        e["v"] = json!(scaled(&r));
        let d = Image::read_from_buffer(&im.save_to_buffer(EncodingFormat::jpeg_with_quality(q)).unwrap()).unwrap();
        e["dec"] = json!(scaled(d.buffer()));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn case_img(c: &Value) -> B {
    let d = c["v"].as_array().unwrap().iter().map(|v| {
        let v = v.as_i64().unwrap() as f32 / 256.0;
        Rgb { data: [v, 1.0 - v, v / 2.0, 1.0] }
    }).collect();
    PixelBuffer::new_from_raw(gi(c, "w") as u32, gi(c, "h") as u32, d)
}
/// smooth areas with lines and dots, where outlines, flat parts and lone dark pixels all occur
fn scene(r: &mut Rng) -> B {
    let (w, h) = match r.below(6) { 0 => (1, r.range(1, 7)), 1 => (r.range(1, 7), 1), 2 => (r.range(3, 11), r.range(2, 4)), _ => (r.range(2, 7), r.range(2, 7)) };
    if r.chance(1, 3) {
        return image(r, w, h);
    }
    let k = |r: &mut Rng| r.range(0, 256) as f32 / 256.0;
    let (p, q): ([f32; 3], [f32; 3]) = (std::array::from_fn(|_| k(r)), std::array::from_fn(|_| k(r)));
    let (dx, dy, dots) = (r.range(0, 3), r.range(0, 3), r.below(4));
    let light = r.chance(1, 2);
    let d = (0..w * h).map(|i| {
        let t = ((i % w) * dx + (i / w) * dy) as f32 / 16.0;
        let mut c: [f32; 3] = std::array::from_fn(|j| p[j] + (q[j] - p[j]) * t.min(1.0));
        if light {
            c = c.map(|v| 0.5 + v / 2.0);
        }
        if r.below(8) < dots {
            c = c.map(|v| v * 0.25);
        }
        Rgb { data: [(c[0] * 256.0).round() / 256.0, (c[1] * 256.0).round() / 256.0, (c[2] * 256.0).round() / 256.0, alpha(r)] }
    }).collect();
    PixelBuffer::new_from_raw(w as u32, h as u32, d)
}
pub fn e01(ctx: &mut Ctx) {
    let every = ctx.n(2, 1) as usize;
    let cases: Vec<Value> = ctx.cases().into_iter().step_by(every).collect();
    let n = cases.len() + ctx.n(360, 6000) as usize;
    for i in 0..n {
        let (a, radius) = match cases.get(i) {
            Some(c) => (case_img(c), gi(c, "r") as u32),
            None => (scene(&mut ctx.rng), match ctx.rng.below(7) { 0 => 0, 1 => 5, 2 => ctx.rng.range(6, 9), 3 if ctx.rng.chance(1, 2) => ctx.rng.range(10, 20), _ => ctx.rng.range(1, 4) } as u32),
        };
        drawing(ctx, &a, radius);
        if i % 3 == 0 {
            let q = match ctx.rng.below(4) { 0 => *ctx.rng.pick(&[0, 1, 50, 99, 100, 101, 255]), _ => ctx.rng.range(0, 100) };
            let keep = ctx.rng.chance(1, 2);
            jpeg(ctx, &a, q as u8, keep);
        }
    }
}
