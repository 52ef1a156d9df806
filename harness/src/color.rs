//! V01: colour conversions.
use crate::common::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::*;
use serde_json::{json, Value};

const P: f64 = 1048576.0;
const MODELS: [&str; 13] = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch", "labD50", "lchE", "labO10", "lchD50O10", "labE"];

#[derive(Clone, Copy)]
enum Any {
    Rgb(Rgb),
    Srgb(Srgb),
    Hsl(Hsl),
    Hsv(Hsv),
    Yuv(Yuv),
    Xyz(Xyz),
    Lab(Lab<D65, O2>),
    Lch(Lch<D65, O2>),
    LabD50(Lab<D50, O2>),
    LchE(Lch<E, O2>),
    LabO10(Lab<D65, O10>),
    LchD50O10(Lch<D50, O10>),
    LabE(Lab<E, O10>),
}
fn conv<C: Color>(c: &C, m: &str) -> Any {
    match m {
        "rgb" => Any::Rgb(c.to_rgb()),
        "srgb" => Any::Srgb(c.to_srgb()),
        "hsl" => Any::Hsl(c.to_hsl()),
        "hsv" => Any::Hsv(c.to_hsv()),
        "yuv" => Any::Yuv(c.to_yuv()),
        "xyz" => Any::Xyz(c.to_xyz()),
        "lab" => Any::Lab(c.to_lab()),
        "lch" => Any::Lch(c.to_lch()),
        "labD50" => Any::LabD50(c.to_lab()),
        "lchE" => Any::LchE(c.to_lch()),
        "labO10" => Any::LabO10(c.to_lab()),
        "lchD50O10" => Any::LchD50O10(c.to_lch()),
        "labE" => Any::LabE(c.to_lab()),
        _ => panic!("model"),
    }
}
macro_rules! each {
    ($a:expr, $c:ident => $e:expr) => {
        match $a {
            Any::Rgb($c) => $e,
            Any::Srgb($c) => $e,
            Any::Hsl($c) => $e,
            Any::Hsv($c) => $e,
            Any::Yuv($c) => $e,
            Any::Xyz($c) => $e,
            Any::Lab($c) => $e,
            Any::Lch($c) => $e,
            Any::LabD50($c) => $e,
            Any::LchE($c) => $e,
            Any::LabO10($c) => $e,
            Any::LchD50O10($c) => $e,
            Any::LabE($c) => $e,
        }
    };
}
fn to(a: &Any, m: &str) -> Any {
    each!(a, c => conv(c, m))
}
/// From/Into between the default models; None if there is no such conversion
fn into(a: &Any, m: &str) -> Option<Any> {
    macro_rules! t {
        ($c:ident, $($n:literal $t:ident),*) => { match m { $($n => Some(Any::$t((*$c).into())),)* _ => None } };
    }
    match a {
        Any::Rgb(c) => t!(c, "srgb" Srgb, "hsl" Hsl, "hsv" Hsv, "yuv" Yuv, "xyz" Xyz, "lab" Lab, "lch" Lch),
        Any::Srgb(c) => t!(c, "rgb" Rgb, "hsl" Hsl, "hsv" Hsv, "yuv" Yuv, "xyz" Xyz, "lab" Lab, "lch" Lch),
        Any::Hsl(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsv" Hsv, "yuv" Yuv, "xyz" Xyz, "lab" Lab, "lch" Lch),
        Any::Hsv(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsl" Hsl, "yuv" Yuv, "xyz" Xyz, "lab" Lab, "lch" Lch),
        Any::Yuv(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsl" Hsl, "hsv" Hsv, "xyz" Xyz, "lab" Lab, "lch" Lch),
        Any::Xyz(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsl" Hsl, "hsv" Hsv, "yuv" Yuv, "lab" Lab, "lch" Lch),
        Any::Lab(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsl" Hsl, "hsv" Hsv, "yuv" Yuv, "xyz" Xyz, "lch" Lch),
        Any::Lch(c) => t!(c, "rgb" Rgb, "srgb" Srgb, "hsl" Hsl, "hsv" Hsv, "yuv" Yuv, "xyz" Xyz, "lab" Lab),
        _ => None,
    }
}
/// values as the specification scales them: hues of HSL and HSV in sixths of the circle
fn vals(a: &Any) -> Vec<i64> {
    let hue = matches!(a, Any::Hsl(_) | Any::Hsv(_));
    let d: Vec<f32> = each!(a, c => c.data().to_vec());
    d.iter().enumerate().map(|(i, v)| fx(*v as f64 * if hue && i == 0 { 6.0 } else { 1.0 }, P)).collect()
}
fn bits(a: &Any) -> Vec<i64> {
    each!(a, c => c.data().iter().map(|v| v.to_bits() as i32 as i64).collect())
}
fn random(r: &mut Rng) -> Rgb {
    let alpha = match r.below(3) { 0 => 1.0, 1 => 0.0, _ => r.unit() as f32 };
    let d: [f32; 3] = match r.below(10) {
        0 => { let v = r.unit() as f32; [v, v, v] }
        1 => { let v = r.unit() * 0.99; let e = 10f64.powf(-r.unit() * 5.0); [(v + e * 0.01) as f32, v as f32, (v + e * 0.005 * r.unit()) as f32] }
        2 => [r.unit() as f32 * 0.02, r.unit() as f32 * 0.02, r.unit() as f32 * 0.02],
        3 => [r.below(3) as f32 / 2.0, r.below(3) as f32 / 2.0, r.below(3) as f32 / 2.0],
        4 => [r.range(0, 255) as f32 / 255.0, r.range(0, 255) as f32 / 255.0, r.range(0, 255) as f32 / 255.0],
        5 => { let v = r.unit() as f32; let w = r.unit() as f32; *r.pick(&[[v, v, w], [v, w, v], [w, v, v]]) }
        _ => [r.unit() as f32, r.unit() as f32, r.unit() as f32],
    };
    Rgb { data: [d[0], d[1], d[2], alpha] }
}
fn one(ctx: &mut Ctx, c: Rgb) {
    let mut e = json!({"op": "color", "c": vals(&Any::Rgb(c)), "f32": c.data});
    ctx.mark(&e);
    let r = guard(|| {
        let mut m = serde_json::Map::new();
        for k in MODELS {
            let v = conv(&c, k);
            m.insert(k.into(), json!({"v": vals(&v), "back": vals(&to(&v, "rgb"))}));
        }
        m
    });
    e["ok"] = json!(r.is_ok());
    if let Ok(m) = r {
        e["m"] = Value::Object(m);
    }
    ctx.stateless();
    ctx.emit(e);
}
fn cross(ctx: &mut Ctx, c: Rgb) {
    let (a, b) = (*ctx.rng.pick(&MODELS), *ctx.rng.pick(&MODELS));
    let via = ctx.rng.chance(1, 2);
    let mut e = json!({"op": "cross", "c": vals(&Any::Rgb(c)), "from": a, "to": b, "f32": c.data});
    ctx.mark(&e);
    let r = guard(|| {
        let x = conv(&c, a);
        let y = if via { into(&x, b) } else { None }.unwrap_or_else(|| to(&x, b));
        (vals(&y), vals(&to(&y, "rgb")))
    });
    e["ok"] = json!(r.is_ok());
    if let Ok((v, b)) = r {
        e["v"] = json!(v);
        e["back"] = json!(b);
    }
    ctx.stateless();
    ctx.emit(e);
}
/// whole buffers and iterators convert each colour exactly like the single conversion
fn many<C: Color>(v: &[C], w: u32, h: u32, m: &str, kind: &str) -> (Vec<Any>, u32, u32) {
    macro_rules! run {
        ($n:ident, $buf:ident, $it:ident $(, $g:ty)*) => {
            match kind {
                "buffer" => {
                    let p = PixelBuffer::new_from_raw(w, h, v.to_vec()).$buf$(::<$g>)*();
                    (p.data().iter().map(|c| Any::$n(*c)).collect(), p.width(), p.height())
                }
                "iter" => (ColorIter::$it(v.iter().copied()).map(Any::$n).collect(), w, h),
                _ => (ColorIterRef::$it(v.iter()).map(Any::$n).collect(), w, h),
            }
        };
    }
    macro_rules! run2 {
        ($n:ident, $buf:ident, $it:ident, $i:ty, $o:ty) => {
            match kind {
                "buffer" => {
                    let p = PixelBuffer::new_from_raw(w, h, v.to_vec()).$buf::<$i, $o>();
                    (p.data().iter().map(|c| Any::$n(*c)).collect(), p.width(), p.height())
                }
                "iter" => (ColorIter::$it::<$i, $o>(v.iter().copied()).map(Any::$n).collect(), w, h),
                _ => (ColorIterRef::$it::<$i, $o>(v.iter()).map(Any::$n).collect(), w, h),
            }
        };
    }
    match m {
        "rgb" => run!(Rgb, to_rgb, into_rgb),
        "srgb" => run!(Srgb, to_srgb, into_srgb),
        "hsl" => run!(Hsl, to_hsl, into_hsl),
        "hsv" => run!(Hsv, to_hsv, into_hsv),
        "yuv" => run!(Yuv, to_yuv, into_yuv),
        "xyz" => run!(Xyz, to_xyz, into_xyz),
        "lab" => run2!(Lab, to_lab, into_lab, D65, O2),
        "lch" => run2!(Lch, to_lch, into_lch, D65, O2),
        "labD50" => run2!(LabD50, to_lab, into_lab, D50, O2),
        "lchE" => run2!(LchE, to_lch, into_lch, E, O2),
        "labO10" => run2!(LabO10, to_lab, into_lab, D65, O10),
        "lchD50O10" => run2!(LchD50O10, to_lch, into_lch, D50, O10),
        "labE" => run2!(LabE, to_lab, into_lab, E, O10),
        _ => panic!("model"),
    }
}
fn bulk(ctx: &mut Ctx) {
    let (w, h) = if ctx.rng.chance(1, 20) { crate::imgs::big(&mut ctx.rng) } else { (ctx.rng.range(1, 4), ctx.rng.range(1, 3)) };
    let (w, h) = (w as u32, h as u32);
    let d: Vec<Rgb> = (0..w * h).map(|_| random(&mut ctx.rng)).collect();
    let a = *ctx.rng.pick(&MODELS);
    let b = *ctx.rng.pick(&MODELS);
    let kind = *ctx.rng.pick(&["buffer", "iter", "iterref"]);
    let mut e = json!({"op": "bulk", "kind": kind, "from": a, "to": b, "w": w, "h": h});
    ctx.mark(&e);
    let src: Vec<Any> = d.iter().map(|c| conv(c, a)).collect();
    let r = guard(|| {
        let single: Vec<Any> = src.iter().map(|x| to(x, b)).collect();
        macro_rules! go {
            ($($n:ident),*) => { match src[0] { $(Any::$n(_) => {
                let v: Vec<_> = src.iter().filter_map(|x| if let Any::$n(c) = x { Some(*c) } else { None }).collect();
                many(&v, w, h, b, kind)
            })* } };
        }
        let (m, nw, nh) = go!(Rgb, Srgb, Hsl, Hsv, Yuv, Xyz, Lab, Lch, LabD50, LchE, LabO10, LchD50O10, LabE);
        (single.iter().map(bits).collect::<Vec<_>>(), m.iter().map(bits).collect::<Vec<_>>(), nw, nh)
    });
    e["ok"] = json!(r.is_ok());
    if let Ok((s, m, nw, nh)) = r {
        e["one"] = json!(s);
        e["all"] = json!(m);
        e["nw"] = json!(nw);
        e["nh"] = json!(nh);
    }
    ctx.stateless();
    ctx.emit(e);
}
pub fn v01(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let f = |k: &str| (gi(&c, k) as f64 / P) as f32;
        one(ctx, Rgb { data: [f("r"), f("g"), f("b"), 1.0] });
    }
    for _ in 0..ctx.n(3000, 60000) {
        let c = random(&mut ctx.rng);
        one(ctx, c);
    }
    for _ in 0..ctx.n(4000, 80000) {
        let c = random(&mut ctx.rng);
        cross(ctx, c);
    }
    for _ in 0..ctx.n(1500, 20000) {
        bulk(ctx);
    }
}
