//! V03: colours as records of four channels.
use crate::common::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::*;
use serde_json::{json, Value};
use std::cell::RefCell;

fn int(v: f32) -> i64 {
    let x = v as f64 * 8.0;
    if x.fract() == 0.0 && x.abs() < 1e9 { x as i64 } else { 1_999_999_999 }
}
fn back(v: i64) -> f32 {
    (v as f64 / 8.0) as f32
}
fn four(c: &[f32]) -> Vec<i64> {
    c.iter().map(|v| int(*v)).collect()
}
/// what the types have in common without a trait for it
trait Chan: Color {
    const UNIT: bool = false;
    fn new3(v: &[f32]) -> Self;
    fn new4(v: &[f32]) -> Self;
    fn from_func(v: &[f32]) -> Self;
    fn get(&self, i: usize) -> f32;
    fn set(&mut self, i: usize, v: f32);
    fn with(&self, i: usize, v: f32) -> Self;
}
macro_rules! channels {
    ($t:ty, $g0:ident, $g1:ident, $g2:ident, $s0:ident, $s1:ident, $s2:ident, $w0:ident, $w1:ident, $w2:ident) => {
        channels!($t, $g0, $g1, $g2, $s0, $s1, $s2, $w0, $w1, $w2, false, |v: &[f32]| <$t>::new_from_fn(|i| v[i]));
    };
    ($t:ty, $g0:ident, $g1:ident, $g2:ident, $s0:ident, $s1:ident, $s2:ident, $w0:ident, $w1:ident, $w2:ident, $unit:expr, $f:expr) => {
        impl Chan for $t {
            const UNIT: bool = $unit;
            fn new3(v: &[f32]) -> Self { <$t>::new(v[0], v[1], v[2]) }
            fn new4(v: &[f32]) -> Self { <$t>::new_with_alpha(v[0], v[1], v[2], v[3]) }
            fn from_func(v: &[f32]) -> Self { ($f)(v) }
            fn get(&self, i: usize) -> f32 {
                match i { 0 => self.$g0(), 1 => self.$g1(), 2 => self.$g2(), _ => self.alpha() }
            }
            fn set(&mut self, i: usize, v: f32) {
                match i { 0 => self.$s0(v), 1 => self.$s1(v), 2 => self.$s2(v), _ => self.set_alpha(v) }
            }
            fn with(&self, i: usize, v: f32) -> Self {
                match i { 0 => self.$w0(v), 1 => self.$w1(v), 2 => self.$w2(v), _ => self.with_alpha(v) }
            }
        }
    };
}
channels!(Rgb, red, green, blue, set_red, set_green, set_blue, with_red, with_green, with_blue, true, |v: &[f32]| Rgb::new_with_alpha(v[0], v[1], v[2], v[3]));
channels!(Srgb, red, green, blue, set_red, set_green, set_blue, with_red, with_green, with_blue, true, |v: &[f32]| Srgb::new_from_fn(|i| v[i]));
channels!(Hsl, hue, saturation, lightness, set_hue, set_saturation, set_lightness, with_hue, with_saturation, with_lightness);
channels!(Hsv, hue, saturation, value, set_hue, set_saturation, set_value, with_hue, with_saturation, with_value);
channels!(Yuv, y, u, v, set_y, set_u, set_v, with_y, with_u, with_v);
channels!(Xyz, x, y, z, set_x, set_y, set_z, with_x, with_y, with_z);
channels!(Lab<D50, O2>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lab<D50, O10>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lab<D65, O2>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lab<D65, O10>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lab<E, O2>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lab<E, O10>, l, a, b, set_l, set_a, set_b, with_l, with_a, with_b);
channels!(Lch<D50, O2>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);
channels!(Lch<D50, O10>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);
channels!(Lch<D65, O2>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);
channels!(Lch<D65, O10>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);
channels!(Lch<E, O2>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);
channels!(Lch<E, O10>, l, c, h, set_l, set_c, set_h, with_l, with_c, with_h);

const F: fn(f32) -> f32 = |v| 1.0 - 2.0 * v;
/// the calls only RGB colours have
fn rgb_call(c: &mut Rgb, e: &Value) -> Vec<i64> {
    match gs(e, "op") {
        "const" => {
            *c = match gs(e, "name") {
                "NONE" => Rgb::NONE, "WHITE" => Rgb::WHITE, "BLACK" => Rgb::BLACK, "RED" => Rgb::RED, "GREEN" => Rgb::GREEN,
                "BLUE" => Rgb::BLUE, "CYAN" => Rgb::CYAN, "MAGENTA" => Rgb::MAGENTA, "YELLOW" => Rgb::YELLOW, n => panic!("{}", n),
            };
            vec![]
        }
        "mod" => {
            c.mod_color_channels(F);
            vec![]
        }
        "free" => four(c.map_channels_unclamped(F).data()),
        "clamped" => four(c.map_channels(F).data()),
        "extreme" => vec![int(c.min()), int(c.max())],
        o => panic!("{}", o),
    }
}
fn session<C: Chan + 'static>(ctx: &mut Ctx, calls: &[Value]) {
    ctx.session();
    let mut c = C::new3(&[0.0, 0.0, 0.0]);
    for call in calls {
        let mut e = call.clone();
        e["unit"] = json!(C::UNIT);
        let vals = |k: &str| -> Vec<f32> { call[k].as_array().map(|a| a.iter().map(|v| back(v.as_i64().unwrap())).collect()).unwrap_or_default() };
        let (i, x) = (call["i"].as_i64().unwrap_or(1) as usize - 1, back(call["x"].as_i64().unwrap_or(0)));
        let seen = RefCell::new(vec![]);
        let g = |v: f32| { seen.borrow_mut().push(int(v)); v + 2.0 * seen.borrow().len() as f32 + 0.375 };
        let mut out = vec![];
        match gs(call, "op") {
            "new3" => c = C::new3(&vals("v")),
            "new4" => c = C::new4(&vals("v")),
            "fromfn" => c = C::from_func(&vals("v")),
            "default" => c = C::default(),
            "set" => c.set(i, x),
            "data" => c.data_mut()[i] = x,
            "with" => out = four(c.with(i, x).data()),
            "map" => out = four(c.map_color_channels(g).data()),
            "trymap" => {
                let f = gi(call, "fail") as usize;
                let r = c.try_map_color_channels(|v| { let r = g(v); if seen.borrow().len() == f { Err(f as i64) } else { Ok(r) } });
                out = match r { Ok(d) => four(d.data()), Err(k) => vec![k] };
            }
            _ => {
                let any: &mut dyn std::any::Any = &mut c;
                out = rgb_call(any.downcast_mut::<Rgb>().expect("rgb"), call)
            }
        }
        e["out"] = json!(out);
        e["seen"] = json!(*seen.borrow());
        e["data"] = json!(four(c.data()));
        e["get"] = json!((0..4).map(|i| int(c.get(i))).collect::<Vec<_>>());
        ctx.emit(e);
    }
}
fn run(ctx: &mut Ctx, m: i64, calls: &[Value]) {
    match m {
        0 => session::<Rgb>(ctx, calls),
        1 => session::<Srgb>(ctx, calls),
        2 => session::<Hsl>(ctx, calls),
        3 => session::<Hsv>(ctx, calls),
        4 => session::<Yuv>(ctx, calls),
        5 => session::<Xyz>(ctx, calls),
        6 => session::<Lab<D50, O2>>(ctx, calls),
        7 => session::<Lab<D50, O10>>(ctx, calls),
        8 => session::<Lab<D65, O2>>(ctx, calls),
        9 => session::<Lab<D65, O10>>(ctx, calls),
        10 => session::<Lab<E, O2>>(ctx, calls),
        11 => session::<Lab<E, O10>>(ctx, calls),
        12 => session::<Lch<D50, O2>>(ctx, calls),
        13 => session::<Lch<D50, O10>>(ctx, calls),
        14 => session::<Lch<D65, O2>>(ctx, calls),
        15 => session::<Lch<D65, O10>>(ctx, calls),
        16 => session::<Lch<E, O2>>(ctx, calls),
        _ => session::<Lch<E, O10>>(ctx, calls),
    }
}
fn bits(v: &[f32]) -> Vec<String> {
    v.iter().map(|v| format!("{:08x}", v.to_bits())).collect()
}
fn from(i: i64, j: i64, v: [f32; 4]) -> (Vec<String>, Vec<String>) {
    macro_rules! one {
        ($a:ident, $b:ident, $($to:tt)*) => {{
            let a = <$a>::new_with_alpha(v[0], v[1], v[2], v[3]);
            let b: $b = a.into();
            (bits(b.data()), bits(a.$($to)*().data()))
        }};
    }
    match (i, j) {
        (0, 1) => one!(Rgb, Srgb, to_srgb),
        (0, 2) => one!(Rgb, Hsl, to_hsl),
        (0, 3) => one!(Rgb, Hsv, to_hsv),
        (0, 4) => one!(Rgb, Yuv, to_yuv),
        (0, 5) => one!(Rgb, Xyz, to_xyz),
        (0, 6) => one!(Rgb, Lab, to_lab::<D65, O2>),
        (0, 7) => one!(Rgb, Lch, to_lch::<D65, O2>),
        (1, 0) => one!(Srgb, Rgb, to_rgb),
        (1, 2) => one!(Srgb, Hsl, to_hsl),
        (1, 3) => one!(Srgb, Hsv, to_hsv),
        (1, 4) => one!(Srgb, Yuv, to_yuv),
        (1, 5) => one!(Srgb, Xyz, to_xyz),
        (1, 6) => one!(Srgb, Lab, to_lab::<D65, O2>),
        (1, 7) => one!(Srgb, Lch, to_lch::<D65, O2>),
        (2, 0) => one!(Hsl, Rgb, to_rgb),
        (2, 1) => one!(Hsl, Srgb, to_srgb),
        (2, 3) => one!(Hsl, Hsv, to_hsv),
        (2, 4) => one!(Hsl, Yuv, to_yuv),
        (2, 5) => one!(Hsl, Xyz, to_xyz),
        (2, 6) => one!(Hsl, Lab, to_lab::<D65, O2>),
        (2, 7) => one!(Hsl, Lch, to_lch::<D65, O2>),
        (3, 0) => one!(Hsv, Rgb, to_rgb),
        (3, 1) => one!(Hsv, Srgb, to_srgb),
        (3, 2) => one!(Hsv, Hsl, to_hsl),
        (3, 4) => one!(Hsv, Yuv, to_yuv),
        (3, 5) => one!(Hsv, Xyz, to_xyz),
        (3, 6) => one!(Hsv, Lab, to_lab::<D65, O2>),
        (3, 7) => one!(Hsv, Lch, to_lch::<D65, O2>),
        (4, 0) => one!(Yuv, Rgb, to_rgb),
        (4, 1) => one!(Yuv, Srgb, to_srgb),
        (4, 2) => one!(Yuv, Hsl, to_hsl),
        (4, 3) => one!(Yuv, Hsv, to_hsv),
        (4, 5) => one!(Yuv, Xyz, to_xyz),
        (4, 6) => one!(Yuv, Lab, to_lab::<D65, O2>),
        (4, 7) => one!(Yuv, Lch, to_lch::<D65, O2>),
        (5, 0) => one!(Xyz, Rgb, to_rgb),
        (5, 1) => one!(Xyz, Srgb, to_srgb),
        (5, 2) => one!(Xyz, Hsl, to_hsl),
        (5, 3) => one!(Xyz, Hsv, to_hsv),
        (5, 4) => one!(Xyz, Yuv, to_yuv),
        (5, 6) => one!(Xyz, Lab, to_lab::<D65, O2>),
        (5, 7) => one!(Xyz, Lch, to_lch::<D65, O2>),
        (6, 0) => one!(Lab, Rgb, to_rgb),
        (6, 1) => one!(Lab, Srgb, to_srgb),
        (6, 2) => one!(Lab, Hsl, to_hsl),
        (6, 3) => one!(Lab, Hsv, to_hsv),
        (6, 4) => one!(Lab, Yuv, to_yuv),
        (6, 5) => one!(Lab, Xyz, to_xyz),
        (6, 7) => one!(Lab, Lch, to_lch::<D65, O2>),
        (7, 0) => one!(Lch, Rgb, to_rgb),
        (7, 1) => one!(Lch, Srgb, to_srgb),
        (7, 2) => one!(Lch, Hsl, to_hsl),
        (7, 3) => one!(Lch, Hsv, to_hsv),
        (7, 4) => one!(Lch, Yuv, to_yuv),
        (7, 5) => one!(Lch, Xyz, to_xyz),
        (7, 6) => one!(Lch, Lab, to_lab::<D65, O2>),
        _ => panic!("{} {}", i, j),
    }
}
/// an iterator of colours as another model: how it counts, and its colours against each colour's own conversion
fn iter<C: Color>(ctx: &mut Ctx, d: &[C], k: usize, m: i64, owned: bool) {
    macro_rules! one {
        ($into:ident $(::<$il:ty, $ob:ty>)?, $($to:tt)*) => {{
            macro_rules! count {
                ($it:expr) => {{
                    let mut it = $it;
                    let mut v = vec![];
                    for _ in 0..k { if let Some(c) = it.next() { v.push(bits(c.data())) } }
                    let h = it.size_hint();
                    let mut left = 0;
                    for c in it { left += 1; v.push(bits(c.data())) }
                    (v, h, left)
                }};
            }
            let (v, h, left) = if owned { count!(d.iter().cloned().$into$(::<$il, $ob>)?()) } else { count!(d.iter().$into$(::<$il, $ob>)?()) };
            let w: Vec<_> = d.iter().map(|c| bits(c.$($to)*().data())).collect();
            ctx.stateless();
            ctx.emit(json!({"op": "iter", "n": d.len(), "k": k, "m": m, "owned": owned, "left": left, "hint": [h.0 as i64, h.1.map(|v| v as i64).unwrap_or(-1)], "v": v, "w": w}))
        }};
    }
    match m {
        0 => one!(into_rgb, to_rgb),
        1 => one!(into_srgb, to_srgb),
        2 => one!(into_hsl, to_hsl),
        3 => one!(into_hsv, to_hsv),
        4 => one!(into_yuv, to_yuv),
        5 => one!(into_xyz, to_xyz),
        6 => one!(into_lab::<D65, O2>, to_lab::<D65, O2>),
        7 => one!(into_lab::<D50, O10>, to_lab::<D50, O10>),
        8 => one!(into_lch::<D65, O2>, to_lch::<D65, O2>),
        _ => one!(into_lch::<E, O10>, to_lch::<E, O10>),
    }
}
fn call(r: &mut Rng, rgb: bool, first: bool) -> Value {
    let x = |r: &mut Rng| match r.below(4) { 0 => *r.pick(&[0, 8]), 1 => r.range(0, 8), 2 => r.range(-40, 40), _ => r.range(-80000, 80000) };
    let four = |r: &mut Rng| (0..4).map(|_| x(r)).collect::<Vec<_>>();
    if first || r.chance(1, 10) {
        return match r.below(if rgb { 5 } else { 4 }) {
            0 => json!({"op": "new3", "v": four(r)[..3]}),
            1 => json!({"op": "new4", "v": four(r)}),
            2 => json!({"op": "fromfn", "v": four(r)}),
            3 => json!({"op": "default"}),
            _ => json!({"op": "const", "name": *r.pick(&["NONE", "WHITE", "BLACK", "RED", "GREEN", "BLUE", "CYAN", "MAGENTA", "YELLOW"])}),
        };
    }
    match r.below(if rgb { 12 } else { 8 }) {
        0..=2 => json!({"op": "set", "i": r.range(1, 4), "x": x(r)}),
        3 => json!({"op": "data", "i": r.range(1, 4), "x": x(r)}),
        4 | 5 => json!({"op": "with", "i": r.range(1, 4), "x": x(r)}),
        6 => json!({"op": "map"}),
        7 => json!({"op": "trymap", "fail": r.range(0, 3)}),
        8 => json!({"op": "mod"}),
        9 => json!({"op": "free"}),
        10 => json!({"op": "clamped"}),
        _ => json!({"op": "extreme"}),
    }
}
pub fn v03(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let m = if c["rgb"].as_bool().unwrap() { 0 } else { ctx.rng.range(0, 17) };
        run(ctx, m, c["calls"].as_array().unwrap());
    }
    for _ in 0..ctx.n(300, 6000) {
        let m = if ctx.rng.chance(1, 4) { 0 } else { ctx.rng.range(0, 17) };
        let n = ctx.rng.range(2, 12);
        let mut mods = 0;
        let calls: Vec<Value> = (0..n).map(|i| loop {
            let c = call(&mut ctx.rng, m == 0, i == 0);
            mods += (c["op"] == "mod") as i32;       // doubles the values
            if c["op"] != "mod" || mods < 4 { break c }
        }).collect();
        run(ctx, m, &calls);
    }
    for i in 0..8 {
        for j in 0..8 {
            for k in 0..if i == j { 0 } else { ctx.n(6, 60) } {
                let v = crate::imgs::color(&mut ctx.rng).data;
                let v = [v[0], v[1], v[2], if k % 2 == 0 { 0.375 } else { v[3] }];
                let (a, b) = from(i, j, v);
                ctx.stateless();
                ctx.emit(json!({"op": "from", "i": i, "j": j, "v": bits(&v), "from": a, "to": b}));
            }
        }
    }
    for _ in 0..ctx.n(300, 4000) {
        let n = ctx.rng.range(0, 9) as usize;
        let d: Vec<Rgb> = (0..n).map(|_| { let mut c = crate::imgs::color(&mut ctx.rng); c.data[3] = crate::imgs::alpha(&mut ctx.rng); c }).collect();
        let (k, m, owned) = (ctx.rng.range(0, n as i64 + 1) as usize, ctx.rng.range(0, 9), ctx.rng.chance(1, 2));
        match ctx.rng.below(4) {
            0 => iter::<Hsl>(ctx, &d.iter().map(|c| c.to_hsl()).collect::<Vec<_>>(), k, m, owned),
            1 => iter::<Lab<D65, O2>>(ctx, &d.iter().map(|c| c.to_lab()).collect::<Vec<_>>(), k, m, owned),
            _ => iter::<Rgb>(ctx, &d, k, m, owned),
        }
    }
}
