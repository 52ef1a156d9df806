//! Every operation of Image that returns a new image, with random parameters: as a method, as the
//! free function it exposes and, where there is one, in place.
use crate::common::*;
use d10::*;
use serde_json::{json, Value};

type M = Box<dyn Fn(&Image, &Image) -> Image>;
type F = Box<dyn Fn(&PixelBuffer<Rgb>, &PixelBuffer<Rgb>) -> PixelBuffer<Rgb>>;
type I = Box<dyn Fn(&mut Image, &Image)>;
pub struct Op {
    pub name: String,
    /// integers the specification needs (sizes, modes)
    pub q: Value,
    /// full description of the call
    pub key: String,
    pub noise: bool,
    pub binary: bool,
    pub method: M,
    pub free: Option<F>,
    pub inplace: Option<I>,
}
/// a real parameter: neutral, ordinary or extreme
fn real(r: &mut Rng, lo: f64, hi: f64) -> f32 {
    match r.below(8) {
        0 => lo as f32,
        1 => hi as f32,
        2 => 0.0f64.clamp(lo, hi) as f32,
        3 => 1.0f64.clamp(lo, hi) as f32,
        4 => (lo + (hi - lo) * 1e-7) as f32,
        _ => (lo + (hi - lo) * r.unit()) as f32,
    }
}
const FILTERS: [&str; 5] = ["nearest", "bilinear", "bicubic", "lanczos3", "auto"];
pub const NAMES: [&str; 38] = [
    "crop", "flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "rotate", "edge_detection", "resize", "resize_pct",
    "jpeg_quality", "random_noise", "salt_n_pepper_noise", "rgb_noise", "gaussian_noise", "gaussian_blur", "unsharp", "white_balance", "balance",
    "compose", "blend", "drawing", "interlace", "apply_palette", "despeckle", "stretch_contrast", "optimize_saturation",
    "change_color_temperature", "optimize_color_temperature", "optimize_lightness", "equalize", "symmetric_nearest_neighbor", "tone", "tone",
    "tone", "compose_slice", "apply_kernel", "convert",
];
const TONES: [&str; 21] = [
    "gray", "invert", "difference", "gamma", "gamma_opt", "level", "brightness", "saturation", "stretch_saturation", "gamma_saturation", "lightness",
    "hue_rotate", "contrast", "brightness_contrast", "vibrance", "sepia", "modulate", "alpha_blend", "map_channels", "gray_intensity", "with_red",
];
macro_rules! op {
    ($name:expr, $q:expr, $key:expr, $m:expr, $f:expr) => {
        Op { name: $name.to_string(), q: $q, key: $key, noise: false, binary: false, method: Box::new($m), free: Some(Box::new($f)), inplace: None }
    };
}
fn with_inplace(mut o: Op, i: impl Fn(&mut Image, &Image) + 'static) -> Op {
    o.inplace = Some(Box::new(i));
    o
}
fn noisy(mut o: Op) -> Op {
    o.noise = true;
    o
}
fn binary(mut o: Op) -> Op {
    o.binary = true;
    o
}
pub fn make(r: &mut Rng, name: &str, w: i64, h: i64) -> Op {
    let s = |r: &mut Rng, v: &[&str]| r.pick(v).to_string();
    match name {
        "crop" => {
            let (x, y) = (r.range(0, w - 1) as u32, r.range(0, h - 1) as u32);
            let (cw, ch) = (r.range(1, w + 2) as u32, if r.chance(1, 8) { u32::MAX } else { r.range(1, h + 2) as u32 });
            op!(name, json!([x, y, cw.min(1 << 30), ch.min(1 << 30)]), format!("crop {} {} {} {}", x, y, cw, ch), move |a, _| a.crop(x, y, cw, ch), move |a, _| ops::crop(a, x, y, cw, ch))
        }
        "flip_horizontal" => op!(name, json!([]), name.into(), |a: &Image, _| a.flip_horizontal(), |a: &PixelBuffer<Rgb>, _| ops::flip_horizontal(a)),
        "flip_vertical" => op!(name, json!([]), name.into(), |a: &Image, _| a.flip_vertical(), |a: &PixelBuffer<Rgb>, _| ops::flip_vertical(a)),
        "rotate90" => op!(name, json!([]), name.into(), |a: &Image, _| a.rotate90(), |a: &PixelBuffer<Rgb>, _| ops::rotate90(a)),
        "rotate180" => op!(name, json!([]), name.into(), |a: &Image, _| a.rotate180(), |a: &PixelBuffer<Rgb>, _| ops::rotate180(a)),
        "rotate270" => op!(name, json!([]), name.into(), |a: &Image, _| a.rotate270(), |a: &PixelBuffer<Rgb>, _| ops::rotate270(a)),
        "rotate" => {
            let a = real(r, -1000.0, 1000.0);
            let f = s(r, &FILTERS);
            let g = f.clone();
            op!(name, json!([]), format!("rotate {} {}", a, f), move |i, _| i.rotate(a, f.parse().unwrap()), move |i, _| ops::rotate(i, a, Rgb::NONE, g.parse().unwrap()))
        }
        "edge_detection" => {
            let m = s(r, &["sobel", "laplace", "default"]);
            let n = m.clone();
            op!(name, json!([]), format!("edge {}", m), move |i, _| i.edge_detection(m.parse().unwrap()), move |i, _| ops::edge_detection(i, n.parse().unwrap()))
        }
        "resize" => {
            let (nw, nh) = (r.range(1, 3 * w + 1) as u32, r.range(1, 3 * h + 1) as u32);
            let f = s(r, &FILTERS);
            let g = f.clone();
            op!(name, json!([nw, nh]), format!("resize {} {} {}", nw, nh, f), move |i, _| i.resize(nw, nh, f.parse().unwrap()), move |i, _| ops::resize(i, nw, nh, g.parse().unwrap()))
        }
        "resize_pct" => {
            let p = if r.chance(1, 4) { r.range(0, 400) } else { *r.pick(&[1, 10, 25, 50, 75, 100, 150, 200]) };
            let f = s(r, &FILTERS);
            let mut o = op!(name, json!([p]), format!("resize_pct {} {}", p, f), move |i, _| i.resize_pct(p as f32, f.parse().unwrap()), |i: &PixelBuffer<Rgb>, _| i.clone());
            o.free = None;
            o
        }
        "jpeg_quality" => {
            let q = *r.pick(&[0u8, 1, 50, 85, 100, 255]);
            let k = r.chance(1, 2);
            op!(name, json!([k as i32]), format!("jpeg {} {}", q, k), move |i, _| i.with_jpeg_quality(q, k), move |i, _| ops::jpeg_quality(i, q, k))
        }
        "random_noise" => {
            let t = real(r, 0.0, 1.0);
            noisy(with_inplace(op!(name, json!([]), format!("random_noise {}", t), move |i, _| i.random_noise(t), move |i, _| ops::random_noise(i, t)), move |i, _| i.add_random_noise(t)))
        }
        "salt_n_pepper_noise" => {
            let t = real(r, 0.0, 1.0);
            noisy(with_inplace(op!(name, json!([]), format!("salt {}", t), move |i, _| i.salt_n_pepper_noise(t), move |i, _| ops::salt_n_pepper_noise(i, t)), move |i, _| i.add_salt_n_pepper_noise(t)))
        }
        "rgb_noise" => {
            let t = real(r, 0.0, 1.0);
            noisy(with_inplace(op!(name, json!([]), format!("rgb_noise {}", t), move |i, _| i.rgb_noise(t), move |i, _| ops::rgb_noise(i, t)), move |i, _| i.add_rgb_noise(t)))
        }
        "gaussian_noise" => {
            let t = real(r, 0.0, 1.0);
            noisy(with_inplace(op!(name, json!([]), format!("gaussian_noise {}", t), move |i, _| i.gaussian_noise(t), move |i, _| ops::gaussian_noise(i, t)), move |i, _| i.add_gaussian_noise(t)))
        }
        "gaussian_blur" => {
            let rad = r.range(0, 6) as u32;
            let sg = sigma(r);
            op!(name, json!([]), format!("blur {} {:?}", rad, sg), move |i, _| i.gaussian_blur(rad, sg), move |i, _| ops::gaussian_blur(i, rad, sg))
        }
        "unsharp" => {
            let rad = r.range(0, 5) as u32;
            let (f, sg) = (real(r, -50.0, 50.0), sigma(r));
            op!(name, json!([]), format!("unsharp {} {} {:?}", rad, f, sg), move |i, _| i.unsharp(rad, f, sg), move |i, _| ops::unsharp(i, rad, f, sg))
        }
        "white_balance" => {
            let t = real(r, 0.0, 1000.0);
            op!(name, json!([]), format!("balance rgb {}", t), move |i, _| i.white_balance(t), move |i, _| ops::balance(i, ops::BalanceMode::Rgb, t))
        }
        "balance" => {
            let t = real(r, 0.0, 1000.0);
            let m = s(r, &["rgb", "srgb", "hsv", "hsl", "lch"]);
            let n = m.clone();
            op!(name, json!([]), format!("balance {} {}", m, t), move |i, _| i.balance(m.parse().unwrap(), t), move |i, _| ops::balance(i, n.parse().unwrap(), t))
        }
        "compose" | "compose_slice" => {
            let slice = name == "compose_slice";
            let k = r.below(3);
            let mix = move |a: Rgb, b: Rgb, x: u32, y: u32| match k {
                0 => a.difference(&b),
                1 => Rgb::new_with_alpha(a.data[0].max(b.data[0]), a.data[1].min(b.data[1]), a.data[2] * b.data[2], 1.0),
                _ => if (x + y) % 2 == 0 { a } else { b },
            };
            let d = Rgb::new_with_alpha(0.25, 0.5, 0.75, 0.5);
            binary(op!("compose", json!([]), format!("compose {}", k),
                move |a, b| if slice { Image::compose_slice(&[a, b], d, |x, y, c| mix(c[0], c[1], x, y)) } else { Image::compose([a, b], d, |x, y, [p, q]| mix(p, q, x, y)) },
                move |a, b| if slice { ops::compose([a, b], d, |x, y, [p, q]| mix(p, q, x, y)) } else { ops::compose_slice(&[a, b], d, |x, y, c| mix(c[0], c[1], x, y)) }))
        }
        "blend" => {
            let m = s(r, &["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color"]);
            let t = real(r, 0.0, 1.0);
            let n = m.clone();
            binary(op!(name, json!([]), format!("blend {} {}", m, t), move |a, b| a.blend(b, m.parse().unwrap(), t), move |a, b| ops::blend_image(a, b, n.parse().unwrap(), t)))
        }
        "drawing" => {
            let m = s(r, &["gray", "colored", "reduced_colors"]);
            let rad = r.range(0, 8) as u32;
            let n = m.clone();
            op!(name, json!([(m == "colored") as i32]), format!("drawing {} {}", rad, m), move |a, _| a.drawing(rad, m.parse().unwrap()), move |a, _| ops::drawing(a, rad, n.parse().unwrap()))
        }
        "interlace" => {
            let o = if r.chance(1, 6) { u32::MAX } else { r.range(0, w + 2) as u32 };
            op!(name, json!([]), format!("interlace {}", o), move |a, _| a.interlace(o), move |a, _| ops::interlace(a, o))
        }
        "apply_palette" => binary(with_inplace(op!(name, json!([]), name.into(), |a: &Image, b: &Image| a.apply_palette(b), |a: &PixelBuffer<Rgb>, b: &PixelBuffer<Rgb>| ops::apply_palette(a, b)), |a, b| a.apply_palette_in_place(b))),
        "despeckle" => {
            let (t, n) = (real(r, -0.5, 1.5), r.range(0, 12) as u8);
            op!(name, json!([]), format!("despeckle {} {}", t, n), move |a, _| a.despeckle(t, n), move |a, _| ops::despeckle(a, t, n))
        }
        "stretch_contrast" => {
            let t = real(r, 0.0, 1000.0);
            op!(name, json!([]), format!("stretch_contrast {}", t), move |a, _| a.stretch_contrast(t), move |a, _| ops::stretch_contrast(a, t))
        }
        "optimize_saturation" => {
            let t = real(r, 0.0, 4.0);
            let m = s(r, &["hsl", "hsv", "lch"]);
            let n = m.clone();
            op!(name, json!([]), format!("optimize_saturation {} {}", t, m), move |a, _| a.optimize_saturation(t, m.parse().unwrap()), move |a, _| ops::optimize_saturation(a, t, n.parse().unwrap()))
        }
        "change_color_temperature" => {
            let (o, n, t) = (real(r, 0.0, 20000.0), real(r, -100.0, 15000.0), real(r, -1.0, 4.0));
            op!(name, json!([]), format!("temperature {} {} {}", o, n, t), move |a, _| a.change_color_temperature(o, n, t), move |a, _| ops::change_color_temperature(a, o, n, t))
        }
        "optimize_color_temperature" => {
            let (f, t) = (real(r, -3.0, 3.0), real(r, -1.0, 4.0));
            op!(name, json!([]), format!("auto_temperature {} {}", f, t), move |a, _| a.optimize_color_temperature(f, t), move |a, _| ops::optimize_color_temperature(a, f, t))
        }
        "optimize_lightness" => {
            let f = real(r, -4.0, 4.0);
            op!(name, json!([]), format!("optimize_lightness {}", f), move |a, _| a.optimize_lightness(f), move |a, _| ops::optimize_lightness(a, f))
        }
        "equalize" => {
            let m = s(r, &["rgb", "srgb", "saturation", "lightness", "saturation_lightness"]);
            let n = m.clone();
            op!(name, json!([]), format!("equalize {}", m), move |a, _| a.equalize(m.parse().unwrap()), move |a, _| ops::equalize(a, n.parse().unwrap()))
        }
        "symmetric_nearest_neighbor" => {
            let (n, c) = (r.range(0, 6) as usize, r.chance(1, 2));
            op!(name, json!([]), format!("snn {} {}", n, c), move |a, _| a.symmetric_nearest_neighbor(n, c), move |a, _| ops::symmetric_nearest_neighbor(a, n, c))
        }
        "apply_kernel" => {
            let d: Vec<f32> = (0..9).map(|_| r.range(-8, 8) as f32 / 8.0).collect();
            let e = d.clone();
            let key = format!("kernel {:?}", d);
            op!(name, json!([]), key, move |a, _| Image::new_from_buffer(a.buffer().apply_kernel_dyn(&KernelDyn::new(d.clone(), 3, 3))),
                move |a, _| a.apply_kernel_dyn(&KernelDyn::new(e.clone(), 3, 3)))
        }
        "convert" => {
            let m = r.below(6);
            let conv = move |b: &PixelBuffer<Rgb>| match m {
                0 => b.to_srgb().to_rgb(),
                1 => b.to_hsl().to_rgb(),
                2 => b.to_hsv().to_rgb(),
                3 => b.to_yuv().to_rgb(),
                4 => b.to_xyz().to_rgb(),
                _ => b.to_lch::<illuminant::D65, observer::O2>().to_rgb(),
            };
            op!(name, json!([]), format!("convert {}", m), move |a, _| Image::new_from_buffer(conv(a.buffer())), move |a, _| conv(a))
        }
        _ => {
            let t = match name.strip_prefix("tone_") {
                Some(n) => *TONES.iter().find(|t| **t == n).expect("tone"),
                None => *r.pick(&TONES),
            };
            let f = match t {
                // 1/gamma is undefined for 0
                "gamma" | "gamma_opt" | "gamma_saturation" => { let v = real(r, -4.0, 8.0); if v == 0.0 { 0.01 } else { v } }
                "hue_rotate" => real(r, -1000.0, 1000.0),
                "gray_intensity" => r.below(9) as f32,
                _ => real(r, -8.0, 8.0),
            };
            let (p, q) = (real(r, 0.0, 1.0), real(r, 0.0, 1.0));
            let g = { let v = real(r, 0.1, 4.0); v };
            let name = format!("tone_{}", t);
            let fun = move |c: &Rgb| tone(c, t, f, p, q, g);
            let mut o = op!(name, json!([]), format!("{} {} {} {} {}", t, f, p, q, g), move |a, _| a.map_colors(fun), move |a, _| a.map_colors(fun));
            o.inplace = Some(Box::new(move |a, _| a.mod_colors(fun)));
            o
        }
    }
}
fn sigma(r: &mut Rng) -> Option<f32> {
    match r.below(6) {
        0 | 1 => None,
        2 => Some(0.0),
        3 => Some(1e-20),
        4 => Some(1e20),
        _ => Some(r.unit() as f32 * 4.0),
    }
}
fn tone(c: &Rgb, t: &str, f: f32, p: f32, q: f32, g: f32) -> Rgb {
    match t {
        "gray" => c.to_gray(),
        "invert" => c.invert(),
        "difference" => c.difference(&Rgb::new(p, q, 0.5)),
        "gamma" => c.with_gamma(f),
        "gamma_opt" => c.with_gamma_opt(f),
        "level" => c.with_level(p, q, g),
        "brightness" => c.with_brightness(f),
        "saturation" => c.with_saturation(f),
        "stretch_saturation" => c.stretch_saturation(f),
        "gamma_saturation" => c.with_gamma_saturation(f),
        "lightness" => c.with_lightness(f),
        "hue_rotate" => c.with_hue_rotate(f),
        "contrast" => c.with_contrast(f),
        "brightness_contrast" => c.with_brightness_contrast(p - q, f),
        "vibrance" => c.with_vibrance(f),
        "sepia" => c.with_sepia(),
        "modulate" => c.modulate(f, p * 3.0, q * 3.0),
        "alpha_blend" => c.alpha_blend(Rgb { data: [p, q, 0.5, g.min(1.0)] }),
        "map_channels" => c.map_channels(|v| v * f + p),
        "gray_intensity" => c.to_gray_with_intensity(crate::tone::GRAYS[f as usize].parse().unwrap()),
        _ => c.with_red(p).with_green(q),
    }
}
