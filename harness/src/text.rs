//! V02: equality, classification and text forms of colours; names of the modes.
use crate::common::*;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::*;
use serde_json::{json, Value};

const Q: f64 = 131072.0;
fn val(q: i64) -> f32 {
    (q as f64 / Q) as f32
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
fn mk<C: Color>(c: &[i64]) -> C {
    let mut r = C::default();
    for i in 0..4 {
        r.data_mut()[i] = val(c[i]);
    }
    r
}
fn equal<C: Color>(a: &[i64], b: &[i64]) -> (bool, bool, bool) {
    let (a, b): (C, C) = (mk(a), mk(b));
    (a == b, b == a, a != b)
}
fn print<C: Color>(c: &[i64]) -> (String, String, bool) {
    let c: C = mk(c);
    (c.type_name().to_string(), format!("{}", c), c.has_transparency())
}
fn raw<C: Color>(c: &[f32; 4]) -> String {
    let mut r = C::default();
    r.data_mut().copy_from_slice(c);
    format!("{}", r)
}
fn transp<C: Color>(px: &[Vec<i64>]) -> bool {
    PixelBuffer::<C>::new_from_raw(px.len() as u32, if px.is_empty() { 0 } else { 1 }, px.iter().map(|c| mk::<C>(c)).collect()).has_transparency()
}
macro_rules! on {
    ($m:expr, $f:ident, $($a:expr),*) => {
        match $m {
            0 => $f::<Rgb>($($a),*),
            1 => $f::<Srgb>($($a),*),
            2 => $f::<Hsl>($($a),*),
            3 => $f::<Hsv>($($a),*),
            4 => $f::<Yuv>($($a),*),
            5 => $f::<Xyz>($($a),*),
            6 => $f::<Lab<D50, O2>>($($a),*),
            7 => $f::<Lab<D50, O10>>($($a),*),
            8 => $f::<Lab<D65, O2>>($($a),*),
            9 => $f::<Lab<D65, O10>>($($a),*),
            10 => $f::<Lab<E, O2>>($($a),*),
            11 => $f::<Lab<E, O10>>($($a),*),
            12 => $f::<Lch<D50, O2>>($($a),*),
            13 => $f::<Lch<D50, O10>>($($a),*),
            14 => $f::<Lch<D65, O2>>($($a),*),
            15 => $f::<Lch<D65, O10>>($($a),*),
            16 => $f::<Lch<E, O2>>($($a),*),
            _ => $f::<Lch<E, O10>>($($a),*),
        }
    };
}
const NM: i64 = 18;
fn model(m: i64) -> Value {
    if m < 6 {
        return json!([(["rgb", "srgb", "hsl", "hsv", "yuv", "xyz"][m as usize])]);
    }
    let (f, r) = if m < 12 { ("lab", m - 6) } else { ("lch", m - 12) };
    json!([f, (["D50", "D65", "E"][(r / 2) as usize]), (["O2", "O10"][(r % 2) as usize])])
}
fn e_equal(ctx: &mut Ctx, m: i64, a: &[i64], b: &[i64]) {
    let (eq, qe, ne) = on!(m, equal, a, b);
    ctx.stateless();
    ctx.emit(json!({"op": "equal", "model": model(m), "a": a, "b": b, "eq": eq, "qe": qe, "ne": ne}));
}
fn e_print(ctx: &mut Ctx, m: i64, c: &[i64]) {
    let (name, text, tr) = on!(m, print, c);
    ctx.stateless();
    ctx.emit(json!({"op": "print", "model": model(m), "c": c, "name": name, "text": text, "transparent": tr}));
}
/// a number halfway between two texts (or anywhere), and its negation
fn e_mirror(ctx: &mut Ctx, m: i64, i: usize, v: f32, alpha: f32) {
    let mut a = [0.0, 0.5, 1.0, alpha];
    let mut b = a;
    a[i] = v;
    b[i] = -v;
    let (ta, tb) = (on!(m, raw, &a), on!(m, raw, &b));
    ctx.stateless();
    ctx.emit(json!({"op": "mirror", "model": model(m), "i": i + 1, "n": (v as f64 * 10000.0).floor() as i64, "clear": alpha == 0.5 || i == 3,
        "a": ta, "b": tb}));
}
fn e_image(ctx: &mut Ctx, px: Vec<Vec<i64>>) {
    let n = px.len() as u32;
    let (w, h) = if n == 0 { (0, 0) } else if n % 2 == 0 && ctx.rng.chance(1, 2) { (2, n / 2) } else { (n, 1) };
    let b = PixelBuffer::new_from_raw(w, h, px.iter().map(|c| mk::<Rgb>(c)).collect());
    let i = Image::new_from_buffer(b.clone());
    let m = ctx.rng.range(0, NM - 1);
    let other = on!(m, transp, &px);
    let e = json!({"op": "image", "px": px, "transparent": i.has_transparency(), "grey": i.is_grayscale(), "buf": b.has_transparency(), "bgrey": b.is_grayscale(), "other": other});
    ctx.stateless();
    ctx.emit(e);
}
fn parse<T: std::str::FromStr<Err = ParseEnumError> + std::fmt::Debug>(s: &str) -> Value {
    match s.parse::<T>() {
        Ok(m) => json!({"ok": true, "mode": format!("{:?}", m)}),
        Err(e) => json!({"ok": false, "msg": e.to_string(), "input": e.input, "type": e.enum_type}),
    }
}
const OPTS: [&str; 15] = ["Intensity", "DrawingMode", "EdgeDetection", "EqualizeMode", "BalanceMode", "FilterMode", "SaturationMode", "BlendOp",
    "PngColorType", "PngFilterType", "PngCompression", "WebPPreset", "JpegSamplingFactor", "BmpColorType", "IcoColorType"];
const NAMES: &[&str] = &["average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue", "gray", "colored", "reduced_colors", "sobel", "laplace", "rgb", "srgb", "saturation_lightness", "hsv", "hsl", "lch", "nearest", "bilinear", "bicubic", "lanczos3", "Lanczos", "auto", "normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten", "lch_hue", "lch_saturation", "lch_color", "l8", "la8", "l16", "la16", "rgb8", "rgba8", "rgb16", "rgba16", "no_filter", "sub", "up", "avg", "paeth", "fast", "best", "picture", "photo", "drawing", "icon", "text", "lossless", "1x1", "1x2", "2x1", "2x2", "4x1", "4x2", "1x4", "2x4", "4:4:4", "4:4:0", "4:4:1", "4:2:2", "4:2:0", "4:2:1", "4:1:1", "4:1:0"];
const WORDS: &[&str] = &["Average", "Rec601Luma", "Rec709Luma", "Brightness", "Lightness", "Saturation", "Red", "Green", "Blue", "Gray", "Colored", "ReducedColors", "Sobel", "Laplace", "Rgb", "Srgb", "SaturationLightness", "Hsv", "Hsl", "Lch", "Nearest", "Bilinear", "Bicubic", "Lanczos3", "Auto", "Normal", "Addition", "Subtract", "Darken", "Lighten", "HslDarken", "HslLighten", "LchDarken", "LchLighten", "LchHue", "LchSaturation", "LchColor", "L8", "La8", "L16", "La16", "Rgb8", "Rgba8", "Rgb16", "Rgba16", "NoFilter", "Sub", "Up", "Avg", "Paeth", "Default", "Fast", "Best", "Picture", "Photo", "Drawing", "Icon", "Text", "Lossless", "F_1_1", "F_1_2", "F_2_1", "F_2_2", "F_4_1", "F_4_2", "F_1_4", "F_2_4", "R_4_4_4", "R_4_4_0", "R_4_4_1", "R_4_2_2", "R_4_2_0", "R_4_2_1", "R_4_1_1", "R_4_1_0", "grayscale", "greyscale", "grey", "greys", "graying", "gray_scale", "colour", "coloured", "color", "colors", "reduced", "reduced_colours", "reduced-colors", "full", "none", "off", "auto_detect", "linear", "cubic", "lanczos", "lanczos_3", "lanczos2", "triangle", "gaussian", "catmull", "catmull_rom", "mean", "average_luma", "luma", "luma601", "luma709", "luminance", "rec601", "rec709", "rec2020", "rec_709_luma", "value", "val", "v", "l", "h", "s", "hue", "chroma", "sat", "lightness_saturation", "hsl_hue", "hsl_saturation", "add", "plus", "subtraction", "difference", "multiply", "screen", "overlay", "darker", "lighter", "darken_only", "min", "max", "over", "source", "src", "dodge", "burn", "hsv_darken", "hsv_lighten", "lch_lightness", "lch_chroma", "lab", "xyz", "yuv", "srgba", "png", "jpeg", "webp", "luma8", "luma16", "lumaa8", "gray8", "gray16", "graya8", "rgb32", "rgba32", "rgb24", "bgr8", "bgra8", "indexed", "palette", "p8", "no", "nofilter", "no-filter", "nothing", "paeth_filter", "adaptive", "up_filter", "average_filter", "high", "low", "medium", "normal_compression", "slow", "huffman", "rle", "fastest", "zero", "better", "photograph", "pic", "lossy", "drawings", "icons", "texts", "1x3", "3x1", "4x4", "2x3", "4:0:0", "444", "420", "422", "411", "440", "4:1:2", "1:1:1", "1_1", "r_4_2_0", "prewitt", "scharr", "roberts", "canny", "laplacian", "laplace8", "nn", "near", "nearest_neighbor", "nearest_neighbour", "bi", "bilinear_", "box", "true", "false", "0", "1", "2", "best_", "DEFAULT", "RGB", "", " ", "default ", "\u{0}", "défault"];
fn e_parse(ctx: &mut Ctx, opt: &str, s: &str) {
    let mut r = match opt {
        "Intensity" => parse::<Intensity>(s),
        "DrawingMode" => parse::<ops::DrawingMode>(s),
        "EdgeDetection" => parse::<EdgeDetection>(s),
        "EqualizeMode" => parse::<EqualizeMode>(s),
        "BalanceMode" => parse::<ops::BalanceMode>(s),
        "FilterMode" => parse::<FilterMode>(s),
        "SaturationMode" => parse::<ops::SaturationMode>(s),
        "BlendOp" => parse::<ops::BlendOp>(s),
        "PngColorType" => parse::<PngColorType>(s),
        "PngFilterType" => parse::<PngFilterType>(s),
        "PngCompression" => parse::<PngCompression>(s),
        "WebPPreset" => parse::<WebPPreset>(s),
        "JpegSamplingFactor" => parse::<JpegSamplingFactor>(s),
        "BmpColorType" => parse::<BmpColorType>(s),
        "IcoColorType" => parse::<IcoColorType>(s),
        o => panic!("unknown option {}", o),
    };
    r["op"] = json!("parse");
    r["opt"] = json!(opt);
    r["text"] = json!(s);
    ctx.stateless();
    ctx.emit(r);
}
fn chan(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => Q as i64,
        2 => r.range(-8, 8),
        3 => Q as i64 + r.range(-9, 9),
        4 => r.range(-300000, 300000),
        5 => 4096 * r.range(-40, 40) + r.range(-1, 1),
        6 => r.range(-6_000_000, 6_000_000),
        _ => r.range(0, Q as i64),
    }
}
fn color(r: &mut Rng) -> Vec<i64> {
    let mut c: Vec<i64> = (0..4).map(|_| chan(r)).collect();
    if r.chance(1, 2) {
        c[3] = Q as i64 + r.range(-6, 6);
    }
    c
}
pub fn v02(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let m = ctx.rng.range(0, NM - 1);
        match gs(&c, "k") {
            "equal" => e_equal(ctx, m, &ints(&c["a"]), &ints(&c["b"])),
            "print" => {
                let q = gi(&c, "q");
                let i = ctx.rng.below(4) as usize;
                let mut v = vec![0, 65536, 131072, 131072];
                v[i] = q;
                e_print(ctx, m, &v)
            }
            "parse" => e_parse(ctx, gs(&c, "opt"), gs(&c, "text")),
            _ => e_image(ctx, c["px"].as_array().unwrap().iter().map(ints).collect()),
        }
    }
    for _ in 0..ctx.n(4500, 50000) {
        let m = ctx.rng.range(0, NM - 1);
        let a = color(&mut ctx.rng);
        match ctx.rng.below(4) {
            0 => {
                // special colours: greys, black, white, transparent ones
                let mut a = a;
                if ctx.rng.chance(1, 2) {
                    for v in a.iter_mut() {
                        if ctx.rng.chance(1, 2) {
                            *v = *ctx.rng.pick(&[0, 0, 0, Q as i64, Q as i64 / 2, -(Q as i64)]);
                        }
                    }
                }
                let mut b = a.clone();
                if ctx.rng.chance(1, 2) {
                    let i = ctx.rng.below(4) as usize;
                    b[i] += *ctx.rng.pick(&[-131072, -5, 5, 131072, 1 << 20]);
                } else {
                  for i in 0..4 {
                    if ctx.rng.chance(1, 2) {
                        b[i] += *ctx.rng.pick(&[-5, -4, -3, 1, 4, 4, 5, 131072]);
                    }
                  }
                }
                e_equal(ctx, m, &a, &b)
            }
            1 | 2 => e_print(ctx, m, &a),
            _ => {
                let n = ctx.rng.range(0, 12);
                let kind = ctx.rng.below(3);
                let px = (0..n)
                    .map(|_| {
                        let r = &mut ctx.rng;
                        let g = r.range(0, Q as i64);
                        let mut p = vec![g + r.range(-1, 1), g + r.range(-1, 1), g, Q as i64 + r.range(-4, 4)];
                        if kind > 0 && r.chance(1, 8) {
                            let i = r.below(4) as usize;
                            p[i] += *r.pick(&[-12, 12, 4, -4, 3, 40000]);
                        }
                        p
                    })
                    .collect();
                e_image(ctx, px)
            }
        }
    }
    for _ in 0..ctx.n(1500, 20000) {
        let m = ctx.rng.range(0, NM - 1);
        let i = ctx.rng.below(4) as usize;
        let k = match ctx.rng.below(4) {
            0 => ctx.rng.range(0, 20),
            1 => ctx.rng.range(0, 100),
            2 => ctx.rng.range(0, 10000),
            _ => ctx.rng.range(0, 60000),
        };
        let v = if ctx.rng.chance(3, 4) { (2 * k + 1) as f32 / 20000.0 } else { (k as f32 + ctx.rng.unit() as f32) / 10000.0 };
        // an opaque alpha has no text
        if i == 3 && (v - 1.0).abs() < 0.001 {
            continue;
        }
        let al = *ctx.rng.pick(&[0.5, 1.0]);
        e_mirror(ctx, m, i, v, al)
    }
    // the names of every option, and other words for such things, tried on every option
    let mut words: Vec<String> = [NAMES, WORDS].concat().iter().map(|s| s.to_string()).collect();
    for o in OPTS {
        words.push(o.to_string());
        words.push(o.to_lowercase());
    }
    for w in words {
        for o in OPTS {
            e_parse(ctx, o, &w);
        }
    }
    // names that are nearly right
    for o in OPTS {
        for _ in 0..ctx.n(20, 200) {
            let base = *ctx.rng.pick(&["rgb", "srgb", "default", "lanczos3", "Lanczos", "la16", "rgba8", "4:2:0", "2x2", "lch_hue", "normal", "paeth", "best", "text", "gray", "sobel", "red", "lossless", "saturation_lightness", "auto"]);
            let mut s: Vec<char> = base.chars().collect();
            match ctx.rng.below(7) {
                0 => s.insert(0, ' '),
                1 => s.push(*ctx.rng.pick(&['s', ' ', '0', 'é', '\n', '"'])),
                2 => {
                    s.pop();
                }
                3 => s[0] = s[0].to_ascii_uppercase(),
                4 => s = base.to_ascii_uppercase().chars().collect(),
                5 => {
                    let i = ctx.rng.below(s.len() as u64) as usize;
                    s[i] = *ctx.rng.pick(&['-', '_', '1', 'x']);
                }
                _ => {}
            }
            let s: String = s.into_iter().collect();
            e_parse(ctx, o, &s);
        }
    }
}
