//! The library as the reference for the Python module: answers calls read from standard input,
//! one JSON object per line.
use crate::common::*;
use crate::files::digest;
use d10::illuminant::{D50, D65, E};
use d10::observer::{O10, O2};
use d10::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};

/// of size and channel bits, as py/d10t.py computes it
pub fn image_digest(i: &Image) -> String {
    let mut words: Vec<u64> = vec![i.width() as u64, i.height() as u64];
    words.extend(i.data().iter().flat_map(|c| c.data.iter().map(|v| bits(*v) as u64)));
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for w in words {
        h = (h ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    format!("{:016x}.{}x{}", h, i.width(), i.height())
}
/// all that are no number are one
fn bits(v: f32) -> u32 {
    if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() }
}
fn hex(v: f32) -> String {
    format!("x{:08x}", bits(v))
}
fn unhex(s: &str) -> f32 {
    f32::from_bits(u32::from_str_radix(&s[1..], 16).expect("float"))
}
fn color_text(c: &[f32]) -> String {
    c.iter().map(|v| hex(*v)).collect::<Vec<_>>().join(",")
}
fn floats(s: &str) -> Vec<f32> {
    s.split(',').map(unhex).collect()
}
fn rgb(s: &str) -> Rgb {
    let v = floats(s);
    Rgb::new_with_alpha(v[0], v[1], v[2], v[3])
}
type Fail = String;
fn parse<T: std::str::FromStr>(s: &str) -> Result<T, Fail>
where
    T::Err: std::fmt::Display,
{
    s.parse::<T>().map_err(|e| e.to_string())
}
fn opt_float(s: &str) -> Option<f32> {
    if s == "none" { None } else { Some(unhex(s)) }
}
/// the functions programs pass in: what they do, or the call at which they fail
struct Func {
    kind: String,
    left: RefCell<i64>,
}
impl Func {
    fn new(s: &str) -> Func {
        let (k, n) = s.split_once(':').unwrap_or((s, "1000000"));
        Func { kind: k.into(), left: RefCell::new(n.parse().expect("count")) }
    }
    fn color(&self, c: &Rgb, x: u32, y: u32) -> Result<Rgb, Fail> {
        *self.left.borrow_mut() -= 1;
        if *self.left.borrow() < 0 {
            return Err("failed".into());
        }
        Ok(match self.kind.as_str() {
            "swap" => Rgb::new_with_alpha(c.blue(), c.red(), c.green(), c.alpha()),
            "pos" => Rgb::new_with_alpha((x as f64 / 16.0) as f32, (y as f64 / 16.0) as f32, c.red(), c.alpha()),
            "first" => *c,
            _ => c.invert(),
        })
    }
    fn value(&self, v: f32) -> Result<f32, Fail> {
        *self.left.borrow_mut() -= 1;
        if *self.left.borrow() < 0 {
            return Err("failed".into());
        }
        Ok(match self.kind.as_str() {
            "half" => (v as f64 * 0.5) as f32,
            "neg" => (1.0 - v as f64) as f32,
            _ => v,
        })
    }
}
enum Out {
    Image(Image),
    Val(String),
    Nothing,
}
fn format(f: &str, a: &[String]) -> Result<EncodingFormat, Fail> {
    let bad = |_: std::num::ParseIntError| "number".to_string();
    Ok(match f {
        "jpeg" => EncodingFormat::Jpeg {
            quality: a[0].parse().map_err(bad)?,
            progressive: a[1] == "true",
            sampling_factor: if a[2] == "none" { None } else { Some(parse(&a[2])?) },
            grayscale: a[3] == "true",
            optimize_huffman_tables: a[4] == "true",
        },
        "png" => EncodingFormat::Png { color_type: parse(&a[0])?, compression: parse(&a[1])?, filter: parse(&a[2])? },
        "gif" => EncodingFormat::gif_default(),
        "bmp" => EncodingFormat::Bmp { color_type: parse(&a[0])? },
        "ico" => EncodingFormat::Ico { color_type: parse(&a[0])? },
        "webp" => EncodingFormat::WebP { quality: a[0].parse().map_err(bad)?, preset: parse(&a[1])? },
        _ => panic!("format {}", f),
    })
}
fn call(me: &mut Image, rest: &[Image], f: &str, a: &[String]) -> Result<Out, Fail> {
    let n = |k: usize| a[k].parse::<i64>().expect("integer");
    let u = |k: usize| n(k) as u32;
    let x = |k: usize| unhex(&a[k]);
    let img = |i: Image| Ok(Out::Image(i));
    let val = |s: String| Ok(Out::Val(s));
    match f {
        "new" => img(if a[2] == "none" { Image::new(u(0), u(1)) } else { Image::new_with_color(u(0), u(1), rgb(&a[2])) }),
        "from_list" => {
            let data: Vec<Rgb> = if a[2].is_empty() { vec![] } else { a[2].split(';').map(rgb).collect() };
            img(Image::new_from_raw(u(0), u(1), data))
        }
        "open" => Image::open(&a[0]).map(Out::Image).map_err(|e| e.to_string()),
        "width" => val(me.width().to_string()),
        "height" => val(me.height().to_string()),
        "len" => val(me.data().len().to_string()),
        "has_transparency" => val(me.has_transparency().to_string()),
        "is_grayscale" => val(me.is_grayscale().to_string()),
        "is_in_image" => val(me.is_in_image(n(0) as i32, n(1) as i32).to_string()),
        "get_pixel" => val(me.get_pixel_optional(n(0) as i32, n(1) as i32).map(|c| color_text(&c.data)).unwrap_or("none".into())),
        "getitem" => me.get_pixel_optional(n(0) as i32, n(1) as i32).map(|c| Out::Val(color_text(&c.data))).ok_or("range".into()),
        "get_pixel_clamped" => val(color_text(&me.get_pixel_clamped(n(0) as i32, n(1) as i32).data)),
        "put_pixel" | "setitem" => {
            me.put_pixel(u(0), u(1), rgb(&a[2]));
            Ok(Out::Nothing)
        }
        "mod_colors" => {
            let g = Func::new(&a[0]);
            me.try_mod_colors(|c| g.color(c, 0, 0)).map(|_| Out::Nothing)
        }
        "mod_colors_enumerated" => {
            let g = Func::new(&a[0]);
            me.try_mod_colors_enumerated(|x, y, c| g.color(c, x, y)).map(|_| Out::Nothing)
        }
        "map_colors" => {
            let g = Func::new(&a[0]);
            me.try_map_colors(|c| g.color(c, 0, 0)).map(Out::Image)
        }
        "map_colors_enumerated" => {
            let g = Func::new(&a[0]);
            me.try_map_colors_enumerated(|x, y, c| g.color(c, x, y)).map(Out::Image)
        }
        "crop" => img(me.crop(u(0), u(1), u(2), u(3))),
        "flip_horizontal" => img(me.flip_horizontal()),
        "flip_vertical" => img(me.flip_vertical()),
        "rotate90" => img(me.rotate90()),
        "rotate180" => img(me.rotate180()),
        "rotate270" => img(me.rotate270()),
        "rotate" => img(me.rotate(x(0), parse(&a[1])?)),
        "resize" => img(me.resize(u(0), u(1), parse(&a[2])?)),
        "resize_pct" => img(me.resize_pct(x(0), parse(&a[1])?)),
        "edge_detection" => img(me.edge_detection(parse(&a[0])?)),
        "with_jpeg_quality" => img(me.with_jpeg_quality(n(0) as u8, a[1] == "true")),
        "gaussian_blur" => img(me.gaussian_blur(u(0), opt_float(&a[1]))),
        "unsharp" => img(me.unsharp(u(0), x(1), opt_float(&a[2]))),
        "drawing" => img(me.drawing(u(0), parse(&a[1])?)),
        "interlace" => img(me.interlace(u(0))),
        "apply_palette" => img(me.apply_palette(&rest[0])),
        "apply_palette_in_place" => {
            me.apply_palette_in_place(&rest[0]);
            Ok(Out::Nothing)
        }
        "despeckle" => img(me.despeckle(x(0), n(1) as u8)),
        "symmetric_nearest_neighbor" => img(me.symmetric_nearest_neighbor(n(0) as usize, a[1] == "true")),
        "compose" => {
            let mut v: Vec<&Image> = vec![&*me];
            v.extend(rest.iter());
            let g = Func::new(&a[0]);
            Image::try_compose_slice(&v, rgb(&a[1]), |x, y, cs| {
                let c = cs[(x + 2 * y) as usize % cs.len()];
                g.color(&c, x, y)
            })
            .map(Out::Image)
        }
        "blend" => img(me.blend(&rest[0], parse(&a[0])?, x(1))),
        "stretch_contrast" => img(me.stretch_contrast(x(0))),
        "optimize_saturation" => img(me.optimize_saturation(x(0), parse(&a[1])?)),
        "change_color_temperature" => img(me.change_color_temperature(x(0), x(1), x(2))),
        "optimize_color_temperature" => img(me.optimize_color_temperature(x(0), x(1))),
        "optimize_lightness" => img(me.optimize_lightness(x(0))),
        "white_balance" => img(me.white_balance(x(0))),
        "balance" => img(me.balance(parse(&a[0])?, x(1))),
        "equalize" => img(me.equalize(parse(&a[0])?)),
        // saving: what is written
        "save" => {
            let f = if a[0] == "none" { EncodingFormat::from_path(std::path::Path::new(&a[1])).map_err(|e| e.to_string())? } else { format(&a[0], &a[2..])? };
            if !std::path::Path::new(&a[1]).parent().map(|p| p.is_dir()).unwrap_or(false) {
                return Err(std::io::Error::from_raw_os_error(2).to_string());
            }
            me.save_to_buffer(f).map(|b| Out::Val(digest(&b))).map_err(|e| e.to_string())
        }
        _ => panic!("call {}", f),
    }
}
macro_rules! types {
    ($mac:ident, $($arg:tt)*) => {
        match $($arg)* {
            "Rgb" => $mac!(Rgb, set_red, set_green, set_blue, with_red, with_green, with_blue, red, green, blue),
            "Srgb" => $mac!(Srgb, set_red, set_green, set_blue, with_red, with_green, with_blue, red, green, blue),
            "Hsl" => $mac!(Hsl, set_hue, set_saturation, set_lightness, with_hue, with_saturation, with_lightness, hue, saturation, lightness),
            "Hsv" => $mac!(Hsv, set_hue, set_saturation, set_value, with_hue, with_saturation, with_value, hue, saturation, value),
            "Yuv" => $mac!(Yuv, set_y, set_u, set_v, with_y, with_u, with_v, y, u, v),
            "Xyz" => $mac!(Xyz, set_x, set_y, set_z, with_x, with_y, with_z, x, y, z),
            "LabD65O2" => $mac!(Lab<D65, O2>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LabD65O10" => $mac!(Lab<D65, O10>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LabD50O2" => $mac!(Lab<D50, O2>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LabD50O10" => $mac!(Lab<D50, O10>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LabEO2" => $mac!(Lab<E, O2>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LabEO10" => $mac!(Lab<E, O10>, set_l, set_a, set_b, with_l, with_a, with_b, l, a, b),
            "LchD65O2" => $mac!(Lch<D65, O2>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            "LchD65O10" => $mac!(Lch<D65, O10>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            "LchD50O2" => $mac!(Lch<D50, O2>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            "LchD50O10" => $mac!(Lch<D50, O10>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            "LchEO2" => $mac!(Lch<E, O2>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            "LchEO10" => $mac!(Lch<E, O10>, set_l, set_c, set_h, with_l, with_c, with_h, l, c, h),
            t => panic!("type {}", t),
        }
    };
}
/// (what comes back: type and value), the receiver afterwards
fn color(t: &str, v: &[f32], m: &str, a: &[String]) -> Result<(String, String, String), Fail> {
    let x = |k: usize| unhex(&a[k]);
    macro_rules! one {
        ($t:ty, $s0:ident, $s1:ident, $s2:ident, $w0:ident, $w1:ident, $w2:ident, $g0:ident, $g1:ident, $g2:ident) => {{
            let mut c = <$t>::new_with_alpha(v[0], v[1], v[2], v[3]);
            let mut ty = t.to_string();
            let val = match m {
                "make" => color_text(&c.data()),
                "get" => {
                    ty = "val".into();
                    hex(match a[0].as_str() {
                        "0" => c.$g0(),
                        "1" => c.$g1(),
                        "2" => c.$g2(),
                        _ => c.alpha(),
                    })
                }
                "set" => {
                    match a[0].as_str() {
                        "0" => c.$s0(x(1)),
                        "1" => c.$s1(x(1)),
                        "2" => c.$s2(x(1)),
                        _ => c.set_alpha(x(1)),
                    };
                    ty = "val".into();
                    "none".into()
                }
                "with" => color_text(match a[0].as_str() {
                    "0" => c.$w0(x(1)),
                    "1" => c.$w1(x(1)),
                    "2" => c.$w2(x(1)),
                    _ => c.with_alpha(x(1)),
                }.data()),
                "has_transparency" => {
                    ty = "val".into();
                    c.has_transparency().to_string()
                }
                "type_name" => {
                    ty = "val".into();
                    c.type_name().to_string()
                }
                "str" => {
                    ty = "val".into();
                    c.to_string()
                }
                "eq" => {
                    ty = "val".into();
                    let o = floats(&a[0]);
                    (c == <$t>::new_with_alpha(o[0], o[1], o[2], o[3])).to_string()
                }
                "map_color_channels" => {
                    let g = Func::new(&a[0]);
                    color_text(c.try_map_color_channels(|v| g.value(v))?.data())
                }
                "to" => {
                    ty = a[0].clone();
                    match a[0].as_str() {
                        "Rgb" => color_text(&c.to_rgb().data),
                        "Srgb" => color_text(&c.to_srgb().data),
                        "Hsl" => color_text(&c.to_hsl().data),
                        "Hsv" => color_text(&c.to_hsv().data),
                        "Yuv" => color_text(&c.to_yuv().data),
                        "Xyz" => color_text(&c.to_xyz().data),
                        "LabD65O2" => color_text(&c.to_lab::<D65, O2>().data),
                        "LabD65O10" => color_text(&c.to_lab::<D65, O10>().data),
                        "LabD50O2" => color_text(&c.to_lab::<D50, O2>().data),
                        "LabD50O10" => color_text(&c.to_lab::<D50, O10>().data),
                        "LabEO2" => color_text(&c.to_lab::<E, O2>().data),
                        "LabEO10" => color_text(&c.to_lab::<E, O10>().data),
                        "LchD65O2" => color_text(&c.to_lch::<D65, O2>().data),
                        "LchD65O10" => color_text(&c.to_lch::<D65, O10>().data),
                        "LchD50O2" => color_text(&c.to_lch::<D50, O2>().data),
                        "LchD50O10" => color_text(&c.to_lch::<D50, O10>().data),
                        "LchEO2" => color_text(&c.to_lch::<E, O2>().data),
                        "LchEO10" => color_text(&c.to_lch::<E, O10>().data),
                        t => panic!("type {}", t),
                    }
                }
                _ => {
                    let r = Rgb::new_with_alpha(v[0], v[1], v[2], v[3]);
                    ty = "Rgb".into();
                    color_text(&match m {
                        "is_grayscale" => {
                            return Ok(("val".into(), r.is_grayscale().to_string(), color_text(&r.data)));
                        }
                        "max" => return Ok(("val".into(), hex(r.max()), color_text(&r.data))),
                        "min" => return Ok(("val".into(), hex(r.min()), color_text(&r.data))),
                        "to_gray" => if a[0] == "none" { r.to_gray() } else { r.to_gray_with_intensity(parse(&a[0])?) },
                        "invert" => r.invert(),
                        "difference" => r.difference(&rgb(&a[0])),
                        "alpha_blend" => r.alpha_blend(rgb(&a[0])),
                        "with_gamma" => r.with_gamma(x(0)),
                        "with_gamma_opt" => r.with_gamma_opt(x(0)),
                        "with_level" => r.with_level(x(0), x(1), x(2)),
                        "with_brightness" => r.with_brightness(x(0)),
                        "with_saturation" => r.with_saturation(x(0)),
                        "stretch_saturation" => r.stretch_saturation(x(0)),
                        "with_gamma_saturation" => r.with_gamma_saturation(x(0)),
                        "with_lightness" => r.with_lightness(x(0)),
                        "with_hue_rotate" => r.with_hue_rotate(x(0)),
                        "with_contrast" => r.with_contrast(x(0)),
                        "with_brightness_contrast" => r.with_brightness_contrast(x(0), x(1)),
                        "with_vibrance" => r.with_vibrance(x(0)),
                        "with_sepia" => r.with_sepia(),
                        "modulate" => r.modulate(x(0), x(1), x(2)),
                        m => panic!("method {}", m),
                    }
                    .data)
                }
            };
            Ok((ty, val, color_text(c.data())))
        }};
    }
    types!(one, t)
}
fn base_of(space: &str) -> &str {
    match space {
        "auto" | "gray" => "rgb",
        s if s.len() > 3 && s.ends_with('a') => &s[..s.len() - 1],
        s => s,
    }
}
/// the components of a colour in a space, alpha last
fn comps(space: &str, c: &Rgb) -> Vec<f32> {
    if space == "gray" {
        return vec![c.to_gray().red()];
    }
    let v: [f32; 4] = match base_of(space) {
        "rgb" => c.data,
        "srgb" => c.to_srgb().data,
        "hsl" => c.to_hsl().data,
        "hsv" => c.to_hsv().data,
        "yuv" => c.to_yuv().data,
        "xyz" => c.to_xyz().data,
        "lab" => c.to_lab::<D65, O2>().data,
        "lch" => c.to_lch::<D65, O2>().data,
        s => panic!("space {}", s),
    };
    v.to_vec()
}
fn from_comps(space: &str, v: &[f32]) -> Rgb {
    if v.len() == 1 {
        return Rgb::new(v[0], v[0], v[0]);
    }
    let a = v.get(3).copied().unwrap_or(1.0);
    match base_of(space) {
        "rgb" => Rgb::new_with_alpha(v[0], v[1], v[2], a),
        "srgb" => Srgb::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "hsl" => Hsl::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "hsv" => Hsv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "yuv" => Yuv::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "xyz" => Xyz::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "lab" => Lab::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        "lch" => Lch::<D65, O2>::new_with_alpha(v[0], v[1], v[2], a).to_rgb(),
        s => panic!("space {}", s),
    }
}
fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().expect("text").to_string()).collect()).unwrap_or_default()
}
pub fn serve() {
    let mut store: HashMap<String, Image> = HashMap::new();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let q: Value = serde_json::from_str(&line.expect("line")).expect("json");
        let a = strings(&q["a"]);
        let r = match gs(&q, "q") {
            "forget" => {
                store.clear();
                json!({})
            }
            "call" => {
                let ins: Vec<Image> = strings(&q["ins"])
                    .iter()
                    .map(|d| {
                        store.get(d).cloned().unwrap_or_else(|| {
                            eprintln!("unknown picture {}", d);
                            std::process::exit(1)
                        })
                    })
                    .collect();
                let mut me = ins.first().cloned().unwrap_or_else(|| Image::new(1, 1));
                let r = guard(std::panic::AssertUnwindSafe(|| call(&mut me, ins.get(1..).unwrap_or(&[]), gs(&q, "f"), &a)));
                // what the library says about a failure (the words of the caller's own functions are not its)
                let why = match &r {
                    Ok(Err(w)) if w != "failed" && w != "range" => w.clone(),
                    _ => String::new(),
                };
                let (k, i, v) = match r {
                    Ok(Ok(Out::Image(i))) => {
                        let d = image_digest(&i);
                        store.insert(d.clone(), i);
                        ("ok", d, String::new())
                    }
                    Ok(Ok(Out::Val(v))) => ("ok", String::new(), v),
                    Ok(Ok(Out::Nothing)) => ("ok", String::new(), "none".into()),
                    Ok(Err(_)) => ("err", String::new(), String::new()),
                    Err(_) => ("panic", String::new(), String::new()),
                };
                let d = image_digest(&me);
                store.insert(d.clone(), me);
                json!({"k": k, "img": i, "val": v, "self": d, "why": why})
            }
            // a picture only Python has made so far
            "learn" => {
                let px: Vec<Rgb> = a[2..]
                    .iter()
                    .map(|s| {
                        let v = floats(s);
                        let mut c = Rgb::default();
                        c.data.copy_from_slice(&v);
                        c
                    })
                    .collect();
                let i = Image::new_from_raw(a[0].parse().unwrap(), a[1].parse().unwrap(), px);
                let d = image_digest(&i);
                store.insert(d.clone(), i);
                json!({"img": d})
            }
            "pixels" => {
                let i = store.get(&a[0]).expect("unknown picture");
                json!({"px": i.data().iter().map(|c| color_text(&c.data)).collect::<Vec<_>>()})
            }
            "color" => match guard(|| color(gs(&q, "t"), &floats(gs(&q, "v")), gs(&q, "m"), &a)) {
                Ok(Ok((t, v, s))) => json!({"k": "ok", "t": t, "val": v, "self": s}),
                Ok(Err(w)) => json!({"k": "err", "t": "", "val": "", "self": q["v"], "why": if w == "failed" { "" } else { w.as_str() }}),
                Err(_) => json!({"k": "panic", "t": "", "val": "", "self": q["v"]}),
            },
            "hash" => {
                let b: Vec<u8> = (0..a[0].len() / 2).map(|k| u8::from_str_radix(&a[0][2 * k..2 * k + 2], 16).expect("hex")).collect();
                json!({"h": digest(&b)})
            }
            "comps" => json!({"v": a.iter().map(|p| color_text(&comps(gs(&q, "space"), &rgb(p)))).collect::<Vec<_>>()}),
            "conv" => json!({"v": a.iter().map(|p| color_text(&from_comps(gs(&q, "space"), &floats(p)).data)).collect::<Vec<_>>()}),
            x => panic!("query {}", x),
        };
        writeln!(out, "{}", r).expect("answer");
        out.flush().expect("answer");
    }
}
