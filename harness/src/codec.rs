//! X03: lossless round trips.  X06: lossy formats.
use crate::common::*;
use crate::orc;
use d10::*;
use serde_json::{json, Value};

/// 64 units per 16 bit step
const U: f64 = 4194240.0;
fn un(v: f64) -> i64 {
    fx(v, U)
}
fn s(v: f32) -> f64 {
    orc::gam((v as f64).clamp(0.0, 1.0))
}
/// sRGB channels, alpha and luma
fn px(c: &Rgb) -> Vec<i64> {
    let d = c.data;
    let l = 0.212656 * d[0] as f64 + 0.715158 * d[1] as f64 + 0.072186 * d[2] as f64;
    vec![un(s(d[0])), un(s(d[1])), un(s(d[2])), un((d[3] as f64).clamp(0.0, 1.0)), un(orc::gam(l.clamp(0.0, 1.0)))]
}
pub fn dec(c: &Rgb) -> Vec<i64> {
    let d = c.data;
    // not clamped: a channel outside of the range is no stored value
    let f = |v: f32| if (0.0..=1.0).contains(&v) { un(orc::gam(v as f64)) } else { fx(v as f64, 1.0e9) + 1_000_000_007 };
    let l = 0.212656 * d[0] as f64 + 0.715158 * d[1] as f64 + 0.072186 * d[2] as f64;
    vec![f(d[0]), f(d[1]), f(d[2]), un(d[3] as f64), un(orc::gam(l.clamp(0.0, 1.0)))]
}
pub fn lossless(name: &str, compression: usize, filter: usize) -> EncodingFormat {
    let png = |color_type| EncodingFormat::Png {
        color_type,
        compression: [PngCompression::Default, PngCompression::Fast, PngCompression::Best][compression % 3],
        filter: [PngFilterType::NoFilter, PngFilterType::Sub, PngFilterType::Up, PngFilterType::Avg, PngFilterType::Paeth][filter % 5],
    };
    match name {
        "png_l8" => png(PngColorType::L8),
        "png_la8" => png(PngColorType::La8),
        "png_l16" => png(PngColorType::L16),
        "png_la16" => png(PngColorType::La16),
        "png_rgb8" => png(PngColorType::Rgb8),
        "png_rgba8" => png(PngColorType::Rgba8),
        "png_rgb16" => png(PngColorType::Rgb16),
        "png_rgba16" => png(PngColorType::Rgba16),
        "bmp_l8" => EncodingFormat::Bmp { color_type: BmpColorType::L8 },
        "bmp_la8" => EncodingFormat::Bmp { color_type: BmpColorType::La8 },
        "bmp_rgb8" => EncodingFormat::Bmp { color_type: BmpColorType::Rgb8 },
        "bmp_rgba8" => EncodingFormat::Bmp { color_type: BmpColorType::Rgba8 },
        "ico_l8" => EncodingFormat::Ico { color_type: IcoColorType::L8 },
        "ico_la8" => EncodingFormat::Ico { color_type: IcoColorType::La8 },
        "ico_rgb8" => EncodingFormat::Ico { color_type: IcoColorType::Rgb8 },
        "ico_rgba8" => EncodingFormat::Ico { color_type: IcoColorType::Rgba8 },
        "webp" => EncodingFormat::webp_with_preset(compression as u8 * 40, WebPPreset::Lossless),
        f => panic!("unknown format {}", f),
    }
}
pub const LOSSLESS: [&str; 17] = [
    "png_l8", "png_la8", "png_l16", "png_la16", "png_rgb8", "png_rgba8", "png_rgb16", "png_rgba16", "bmp_l8", "bmp_la8", "bmp_rgb8", "bmp_rgba8", "ico_l8",
    "ico_la8", "ico_rgb8", "ico_rgba8", "webp",
];
fn trip(i: &Image, f: EncodingFormat) -> Result<Image, String> {
    match guard(|| i.save_to_buffer(f).map_err(|e| format!("encode: {}", e)).and_then(|b| Image::read_from_buffer(&b).map_err(|e| format!("decode: {}", e)))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}
fn run(ctx: &mut Ctx, fmts: &[&str], b: PixelBuffer<Rgb>) {
    // icons end at 256 pixels (X06)
    let b = if fmts.iter().any(|f| f.starts_with("ico")) && b.width().max(b.height()) > 256 { picture(&mut ctx.rng, 256, 2) } else { b };
    let i = Image::new_from_buffer(b);
    let opts: Vec<(usize, usize)> = fmts.iter().map(|_| (ctx.rng.below(3) as usize, ctx.rng.below(5) as usize)).collect();
    let mut e = json!({"op": "trip", "fmts": fmts, "options": opts, "w": i.width(), "h": i.height(), "px": i.data().iter().map(px).collect::<Vec<_>>()});
    ctx.mark(&e);
    let mut gens: Vec<Value> = vec![];
    let mut cur = i;
    let mut err = String::new();
    for (f, o) in fmts.iter().zip(opts) {
        match trip(&cur, lossless(f, o.0, o.1)) {
            Ok(d) => {
                gens.push(json!({"w": d.width(), "h": d.height(), "px": d.data().iter().map(dec).collect::<Vec<_>>()}));
                cur = d;
            }
            Err(m) => {
                err = m;
                break;
            }
        }
    }
    e["err"] = json!(err);
    e["gen"] = json!(gens);
    ctx.stateless();
    ctx.emit(e);
}
fn chan(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => 1.0,
        // on, between and next to the steps (in sRGB)
        2 | 3 => Srgb::new(r.range(0, 255) as f32 / 255.0, 0.0, 0.0).to_rgb().red(),
        4 => Srgb::new((r.range(0, 510) as f32 + 0.02) / 510.0, 0.0, 0.0).to_rgb().red(),
        5 => Srgb::new(r.range(0, 65535) as f32 / 65535.0, 0.0, 0.0).to_rgb().red(),
        6 => (r.unit() * 0.004) as f32,
        _ => r.unit() as f32,
    }
}
fn color(r: &mut Rng) -> Rgb {
    let a = match r.below(6) {
        0 => 0.0,
        1 => r.range(0, 255) as f32 / 255.0,
        2 => r.unit() as f32,
        3 => r.range(0, 65535) as f32 / 65535.0,
        _ => 1.0,
    };
    let mut c = [chan(r), chan(r), chan(r), a];
    if r.chance(1, 6) {
        c[1] = c[0];
        c[2] = c[0];
    }
    if r.chance(1, 40) {
        let i = r.below(3) as usize;
        c[i] = *r.pick(&[-0.25, 1.5]);
    }
    Rgb { data: c }
}
pub fn picture(r: &mut Rng, w: i64, h: i64) -> PixelBuffer<Rgb> {
    let few: Vec<Rgb> = (0..3).map(|_| color(r)).collect();
    let mode = r.below(4);
    let opaque = r.chance(1, 3);
    let data = (0..w * h)
        .map(|_| {
            let mut c = if mode == 0 { *r.pick(&few) } else { color(r) };
            if opaque {
                c.data[3] = 1.0;
            }
            c
        })
        .collect();
    PixelBuffer::new_from_raw(w as u32, h as u32, data)
}
fn dims(r: &mut Rng) -> (i64, i64) {
    match r.below(8) {
        0 if r.chance(1, 4) => crate::imgs::big(r),
        0 => (1, 1),
        1 => (r.range(1, 40), 1),
        2 => (1, r.range(1, 40)),
        _ => (r.range(1, 9), r.range(1, 7)),
    }
}
pub fn x03(ctx: &mut Ctx) {
    let mut seen = std::collections::HashSet::new();
    for c in ctx.cases() {
        if !seen.insert(c.to_string()) {
            continue;
        }
        let fmts: Vec<String> = c["fmts"].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_string()).collect();
        let (w, h) = dims(&mut ctx.rng);
        let b = picture(&mut ctx.rng, w, h);
        run(ctx, &fmts.iter().map(|f| f.as_str()).collect::<Vec<_>>(), b);
    }
    for k in 0..ctx.n(1000, 8000) {
        let name = LOSSLESS[(k % 17) as usize];
        let (w, h) = dims(&mut ctx.rng);
        let b = picture(&mut ctx.rng, w, h);
        let same = ctx.rng.chance(1, 2);
        let fmts: Vec<&str> = (0..3).map(|i| if i == 0 || same { name } else { *ctx.rng.pick(&LOSSLESS) }).collect();
        run(ctx, &fmts, b);
    }
    // every stored value of a channel once
    for name in LOSSLESS {
        let b = PixelBuffer::new_from_raw(256, 1, (0..256).map(|i| {
            let v = |k: i64| orc::lin(((i * k) % 256) as f64 / 255.0) as f32;
            Rgb { data: [v(1), v(3), v(255), ((i + 1) % 256) as f32 / 255.0] }
        }).collect());
        run(ctx, &[name, name], b);
    }
    for name in LOSSLESS {
        if ctx.n(0, 1) == 1 || ["png_rgba8", "png_l16", "bmp_rgb8", "bmp_la8", "ico_rgba8", "webp"].contains(&name) {
            large(ctx, name);
        }
    }
}
/// a file of a megabyte and more: some of its pixels, and whether saving it again changes any
fn large(ctx: &mut Ctx, name: &str) {
    let (w, h) = if name.starts_with("ico") { (256, 256) } else { (600, 500 + ctx.rng.below(9) as u32) };
    let i = Image::new_from_buffer(PixelBuffer::new_from_raw(
        w,
        h,
        (0..w * h)
            .map(|_| {
                let b = ctx.rng.next();
                let v = |k: u32| ((b >> (8 * k)) & 255) as f32 / 255.0;
                Rgb { data: [v(0) * v(0), v(1), v(2), v(3)] }
            })
            .collect(),
    ));
    let n = (w * h) as u64;
    let at: Vec<usize> = (0..120u64).map(|k| match k { 0..=9 => k, 10..=19 => n - 1 - (k - 10), _ => ctx.rng.below(n) } as usize).collect();
    let mut e = json!({"op": "large", "fmt": name, "w": w, "h": h, "px": at.iter().map(|k| px(&i.data()[*k])).collect::<Vec<_>>()});
    ctx.mark(&e);
    let f = || lossless(name, 1, 0);
    // once through memory, once through a file
    let path = std::path::PathBuf::from(&ctx.dir).join(format!("large.{}", if name.starts_with("png") { "png" } else if name.starts_with("bmp") { "bmp" } else if name.starts_with("ico") { "ico" } else { "webp" }));
    let file = |i: &Image| {
        guard(|| i.save_with_format(&path, f()).map_err(|e| format!("save: {}", e)).and_then(|_| Image::open(&path).map_err(|e| format!("open: {}", e))))
            .unwrap_or_else(|p| Err(format!("panic: {}", p)))
    };
    let r = trip(&i, f()).and_then(|a| file(&a).map(|b| (a, b)));
    let _ = std::fs::remove_file(&path);
    match r {
        Ok((a, b)) => {
            e["err"] = json!("");
            e["nw"] = json!(a.width());
            e["nh"] = json!(a.height());
            e["got"] = json!(at.iter().filter_map(|k| a.data().get(*k)).map(dec).collect::<Vec<_>>());
            // hidden colours of clear pixels may go
            let other = a.data().iter().zip(b.data()).filter(|(p, q)| !(p.data[3] == 0.0 && q.data[3] == 0.0) && p.data.iter().zip(&q.data).any(|(x, y)| (x - y).abs() > 1e-6)).count();
            e["changed"] = json!(other + a.data().len().abs_diff(b.data().len()));
        }
        Err(m) => e["err"] = json!(m),
    }
    ctx.stateless();
    ctx.emit(e);
}

// ---------------------------------------------------------------- X06
fn sampling(k: usize) -> Option<JpegSamplingFactor> {
    use JpegSamplingFactor::*;
    let all = [F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0];
    if k < 16 { Some(all[k]) } else { None }
}
const PRESETS: [WebPPreset; 6] = [WebPPreset::Default, WebPPreset::Picture, WebPPreset::Photo, WebPPreset::Drawing, WebPPreset::Icon, WebPPreset::Text];
/// a lossy format, its description
fn lossy(r: &mut Rng, name: &str, q: u8) -> (EncodingFormat, Value) {
    match name {
        "jpeg" | "jpeg_grey" => {
            let (p, o, k) = (r.chance(1, 3), r.chance(1, 2), r.below(20) as usize);
            let f = EncodingFormat::Jpeg { quality: q, progressive: p, sampling_factor: sampling(k), grayscale: name == "jpeg_grey", optimize_huffman_tables: o };
            (f, json!({"progressive": p, "optimize": o, "sampling": k.min(16)}))
        }
        "webp" => {
            let k = r.below(6) as usize;
            (EncodingFormat::WebP { quality: q, preset: PRESETS[k] }, json!({"preset": k}))
        }
        _ => (EncodingFormat::Gif, json!({})),
    }
}
/// a lossy format with any options
pub fn lossy_with(r: &mut Rng, name: &str) -> EncodingFormat {
    let q = quality(r);
    let name = if name == "jpeg" && r.chance(1, 4) { "jpeg_grey" } else { name };
    lossy(r, name, q).0
}
fn quality(r: &mut Rng) -> u8 {
    match r.below(6) {
        0 => r.range(0, 2) as u8,
        1 => r.range(99, 101) as u8,
        2 => r.range(101, 255) as u8,
        _ => r.range(1, 100) as u8,
    }
}
fn level(r: &mut Rng) -> f32 {
    let v = match r.below(5) {
        0 => 0,
        1 => 255,
        _ => r.range(0, 255),
    };
    orc::lin(v as f64 / 255.0) as f32
}
fn distinct(d: &[Rgb]) -> Vec<Vec<i64>> {
    let s: std::collections::BTreeSet<Vec<i64>> = d.iter().map(dec).collect();
    s.into_iter().take(300).collect()
}
fn outcome(e: &mut Value, r: Result<Image, String>, px: impl Fn(&Image) -> Vec<Vec<i64>>) {
    match r {
        Ok(d) => {
            e["err"] = json!("");
            e["nw"] = json!(d.width());
            e["nh"] = json!(d.height());
            e["got"] = json!(px(&d));
        }
        Err(m) => e["err"] = json!(m),
    }
}
fn flat(ctx: &mut Ctx, name: &str) {
    let r = &mut ctx.rng;
    let q = quality(r);
    let (f, o) = lossy(r, name, q);
    let (w, h) = if r.chance(1, 8) { (r.range(1, 300), r.range(1, 100)) } else { (r.range(1, 40), r.range(1, 40)) };
    let mut c = Rgb { data: [level(r), level(r), level(r), 1.0] };
    if r.chance(1, 4) {
        c.data[1] = c.data[0];
        c.data[2] = c.data[0];
    }
    if name == "gif" || name.starts_with("jpeg") && r.chance(1, 3) {
        c.data[3] = *r.pick(&[0.0, 1.0, 1.0, 0.5, 0.99, 0.01]);
    }
    let i = Image::new_with_color(w as u32, h as u32, c);
    let mut e = json!({"op": "flat", "fmt": name, "q": q, "options": o, "w": w, "h": h, "c": px(&c)});
    ctx.mark(&e);
    outcome(&mut e, trip(&i, f), |d| distinct(d.data()));
    ctx.stateless();
    ctx.emit(e);
}
/// three smooth ramps in different directions
fn ramp(ctx: &mut Ctx, name: &str) {
    let r = &mut ctx.rng;
    let q = r.range(75, 100) as u8;
    let (f, o) = lossy(r, name, q);
    let (w, h) = if r.chance(1, 6) { (r.range(35, 300), r.range(17, 90)) } else { (r.range(17, 34), r.range(17, 34)) };
    let dirs: Vec<(f64, f64)> = (0..3).map(|_| *r.pick(&[(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (0.5, 0.5), (0.5, -0.5)])).collect();
    let b = PixelBuffer::new_from_func(w as u32, h as u32, |x, y| {
        let v = |k: usize| {
            let (a, b) = (x as f64 / w as f64 - 0.5, y as f64 / h as f64 - 0.5);
            orc::lin(0.5 + 0.6 * (dirs[k].0 * a + dirs[k].1 * b)) as f32
        };
        Rgb { data: [v(0), v(1), v(2), 1.0] }
    });
    let i = Image::new_from_buffer(b);
    let mut e = json!({"op": "ramp", "fmt": name, "q": q, "options": o, "w": w, "h": h});
    ctx.mark(&e);
    // a sample of the pixels
    let at: Vec<usize> = (0..60).map(|_| ctx.rng.below((w * h) as u64) as usize).collect();
    e["px"] = json!(at.iter().map(|k| px(&i.data()[*k])).collect::<Vec<_>>());
    outcome(&mut e, trip(&i, f), |d| at.iter().map(|k| d.data().get(*k).map(dec).unwrap_or_default()).collect());
    ctx.stateless();
    ctx.emit(e);
}
/// images of few colours
fn gif(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let n = *r.pick(&[1, 2, 3, 16, 200, 255, 256, 256]);
    let alphas = r.chance(1, 2);
    // distinct 8 bit colours; at most one of them transparent
    let mut cols: Vec<Rgb> = vec![];
    let mut used = std::collections::HashSet::new();
    while cols.len() < n {
        let k = [r.range(0, 255), r.range(0, 255), r.range(0, 255)];
        if used.insert(k) {
            let v = |i: usize| orc::lin(k[i] as f64 / 255.0) as f32;
            let a = if alphas && cols.is_empty() { 0.0 } else { 1.0 };
            cols.push(Rgb { data: [v(0), v(1), v(2), a] });
        }
    }
    let w = if r.chance(1, 6) { r.range(30, 400) } else { r.range(1, 30) };
    let h = (n as i64 + w - 1) / w;
    let data: Vec<Rgb> = (0..w * h).map(|k| cols[if (k as usize) < n { k as usize } else { r.below(n as u64) as usize }]).collect();
    let i = Image::new_from_raw(w as u32, h as u32, data);
    let mut e = json!({"op": "gif", "colors": n, "w": w, "h": h, "px": i.data().iter().map(px).collect::<Vec<_>>()});
    ctx.mark(&e);
    outcome(&mut e, trip(&i, EncodingFormat::Gif), |d| d.data().iter().map(dec).collect());
    ctx.stateless();
    ctx.emit(e);
}
/// sizes at and beyond the limits of a format
fn limit(ctx: &mut Ctx, f: EncodingFormat, name: &str, w: u32, h: u32) {
    let i = Image::new_with_color(w, h, Rgb::new(0.25, 0.5, 0.75));
    let mut e = json!({"op": "limit", "format": name, "w": w, "h": h});
    ctx.mark(&e);
    let r = guard(|| i.save_to_buffer(f).map_err(|e| e.to_string())).unwrap_or_else(|p| Err(format!("panic: {}", p)));
    match r {
        Ok(b) => {
            e["ok"] = json!(true);
            let d = guard(|| Image::read_from_buffer(&b));
            match d {
                Ok(Ok(d)) => {
                    e["nw"] = json!(d.width());
                    e["nh"] = json!(d.height());
                }
                _ => {
                    e["nw"] = json!(-1);
                    e["nh"] = json!(-1);
                }
            }
        }
        Err(m) => {
            e["ok"] = json!(false);
            e["panic"] = json!(m.starts_with("panic: "));
            e["err"] = json!(m);
        }
    }
    ctx.stateless();
    ctx.emit(e);
}
fn same_as(ctx: &mut Ctx, name: &str, q: u8) {
    let b = picture(&mut ctx.rng, 9, 7);
    let i = Image::new_from_buffer(b);
    let mut one = ctx.rng.clone();
    let mut two = ctx.rng.clone();
    let (f, o) = lossy(&mut one, name, q);
    let near = if name == "webp" { q.min(100) } else { q.clamp(1, 100) };
    let (g, _) = lossy(&mut two, name, near);
    ctx.rng.next();
    let e = json!({"op": "nearest_quality", "fmt": name, "q": q, "options": o, "ok": i.save_to_buffer(f).ok() == i.save_to_buffer(g).ok()});
    ctx.stateless();
    ctx.emit(e);
}
pub fn x06(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let (name, w, h) = (gs(&c, "format"), gi(&c, "w") as u32, gi(&c, "h") as u32);
        let f = match name {
            "jpeg" => EncodingFormat::jpeg_default(),
            "png" => EncodingFormat::png_default(),
            "gif" => EncodingFormat::gif_default(),
            "bmp" => EncodingFormat::bmp_default(),
            "ico" => EncodingFormat::ico_default(),
            _ => if ctx.rng.chance(1, 2) { EncodingFormat::webp_default() } else { EncodingFormat::webp_with_preset(50, WebPPreset::Lossless) },
        };
        limit(ctx, f, name, w, h);
    }
    for k in 0..ctx.n(500, 5000) {
        match k % 6 {
            0 => flat(ctx, "jpeg"),
            1 => flat(ctx, "jpeg_grey"),
            2 => flat(ctx, "webp"),
            3 => flat(ctx, "gif"),
            4 => {
                let n = *ctx.rng.pick(&["jpeg", "jpeg_grey", "webp"]);
                ramp(ctx, n)
            }
            _ => gif(ctx),
        }
    }
    for name in ["jpeg", "jpeg_grey", "webp"] {
        for q in [0u8, 101, 128, 200, 255] {
            same_as(ctx, name, q);
        }
    }
}
