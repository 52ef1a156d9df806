//! X08: the written file has the form that was asked for (read from its bytes, without the library).
use crate::common::*;
use d10::*;
use d10_codecs::{BmpColorType, IcoColorType, JpegSamplingFactor, PngColorType, PngCompression, PngFilterType, WebPPreset};
use serde_json::{json, Value};
use std::io::Read;

const SAMPLING: [JpegSamplingFactor; 16] = {
    use JpegSamplingFactor::*;
    [F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2, R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0]
};
fn gb(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or(false) }
fn be16(d: &[u8], p: usize) -> i64 { (d[p] as i64) << 8 | d[p + 1] as i64 }
fn be32(d: &[u8], p: usize) -> i64 { be16(d, p) << 16 | be16(d, p + 2) }
fn le16(d: &[u8], p: usize) -> i64 { (d[p + 1] as i64) << 8 | d[p] as i64 }
fn le32(d: &[u8], p: usize) -> i64 { le16(d, p + 2) << 16 | le16(d, p) }

// ---------------------------------------------------------------- JPEG
fn jpeg(d: &[u8]) -> Value {
    let mut v = json!({"soi": d[..2] == [255, 216], "eoi": d[d.len() - 2..] == [255, 217], "frame": -1, "w": -1, "h": -1, "comps": [], "tables": [], "codes": [], "scans": 0});
    let (mut tables, mut codes, mut scans) = (vec![json!([]), json!([]), json!([]), json!([])], vec![], 0);
    let mut p = 2;
    while p + 4 <= d.len() {
        if d[p] != 255 { p += 1; continue; }
        let m = d[p + 1];
        if m == 0 || m == 255 || (208..=217).contains(&m) { p += if m == 255 { 1 } else { 2 }; continue; }
        let n = be16(d, p + 2) as usize;
        let s = &d[p + 4..p + 2 + n];
        match m {
            0xC0..=0xC3 => {
                v["frame"] = json!(m);
                v["precision"] = json!(s[0]);
                v["h"] = json!(be16(s, 1));
                v["w"] = json!(be16(s, 3));
                v["comps"] = json!((0..s[5] as usize).map(|i| json!([s[7 + 3 * i] >> 4, s[7 + 3 * i] & 15, s[8 + 3 * i]])).collect::<Vec<_>>());
            }
            0xDB => {
                let mut q = 0;
                while q < s.len() {
                    let (wide, t) = (s[q] >> 4 != 0, (s[q] & 3) as usize);
                    q += 1;
                    tables[t] = json!((0..64).map(|i| if wide { be16(s, q + 2 * i) } else { s[q + i] as i64 }).collect::<Vec<_>>());
                    q += if wide { 128 } else { 64 };
                }
            }
            0xC4 => {
                let mut q = 0;
                while q < s.len() {
                    let n: usize = s[q + 1..q + 17].iter().map(|x| *x as usize).sum();
                    codes.push(json!([s[q] >> 4, s[q] & 15, n]));
                    q += 17 + n;
                }
            }
            0xDA => scans += 1,
            _ => {}
        }
        p += 2 + n;
    }
    while tables.last().map(|t| t.as_array().unwrap().is_empty()).unwrap_or(false) { tables.pop(); }
    v["tables"] = json!(tables);
    v["codes"] = json!(codes);
    v["scans"] = json!(scans);
    v
}

// ---------------------------------------------------------------- PNG
fn png(d: &[u8]) -> Value {
    let mut v = json!({"sig": d.len() > 8 && d[..8] == [137, 80, 78, 71, 13, 10, 26, 10]});
    let (mut p, mut names, mut idat) = (8, vec![], vec![]);
    while p + 12 <= d.len() {
        let n = be32(d, p) as usize;
        let name = String::from_utf8_lossy(&d[p + 4..p + 8]).to_string();
        let s = &d[p + 8..p + 8 + n];
        match &name[..] {
            "IHDR" => {
                v["w"] = json!(be32(s, 0));
                v["h"] = json!(be32(s, 4));
                v["depth"] = json!(s[8]);
                v["color"] = json!(s[9]);
                v["interlace"] = json!(s[12]);
            }
            "IDAT" => idat.extend_from_slice(s),
            _ => {}
        }
        if names.last() != Some(&name) { names.push(name); }
        p += 12 + n;
    }
    v["chunks"] = json!(names);
    v["rest"] = json!(d.len() - p);
    v["zlib"] = json!([idat[0], idat[1]]);
    let mut raw = vec![];
    let ok = flate2::read::ZlibDecoder::new(&idat[..]).read_to_end(&mut raw).is_ok();
    let ch = [1, 0, 3, 1, 2, 0, 4][v["color"].as_u64().unwrap_or(0) as usize % 7];
    let row = 1 + v["w"].as_u64().unwrap_or(0) as usize * ch * v["depth"].as_u64().unwrap_or(8) as usize / 8;
    v["filters"] = json!(raw.chunks(row).map(|r| r[0]).collect::<std::collections::BTreeSet<_>>());
    v["rows"] = json!(if ok { (raw.len() / row) as i64 } else { -1 });
    v["size"] = json!(idat.len());
    v
}
// ---------------------------------------------------------------- BMP, ICO, GIF
fn bmp(d: &[u8]) -> Value {
    json!({"sig": d[..2] == [66, 77], "file": le32(d, 2), "len": d.len(), "w": le32(d, 18), "h": le32(d, 22), "bits": le16(d, 28), "method": le32(d, 30), "offset": le32(d, 10)})
}
fn ico(d: &[u8]) -> Value {
    let (n, at) = (le32(d, 14) as usize, le32(d, 18) as usize);
    let inner = if at + n <= d.len() && n > 40 { png(&d[at..at + n]) } else { json!({}) };
    json!({"type": le16(d, 2), "count": le16(d, 4), "w": d[6], "h": d[7], "bits": le16(d, 12), "end": at + n, "len": d.len(), "png": inner})
}
fn gif(d: &[u8]) -> Value {
    let mut v = json!({"sig": String::from_utf8_lossy(&d[..6]), "w": le16(d, 6), "h": le16(d, 8)});
    let table = |f: u8| if f & 128 != 0 { 3 << ((f & 7) + 1) } else { 0 };
    let mut p = 13 + table(d[10]);
    let blocks = |mut p: usize| { while d[p] != 0 { p += 1 + d[p] as usize; } p + 1 };
    let (mut frames, mut rest) = (vec![], -1);
    while p < d.len() {
        match d[p] {
            0x21 => p = blocks(p + 2),
            0x2C => {
                frames.push(json!([le16(d, p + 1), le16(d, p + 3), le16(d, p + 5), le16(d, p + 7)]));
                let t = table(d[p + 9]);
                p = blocks(p + 10 + t + 1);
            }
            0x3B => { rest = (d.len() - p - 1) as i64; break; }
            _ => break,
        }
    }
    v["frames"] = json!(frames);
    v["rest"] = json!(rest);
    v
}
// ---------------------------------------------------------------- WebP
/// the boolean decoder of VP8
struct Bools<'a> { d: &'a [u8], p: usize, value: u32, range: u32, bits: i32 }
impl<'a> Bools<'a> {
    fn new(d: &'a [u8]) -> Bools<'a> { Bools { d, p: 2, value: (d[0] as u32) << 8 | d[1] as u32, range: 255, bits: 0 } }
    fn bit(&mut self) -> u32 {
        let split = 1 + (((self.range - 1) * 128) >> 8);
        let big = split << 8;
        let r = if self.value >= big { self.range -= split; self.value -= big; 1 } else { self.range = split; 0 };
        while self.range < 128 {
            self.value <<= 1;
            self.range <<= 1;
            self.bits += 1;
            if self.bits == 8 { self.bits = 0; self.value |= *self.d.get(self.p).unwrap_or(&0) as u32; self.p += 1; }
        }
        r
    }
    fn lit(&mut self, n: u32) -> i64 { (0..n).fold(0, |a, _| a << 1 | self.bit() as i64) }
    fn signed(&mut self, n: u32) -> i64 { let v = self.lit(n); if self.bit() == 1 { -v } else { v } }
    fn opt(&mut self, n: u32) -> i64 { if self.bit() == 1 { self.signed(n) } else { 0 } }
}
fn vp8(d: &[u8]) -> Value {
    let mut b = Bools::new(&d[10..]);
    b.lit(2);
    let (mut seg, mut abs, mut quants, mut levels) = (false, false, vec![], vec![]);
    if b.bit() == 1 {
        seg = true;
        let map = b.bit();
        if b.bit() == 1 {
            abs = b.bit() == 1;
            for _ in 0..4 { quants.push(b.opt(7)); }
            for _ in 0..4 { levels.push(b.opt(6)); }
        }
        if map == 1 { for _ in 0..3 { if b.bit() == 1 { b.lit(8); } } }
    }
    let simple = b.bit();
    let level = b.lit(6);
    let sharp = b.lit(3);
    if b.bit() == 1 && b.bit() == 1 { for _ in 0..8 { b.opt(6); } }
    let parts = b.lit(2);
    let q = b.lit(7);
    if !seg { quants = vec![q]; } else if !abs { for x in quants.iter_mut() { *x += q; } }
    json!({"w": le16(d, 6) & 0x3fff, "h": le16(d, 8) & 0x3fff, "key": d[3..6] == [0x9d, 1, 0x2a], "base": q, "quants": quants, "simple": simple, "level": level, "sharp": sharp, "parts": parts})
}
fn webp(d: &[u8]) -> Value {
    let mut v = json!({"sig": d[..4] == *b"RIFF" && d[8..12] == *b"WEBP", "size": le32(d, 4) + 8, "len": d.len()});
    let (mut p, mut names) = (12, vec![]);
    v["vp8"] = json!({});
    v["vp8l"] = json!([]);
    while p + 8 <= d.len() {
        let n = le32(d, p + 4) as usize;
        let name = String::from_utf8_lossy(&d[p..p + 4]).to_string();
        let s = &d[p + 8..p + 8 + n];
        match &name[..] {
            "VP8 " => v["vp8"] = vp8(s),
            "VP8L" => v["vp8l"] = json!([s[0], (le32(s, 1) & 0x3fff) + 1, ((le32(s, 1) >> 14) & 0x3fff) + 1, (le32(s, 1) >> 28) & 1]),
            "VP8X" => v["canvas"] = json!([le16(s, 4) + 1, le16(s, 7) + 1]),
            _ => {}
        }
        names.push(name);
        p += 8 + n + n % 2;
    }
    v["chunks"] = json!(names);
    v
}

// ---------------------------------------------------------------- requests
const PNG_COLOR: [PngColorType; 8] = [PngColorType::L8, PngColorType::La8, PngColorType::L16, PngColorType::La16, PngColorType::Rgb8, PngColorType::Rgba8, PngColorType::Rgb16, PngColorType::Rgba16];
const PNG_COMP: [PngCompression; 3] = [PngCompression::Default, PngCompression::Fast, PngCompression::Best];
const PNG_FILTER: [PngFilterType; 5] = [PngFilterType::NoFilter, PngFilterType::Sub, PngFilterType::Up, PngFilterType::Avg, PngFilterType::Paeth];
const BMP: [BmpColorType; 4] = [BmpColorType::L8, BmpColorType::La8, BmpColorType::Rgb8, BmpColorType::Rgba8];
const ICO: [IcoColorType; 4] = [IcoColorType::L8, IcoColorType::La8, IcoColorType::Rgb8, IcoColorType::Rgba8];
const WEBP: [WebPPreset; 7] = [WebPPreset::Default, WebPPreset::Picture, WebPPreset::Photo, WebPPreset::Drawing, WebPPreset::Icon, WebPPreset::Text, WebPPreset::Lossless];

fn format(c: &Value) -> EncodingFormat {
    let q = c["q"].as_i64().unwrap_or(0) as u8;
    match gs(c, "fmt") {
        "jpeg" => EncodingFormat::Jpeg { quality: q, progressive: gb(c, "progressive"), sampling_factor: SAMPLING.get(gi(c, "sampling") as usize).copied(), grayscale: gb(c, "grey"), optimize_huffman_tables: gb(c, "optimize") },
        "png" => EncodingFormat::Png { color_type: PNG_COLOR[gi(c, "color") as usize], compression: PNG_COMP[gi(c, "compression") as usize], filter: PNG_FILTER[gi(c, "filter") as usize] },
        "bmp" => EncodingFormat::Bmp { color_type: BMP[gi(c, "color") as usize] },
        "ico" => EncodingFormat::Ico { color_type: ICO[gi(c, "color") as usize] },
        "webp" => EncodingFormat::WebP { quality: q, preset: WEBP[gi(c, "preset") as usize] },
        _ => EncodingFormat::Gif,
    }
}
/// a request as the specification sees it
fn request(f: &EncodingFormat) -> Value {
    match f {
        EncodingFormat::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables } =>
            json!({"fmt": "jpeg", "q": quality, "progressive": progressive, "grey": grayscale, "optimize": optimize_huffman_tables,
                   "sampling": sampling_factor.map(|s| SAMPLING.iter().position(|x| *x == s).unwrap()).unwrap_or(16)}),
        EncodingFormat::Png { color_type, compression, filter } => {
            // no equality on these types
            let at = |v: String, all: Vec<String>| all.iter().position(|x| *x == v).unwrap();
            json!({"fmt": "png", "color": at(format!("{:?}", color_type), PNG_COLOR.iter().map(|x| format!("{:?}", x)).collect()),
                   "compression": at(format!("{:?}", compression), PNG_COMP.iter().map(|x| format!("{:?}", x)).collect()),
                   "filter": at(format!("{:?}", filter), PNG_FILTER.iter().map(|x| format!("{:?}", x)).collect())})
        }
        EncodingFormat::Gif => json!({"fmt": "gif"}),
        EncodingFormat::Bmp { color_type } => json!({"fmt": "bmp", "color": BMP.iter().position(|x| format!("{:?}", x) == format!("{:?}", color_type)).unwrap()}),
        EncodingFormat::Ico { color_type } => json!({"fmt": "ico", "color": ICO.iter().position(|x| format!("{:?}", x) == format!("{:?}", color_type)).unwrap()}),
        EncodingFormat::WebP { quality, preset } => json!({"fmt": "webp", "q": quality, "preset": WEBP.iter().position(|x| x == preset).unwrap()}),
    }
}
fn kind(f: &EncodingFormat) -> &'static str {
    use d10_codecs::Format::*;
    match f.format() { Jpeg => "jpeg", Png => "png", Gif => "gif", Bmp => "bmp", Ico => "ico", WebP => "webp" }
}
fn parse(fmt: &str, d: &[u8]) -> Value {
    match fmt { "jpeg" => jpeg(d), "png" => png(d), "bmp" => bmp(d), "ico" => ico(d), "gif" => gif(d), _ => webp(d) }
}
/// a picture of smooth parts and noise
fn picture(r: &mut Rng, w: u32, h: u32, clear: bool, noise: f64) -> Image {
    let (a, b) = (r.unit(), r.unit());
    Image::new_from_buffer(PixelBuffer::new_from_func(w, h, |x, y| {
        let n = |r: &mut Rng| (((x as f64 * a + y as f64 * b) * 0.1 % 1.0) * (1.0 - noise) + r.unit() * noise) as f32;
        let c = Rgb::new(n(r), n(r), n(r));
        if clear { c.with_alpha(r.unit() as f32 * 0.9) } else { c }
    }))
}
fn written(ctx: &mut Ctx, c: &Value) {
    let f = format(c);
    let r = &mut ctx.rng;
    let ico = gs(c, "fmt") == "ico";
    let (w, h) = match r.below(8) {
        0 => (1, 1),
        1 => (r.range(1, 9), r.range(1, 9)),
        2 => (r.range(30, if ico { 256 } else { 300 }), r.range(1, 60)),
        _ => (r.range(10, 60), r.range(10, 60)),
    };
    let clear = r.chance(1, 2);
    let noise = *r.pick(&[0.0, 0.02, 0.3, 1.0]);
    let i = picture(r, w as u32, h as u32, clear, noise);
    let mut e = c.clone();
    e["op"] = json!("written");
    e["w"] = json!(w);
    e["h"] = json!(h);
    e["clear"] = json!(clear);
    e["kind"] = json!(kind(&f));
    ctx.mark(&e);
    let d = guard(|| i.save_to_buffer(f.clone()));
    let d = match d { Ok(Ok(d)) => d, _ => vec![] };
    e["ok"] = json!(!d.is_empty());
    // how a file is packed makes no difference to the image in it
    let r = &mut ctx.rng;
    let other = match &f {
        EncodingFormat::Jpeg { quality, progressive, sampling_factor, grayscale, optimize_huffman_tables } =>
            EncodingFormat::Jpeg { quality: *quality, progressive: *progressive != r.chance(1, 2), sampling_factor: *sampling_factor, grayscale: *grayscale, optimize_huffman_tables: !optimize_huffman_tables },
        EncodingFormat::Png { color_type, .. } => EncodingFormat::Png { color_type: *color_type, compression: *r.pick(&PNG_COMP), filter: *r.pick(&PNG_FILTER) },
        x => x.clone(),
    };
    let read = |d: &[u8]| guard(|| Image::read_from_buffer(d)).ok().and_then(|x| x.ok()).map(|x| x.data().to_vec());
    e["alike"] = json!(guard(|| i.save_to_buffer(other)).ok().and_then(|x| x.ok()).map(|o| read(&o) == read(&d)).unwrap_or(false));
    // the same again
    e["again"] = json!(guard(|| i.save_to_buffer(f)).ok().and_then(|x| x.ok()).map(|x| x == d).unwrap_or(false));
    e["file"] = if d.len() > 20 { guard(|| parse(gs(c, "fmt"), &d)).unwrap_or_else(|_| json!({"broken": true})) } else { json!({"broken": true}) };
    ctx.stateless();
    ctx.emit(e);
}
/// the formats made by name
fn named(ctx: &mut Ctx) {
    let q = *ctx.rng.pick(&[0u8, 1, 50, 75, 85, 90, 100, 101, 255]);
    let k = ctx.rng.below(7) as usize;
    let names = ["jpeg_default", "jpeg_with_quality", "png_default", "gif_default", "bmp_default", "ico_default", "webp_default", "webp_with_quality", "webp_with_preset"];
    let mut list: Vec<(String, EncodingFormat)> = names.iter().map(|n| (n.to_string(), match *n {
        "jpeg_default" => EncodingFormat::jpeg_default(),
        "jpeg_with_quality" => EncodingFormat::jpeg_with_quality(q),
        "png_default" => EncodingFormat::png_default(),
        "gif_default" => EncodingFormat::gif_default(),
        "bmp_default" => EncodingFormat::bmp_default(),
        "ico_default" => EncodingFormat::ico_default(),
        "webp_default" => EncodingFormat::webp_default(),
        "webp_with_quality" => EncodingFormat::webp_with_quality(q),
        _ => EncodingFormat::webp_with_preset(q, WEBP[k]),
    })).collect();
    for x in ["jpg", "jpeg", "png", "gif", "bmp", "ico", "webp"] {
        if let Ok(f) = EncodingFormat::from_path(std::path::Path::new(&format!("a.{}", x))) { list.push((format!(".{}", x), f)); }
    }
    for (n, f) in list {
        ctx.stateless();
        ctx.emit(json!({"op": "named", "name": n, "q": q, "preset": k, "kind": kind(&f), "req": request(&f)}));
    }
}
pub fn x08(ctx: &mut Ctx) {
    for c in ctx.cases() {
        written(ctx, &c);
    }
    for _ in 0..ctx.n(4, 40) { named(ctx); }
    for _ in 0..ctx.n(300, 3000) {
        let r = &mut ctx.rng;
        let q = r.below(256);
        let c = match r.below(3) {
            0 => json!({"fmt": "jpeg", "q": r.range(0, 110), "progressive": r.chance(1, 2), "optimize": r.chance(1, 2), "grey": r.chance(1, 3), "sampling": r.below(17)}),
            1 => json!({"fmt": "webp", "q": if r.chance(1, 4) { q } else { r.below(101) }, "preset": r.below(7)}),
            _ => json!({"fmt": "png", "color": r.below(8), "compression": r.below(3), "filter": r.below(5)}),
        };
        written(ctx, &c);
    }
}
