//! Z01: what failures say.
use crate::codec::picture;
use crate::common::*;
use crate::files::{any_format, ddec, default_format, Dir, DIR, FORMATS};
use d10::*;
use d10::ops::{BalanceMode, BlendOp, DrawingMode, SaturationMode};
use d10_commands::{Cmd, Queue};
use serde_json::{json, Value};
use std::error::Error as _;
use std::fs;
use std::io::{Error, ErrorKind, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};

fn chars(t: &str) -> Vec<String> {
    t.chars().map(|c| c.to_string()).collect()
}
fn io(e: &Error) -> Value {
    json!({"kind": "io", "io": format!("{:?}", e.kind()), "code": e.raw_os_error().unwrap_or(0), "text": chars(&e.to_string())})
}
fn said(kind: &str, text: &str) -> Value {
    json!({"kind": kind, "io": "", "code": 0, "text": chars(text)})
}
fn enc_err(e: &EncodingError) -> Value {
    match e {
        EncodingError::IoError(x) => {
            let mut v = io(x);
            v["text"] = json!(chars(&e.to_string()));
            v
        }
        EncodingError::BadFileExtension(_) => said("extension", &e.to_string()),
        EncodingError::BadDimensions { .. } => said("dimensions", &e.to_string()),
        EncodingError::Encoding(_) => said("encode", &e.to_string()),
    }
}
fn dec_err(e: &DecodingError) -> Value {
    match e {
        DecodingError::IoError(x) => {
            let mut v = io(x);
            v["text"] = json!(chars(&e.to_string()));
            v
        }
        e => said(ddec(e), &e.to_string()),
    }
}
fn res<T, E>(r: Result<Result<T, E>, String>, f: fn(&E) -> Value) -> Value {
    match r {
        Ok(Ok(_)) => said("ok", ""),
        Ok(Err(e)) => f(&e),
        Err(p) => said("panic", &p),
    }
}
/// a destination that fails in its own way after some bytes
struct Sink {
    room: usize,
    kind: ErrorKind,
    code: i32,
    text: String,
    zero: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 {
            return if self.zero {
                Ok(0)
            } else if self.code != 0 {
                Err(Error::from_raw_os_error(self.code))
            } else {
                Err(Error::new(self.kind, self.text.clone()))
            };
        }
        let n = b.len().min(self.room);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// all but Interrupted, after which writing goes on
const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::WouldBlock, ErrorKind::NotFound, ErrorKind::AlreadyExists,
    ErrorKind::ConnectionRefused, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::OutOfMemory, ErrorKind::Unsupported,
    ErrorKind::AddrInUse,
];
const CODES: [i32; 9] = [28, 32, 5, 13, 122, 11, 27, 2, 9];
fn word(r: &mut Rng) -> String {
    let n = r.range(3, 14);
    (0..n).map(|_| *r.pick(&['a', 'b', 'x', 'é', ' ', '-', '7', 'Z', '/'])).collect::<String>().trim().to_string() + "."
}
fn sink(ctx: &mut Ctx, f: &str, i: &Image, ef: &EncodingFormat, total: usize, at: usize, how: &str, nth: Option<usize>) {
    let r = &mut ctx.rng;
    let (mut kind, mut code, text) = (*r.pick(&KINDS), *r.pick(&CODES), word(r));
    if let Some(k) = nth {
        kind = KINDS[k % KINDS.len()];
        code = CODES[k % CODES.len()];
    }
    let s = match how {
        "zero" => Sink { room: at, kind, code: 0, text: String::new(), zero: true },
        "code" => Sink { room: at, kind, code, text: String::new(), zero: false },
        _ => Sink { room: at, kind, code: 0, text: text.clone(), zero: false },
    };
    let given = match how {
        "zero" => json!({"io": "WriteZero", "code": 0, "text": []}),
        "code" => { let mut v = io(&Error::from_raw_os_error(code)); v.as_object_mut().unwrap().remove("kind"); v }
        _ => json!({"io": format!("{:?}", kind), "code": 0, "text": chars(&text)}),
    };
    let mut e = json!({"op": "sink", "format": f, "total": total, "at": at, "how": how, "given": given});
    ctx.mark(&e);
    let mut s = s;
    e["err"] = res(guard(|| i.save_to_writer(&mut s, ef.clone())), enc_err);
    ctx.stateless();
    ctx.emit(e);
}
fn osmsg(code: i32) -> Vec<String> {
    chars(&Error::from_raw_os_error(code).to_string())
}
fn os(e: &mut Value) {
    e["os"] = json!({"missing": osmsg(2), "dir": osmsg(21), "full": osmsg(28)});
}
fn name_of(r: &mut Rng, ext: &str, place: &str) -> String {
    let stem: String = (0..r.range(1, 8)).map(|_| *r.pick(&['a', 'q', 'Z', '_', '0', ' ', 'ü', '.', '-'])).collect();
    let stem = format!("n{}", stem);
    let n = if ext.is_empty() { stem.replace('.', "") } else { format!("{}.{}", stem, ext) };
    match place {
        "dir" => if ext == "bmp" { DIR.into() } else { format!("d{}", n) },
        "full" => format!("l{}", n),
        "noparent" => format!("none/{}", n),
        _ => n,
    }
}
fn prepare(path: &PathBuf, place: &str) {
    match place {
        "dir" => { let _ = fs::create_dir_all(path); }
        "full" => { let _ = std::os::unix::fs::symlink("/dev/full", path); }
        _ => {}
    }
}
fn format_for(r: &mut Rng, f: &str) -> EncodingFormat {
    if r.chance(1, 2) { default_format(f) } else { any_format(r, f) }
}
fn tail(path: &PathBuf) -> Vec<String> {
    chars(&path.to_string_lossy())
}
fn ext_of(r: &mut Rng, ext: &str) -> String {
    let x = match ext {
        "none" => return String::new(),
        "other" => return r.pick(&["txt", "pngx", "tiff", "jp", "gif8", "7", "web"]).to_string(),
        "jpeg" => *r.pick(&["jpg", "jpeg"]),
        x => x,
    };
    if r.chance(1, 3) { x.to_uppercase() } else { x.to_string() }
}
/// sizes: "small" fits everywhere, "empty", "wide" and "tall" exceed a format
fn sized(r: &mut Rng, size: &str) -> Image {
    let (w, h) = match size {
        "empty" => return Image::new_from_buffer(PixelBuffer::new_from_raw(0, 0, vec![])),
        "wide" => (65536 + r.range(0, 9), 1),
        "tall" => (1, 65536 + r.range(0, 9)),
        _ => (r.range(1, 9), r.range(1, 9)),
    };
    if w.max(h) > 1000 { Image::new_with_color(w as u32, h as u32, Rgb::new(0.2, 0.4, 0.6)) } else { Image::new_from_buffer(picture(r, w, h)) }
}
fn save(ctx: &mut Ctx, d: &Dir, c: &Value) {
    let r = &mut ctx.rng;
    let (ext, req, place, size) = (gs(c, "ext"), gs(c, "req"), gs(c, "place"), gs(c, "size"));
    let i = sized(r, size);
    let x = ext_of(r, ext);
    let path = d.path.join(name_of(r, &x, place));
    prepare(&path, place);
    let f = if req.is_empty() { None } else { Some(format_for(r, req)) };
    let mut e = json!({"op": "save", "ext": ext, "req": req, "place": place, "size": size, "w": chars(&i.width().to_string()),
        "h": chars(&i.height().to_string()), "path": tail(&path)});
    os(&mut e);
    ctx.mark(&e);
    e["err"] = res(guard(|| match &f { None => i.save(&path), Some(f) => i.save_with_format(&path, f.clone()) }), enc_err);
    clean(&path, place);
    ctx.stateless();
    ctx.emit(e);
}
fn clean(path: &PathBuf, place: &str) {
    if place == "dir" { let _ = fs::remove_dir(path); } else { let _ = fs::remove_file(path); }
}
/// the header of a file that declares a size
fn huge(r: &mut Rng, f: &str, w: u32, h: u32) -> Vec<u8> {
    let i = Image::new_from_buffer(picture(r, 3, 2));
    let mut b = i.save_to_buffer(default_format(f)).expect("encode");
    if f == "png" {
        b[16..20].copy_from_slice(&w.to_be_bytes());
        b[20..24].copy_from_slice(&h.to_be_bytes());
        let c = crate::foreign::crc32(&b[12..29]);
        b[29..33].copy_from_slice(&c.to_be_bytes());
    }
    b
}
fn open(ctx: &mut Ctx, d: &Dir, c: &Value) {
    let r = &mut ctx.rng;
    let (ext, what, via) = (gs(c, "ext"), gs(c, "what"), gs(c, "via"));
    let x = ext_of(r, ext);
    let path = d.path.join(name_of(r, &x, "ok"));
    let (w, h) = *r.pick(&[(100000u32, 20000u32), (40000, 40000), (1 << 20, 1 << 20), (2, 0x7fff_ffff), (32768, 32769)]);
    let b = match what {
        "junk" => {
            let mut b: Vec<u8> = (0..r.range(1, 40)).map(|_| r.below(256) as u8).collect();
            b[0] = 0x33;
            b
        }
        "nothing" => vec![],
        "huge" => huge(r, "png", w, h),
        "cut" => {
            let f = *r.pick(&FORMATS);
            let i = Image::new_from_buffer(picture(r, 6, 5));
            let b = i.save_to_buffer(default_format(f)).expect("encode");
            b[..(b.len() / 4).max(14)].to_vec()
        }
        _ => vec![],
    };
    match what {
        "missing" => {}
        "dir" => { let _ = fs::create_dir_all(&path); }
        _ => fs::write(&path, &b).expect("write"),
    }
    let mut e = json!({"op": "open", "ext": ext, "what": what, "via": via, "w": chars(&w.to_string()), "h": chars(&h.to_string()), "path": tail(&path)});
    os(&mut e);
    ctx.mark(&e);
    e["err"] = res(guard(|| if via == "memory" { Image::read_from_buffer(&b) } else { Image::open(&path) }), dec_err);
    if what == "dir" { let _ = fs::remove_dir(&path); } else { let _ = fs::remove_file(&path); }
    ctx.stateless();
    ctx.emit(e);
}
/// a program of commands, by the library and by the command line tool
fn program(ctx: &mut Ctx, d: &Dir, bin: &PathBuf, good: &PathBuf, c: &Value) {
    let r = &mut ctx.rng;
    let fault = gs(c, "fault");
    let word = loop {
        let w: String = (0..r.range(1, 6)).map(|_| *r.pick(&['a', 'q', 'x', 'é', '~', '!', '9'])).collect();
        if w.parse::<f32>().is_err() { break w; }
    };
    let ext = *r.pick(&["txt", "pngx", "tif"]);
    let out = d.path.join(format!("o{}.{}", word, ext));
    let gone = d.path.join(format!("g{}.png", word));
    let junk = d.path.join(format!("j{}", word));
    let noparent = d.path.join(format!("none/{}.png", word));
    fs::write(&junk, b"3 is no image").expect("write");
    let p = |x: &PathBuf| x.to_string_lossy().to_string();
    let one = *r.pick(&["gamma", "brightness", "contrast", "saturation", "lightness", "hue-rotate", "stretch-saturation", "rotate"]);
    let two = "brightness-contrast";
    let filler = |r: &mut Rng, v: &mut Vec<String>| {
        for _ in 0..r.below(3) {
            match r.below(3) {
                0 => v.push("-invert".into()),
                1 => v.extend(["-gamma".to_string(), "1.2".to_string()]),
                _ => v.extend(["-contrast".to_string(), "0.9".to_string()]),
            }
        }
    };
    let mut a: Vec<String> = vec!["-silent".into()];
    let mut q: Vec<Cmd> = vec![];
    let mut facts: Vec<String> = vec![];
    let opening = |a: &mut Vec<String>, x: &PathBuf| { a.push("-open".into()); a.push(p(x)) };
    match fault {
        "none" => { opening(&mut a, good); filler(r, &mut a); q.push(Cmd::Open(good.clone())); q.push(Cmd::Invert) }
        "missing" => { opening(&mut a, &gone); filler(r, &mut a); q.push(Cmd::Open(gone.clone())); q.push(Cmd::Invert) }
        "unknown" => { opening(&mut a, &junk); filler(r, &mut a); q.push(Cmd::Open(junk.clone())) }
        "noimage" => { a.push("-invert".into()); filler(r, &mut a); q.push(Cmd::Invert) }
        "extension" => {
            opening(&mut a, good);
            filler(r, &mut a);
            a.push(p(&out));
            q.push(Cmd::Open(good.clone()));
            q.push(Cmd::Save(out.clone()));
            facts.push(p(&out));
        }
        "noparent" => {
            opening(&mut a, good);
            a.push("-save".into());
            a.push(p(&noparent));
            q.push(Cmd::Open(good.clone()));
            q.push(Cmd::Save(noparent.clone()));
        }
        "argument" => { opening(&mut a, good); filler(r, &mut a); a.push(format!("-{}", word)); facts.push(format!("-{}", word)); filler(r, &mut a) }
        "parameter" => { opening(&mut a, good); filler(r, &mut a); let n = *r.pick(&[one, two, "level", "save", "open", "grayscale"]); a.push(format!("-{}", n)); facts.push(n.into()) }
        "number" => {
            opening(&mut a, good);
            filler(r, &mut a);
            let n = *r.pick(&[one, two, "level"]);
            let v = match n {
                "level" => r.pick(&[format!("0,1,{}", word), format!("{},1,1", word), "0,1".to_string(), "0,1,1,2".to_string()]).clone(),
                "brightness-contrast" => r.pick(&[format!("0,{}", word), format!("{},1", word), "1".to_string(), "0,1,1".to_string()]).clone(),
                _ => word.clone(),
            };
            a.push(format!("-{}", n));
            a.push(v.clone());
            facts.push(n.into());
            facts.push(v);
            filler(r, &mut a);
        }
        _ => {
            opening(&mut a, good);
            filler(r, &mut a);
            a.push("-grayscale".into());
            a.push(word.clone());
            facts.push(word.clone());
        }
    }
    let mut e = json!({"op": "program", "fault": fault, "args": a, "facts": facts.iter().map(|f| chars(f)).collect::<Vec<_>>()});
    os(&mut e);
    ctx.mark(&e);
    let o = Command::new(bin).args(&a).current_dir(&d.path).stdin(Stdio::null()).output().expect("start the command line tool");
    e["code"] = json!(o.status.code().unwrap_or(-1));
    e["said"] = json!(chars(&String::from_utf8_lossy(&o.stderr)));
    e["out"] = json!(o.stdout.len());
    let mut queue = Queue::new();
    queue.push(Cmd::Silent);
    let empty = q.is_empty();
    for c in q {
        queue.push(c);
    }
    e["lib"] = match guard(|| queue.run()) {
        _ if empty => json!({"k": "none", "text": [], "source": []}),
        Ok(Ok(_)) => json!({"k": "ok", "text": [], "source": []}),
        Ok(Err(x)) => {
            let s = x.source().map(|s| s.to_string()).unwrap_or_default();
            json!({"k": "err", "text": chars(&x.to_string()), "source": chars(&s)})
        }
        Err(p) => json!({"k": format!("panic: {}", p), "text": [], "source": []}),
    };
    for x in [&junk, &out, &gone] {
        let _ = fs::remove_file(x);
    }
    ctx.stateless();
    ctx.emit(e);
}
macro_rules! parse_as {
    ($t:ty, $w:expr) => {
        match $w.parse::<$t>() {
            Ok(_) => json!({"ok": true, "text": [], "input": [], "type": []}),
            Err(x) => json!({"ok": false, "text": chars(&x.to_string()), "input": chars(&x.input), "type": chars(x.enum_type)}),
        }
    };
}
pub const ENUMS: [&str; 15] = [
    "EdgeDetection", "DrawingMode", "SaturationMode", "BalanceMode", "FilterMode", "EqualizeMode", "BlendOp", "PngColorType", "PngFilterType",
    "PngCompression", "WebPPreset", "JpegSamplingFactor", "BmpColorType", "IcoColorType", "Intensity",
];
fn parse(ctx: &mut Ctx, t: &str) {
    let w = match ctx.rng.below(4) {
        0 => String::new(),
        1 => ctx.rng.pick(&["Default", "RGB", " rgb8", "rgb8 ", "nearest_", "lossless!", "average,", "hsl2"]).to_string(),
        _ => word(&mut ctx.rng),
    };
    let mut e = json!({"op": "parse", "type": chars(t), "input": chars(&w)});
    ctx.mark(&e);
    e["got"] = match t {
        "EdgeDetection" => parse_as!(EdgeDetection, w),
        "DrawingMode" => parse_as!(DrawingMode, w),
        "SaturationMode" => parse_as!(SaturationMode, w),
        "BalanceMode" => parse_as!(BalanceMode, w),
        "FilterMode" => parse_as!(FilterMode, w),
        "EqualizeMode" => parse_as!(EqualizeMode, w),
        "BlendOp" => parse_as!(BlendOp, w),
        "PngColorType" => parse_as!(PngColorType, w),
        "PngFilterType" => parse_as!(PngFilterType, w),
        "PngCompression" => parse_as!(PngCompression, w),
        "WebPPreset" => parse_as!(WebPPreset, w),
        "JpegSamplingFactor" => parse_as!(JpegSamplingFactor, w),
        "BmpColorType" => parse_as!(BmpColorType, w),
        "IcoColorType" => parse_as!(IcoColorType, w),
        _ => parse_as!(Intensity, w),
    };
    ctx.stateless();
    ctx.emit(e);
}
pub fn z01(ctx: &mut Ctx) {
    let d = Dir::new(ctx);
    d.reset();
    let bin = PathBuf::from(std::env::var("D10_BUILD").expect("D10_BUILD")).join("target/debug/d10");
    let good = PathBuf::from(&ctx.dir).join("good.png");
    Image::new_from_buffer(picture(&mut ctx.rng, 4, 3)).save(&good).expect("save");
    let cases = ctx.cases();
    for round in 0..ctx.n(2, 12) {
        for c in &cases {
            match gs(c, "op") {
                "save" => save(ctx, &d, c),
                "open" => open(ctx, &d, c),
                _ if round == 0 || ctx.thorough => program(ctx, &d, &bin, &good, c),
                _ => {}
            }
        }
    }
    for _ in 0..ctx.n(6, 60) {
        for t in ENUMS {
            parse(ctx, t);
        }
        for f in FORMATS {
            let (w, h) = (ctx.rng.range(1, 40), ctx.rng.range(1, 30));
            let i = Image::new_from_buffer(picture(&mut ctx.rng, w, h));
            let ef = format_for(&mut ctx.rng, f);
            let Ok(Ok(b)) = guard(|| i.save_to_buffer(ef.clone())) else { continue };
            let n = b.len() as i64;
            for at in [0, ctx.rng.range(0, n - 1), ctx.rng.range(0, n - 1), ctx.rng.range(0, n.min(40) - 1), (n - 1 - ctx.rng.range(0, 12)).max(0), n - 1] {
                let how = *ctx.rng.pick(&["zero", "code", "code", "kind", "kind"]);
                sink(ctx, f, &i, &ef, n as usize, at as usize, how, None);
            }
        }
    }
    // every kind and code with every format
    for f in FORMATS {
        for k in 0..KINDS.len() + CODES.len() {
            let i = Image::new_from_buffer(picture(&mut ctx.rng, 7, 5));
            let ef = format_for(&mut ctx.rng, f);
            let Ok(Ok(b)) = guard(|| i.save_to_buffer(ef.clone())) else { continue };
            let (nth, how) = if k < KINDS.len() { (k, "kind") } else { (k - KINDS.len(), "code") };
            for at in [0, ctx.rng.below(b.len() as u64) as usize] {
                sink(ctx, f, &i, &ef, b.len(), at, how, Some(nth));
            }
        }
    }
}
