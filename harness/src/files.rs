//! X01: which format a file is read as.  X02: which format is written, and what happens to files.
use crate::codec::{lossless, lossy_with, picture, LOSSLESS};
use crate::common::*;
use d10::*;
use d10_codecs::Format;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs;
use std::io::{Read, Seek, SeekFrom};
use std::path::PathBuf;

pub const FORMATS: [&str; 6] = ["jpeg", "png", "gif", "bmp", "ico", "webp"];
pub fn digest(b: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}.{}", h, b.len())
}
pub fn pic(i: &Image) -> String {
    let mut v: Vec<u8> = vec![];
    v.extend_from_slice(&i.width().to_be_bytes());
    v.extend_from_slice(&i.height().to_be_bytes());
    for c in i.data() {
        for d in c.data {
            v.extend_from_slice(&d.to_bits().to_be_bytes());
        }
    }
    digest(&v)
}
pub fn sig(b: &[u8]) -> Vec<u8> {
    b[..b.len().min(12)].to_vec()
}
pub fn default_format(f: &str) -> EncodingFormat {
    match f {
        "jpeg" => EncodingFormat::jpeg_default(),
        "png" => EncodingFormat::png_default(),
        "gif" => EncodingFormat::gif_default(),
        "bmp" => EncodingFormat::bmp_default(),
        "ico" => EncodingFormat::ico_default(),
        "webp" => EncodingFormat::webp_default(),
        _ => panic!("format {}", f),
    }
}
/// some format with some options
pub fn any_format(r: &mut Rng, f: &str) -> EncodingFormat {
    match f {
        "jpeg" | "gif" => lossy_with(r, f),
        "webp" => if r.chance(1, 3) { lossless("webp", 0, 0) } else { lossy_with(r, f) },
        _ => {
            let l: Vec<&&str> = LOSSLESS.iter().filter(|n| n.starts_with(f)).collect();
            let n = **r.pick(&l);
            lossless(n, r.below(3) as usize, r.below(5) as usize)
        }
    }
}
/// what a format makes of a picture
#[derive(Clone)]
pub struct Enc {
    pub format: EncodingFormat,
    pub bytes: Vec<u8>,
    pub info: Value,
}
pub fn encoded(i: &Image, format: EncodingFormat) -> Enc {
    match guard(|| i.save_to_buffer(format.clone())) {
        Ok(Ok(b)) => {
            let d = guard(|| Image::read_from_buffer(&b).ok()).ok().flatten();
            let (p, w, h) = d.map(|d| (pic(&d), d.width() as i64, d.height() as i64)).unwrap_or(("undecodable".into(), -1, -1));
            let info = json!({"ok": true, "h": digest(&b), "sig": sig(&b), "pic": p, "w": w, "hh": h});
            Enc { format, bytes: b, info }
        }
        Ok(Err(_)) => Enc { format, bytes: vec![], info: json!({"ok": false, "h": "", "sig": [], "pic": "", "w": 0, "hh": 0}) },
        Err(p) => Enc { format, bytes: vec![], info: json!({"ok": true, "h": format!("panic: {}", p), "sig": [], "pic": "", "w": 0, "hh": 0}) },
    }
}
struct Pool {
    images: Vec<Image>,
    /// per image: format name -> default and other encodings
    encs: Vec<HashMap<String, Vec<Enc>>>,
}
impl Pool {
    fn new(r: &mut Rng, n: usize) -> Pool {
        let mut p = Pool { images: vec![], encs: vec![] };
        for k in 0..n {
            let (w, h) = match k {
                0 => (300, 1),
                1 => (0, 0),
                2 => (1, 1),
                // larger than any buffer on the way
                3 => (100, 90),
                _ => (r.range(1, 9), r.range(1, 7)),
            };
            let b = if w == 0 { PixelBuffer::new_from_raw(0, 0, vec![]) } else { picture(r, w, h) };
            let i = Image::new_from_buffer(b);
            let mut m = HashMap::new();
            for f in FORMATS {
                let mut v = vec![encoded(&i, default_format(f))];
                for _ in 0..3 {
                    v.push(encoded(&i, any_format(r, f)));
                }
                m.insert(f.to_string(), v);
            }
            p.images.push(i);
            p.encs.push(m);
        }
        p
    }
    fn table(&self, i: usize, variant: usize) -> Value {
        Value::Object(self.encs[i].iter().map(|(k, v)| (k.clone(), v[variant].info.clone())).collect())
    }
}
fn edec(e: &EncodingError) -> &'static str {
    match e {
        EncodingError::BadFileExtension(_) => "extension",
        EncodingError::BadDimensions { .. } => "dimensions",
        EncodingError::Encoding(_) => "encode",
        EncodingError::IoError(_) => "io",
    }
}
pub fn ddec(e: &DecodingError) -> &'static str {
    match e {
        DecodingError::BadFileExtension(_) => "extension",
        DecodingError::UnknownFormat => "unknown",
        DecodingError::InvalidBufferSize { .. } => "size",
        DecodingError::Decoding(_) => "decode",
        DecodingError::IoError(_) => "io",
    }
}
fn loaded(r: Result<Result<Image, DecodingError>, String>) -> (String, String) {
    match r {
        Ok(Ok(i)) => ("ok".into(), pic(&i)),
        Ok(Err(e)) => (ddec(&e).into(), String::new()),
        Err(_) => ("panic".into(), String::new()),
    }
}
pub const DIR: &str = "s.bmp";
pub const FULL: &str = "f.ico";
pub struct Dir {
    pub path: PathBuf,
}
impl Dir {
    pub fn new(ctx: &Ctx) -> Dir {
        let path = PathBuf::from(&ctx.dir).join("files");
        Dir { path }
    }
    pub fn reset(&self) {
        let _ = fs::remove_dir_all(&self.path);
        fs::create_dir_all(self.path.join(DIR)).expect("scratch dir");
        std::os::unix::fs::symlink("/dev/full", self.path.join(FULL)).expect("link");
    }
    pub fn list(&self) -> Vec<Value> {
        self.list_as(|n| n.to_string_lossy().to_string())
    }
    pub fn list_as(&self, text: fn(&std::ffi::OsStr) -> String) -> Vec<Value> {
        let mut v: Vec<(String, String)> = vec![];
        for e in fs::read_dir(&self.path).expect("scratch dir") {
            let e = e.expect("entry");
            let n = text(&e.file_name());
            let t = e.file_type().expect("type");
            if n == DIR && t.is_dir() && fs::read_dir(e.path()).map(|d| d.count()).unwrap_or(1) == 0 {
                continue;
            }
            if n == FULL && t.is_symlink() && fs::read_link(e.path()).map(|p| p == PathBuf::from("/dev/full")).unwrap_or(false) {
                continue;
            }
            let h = if t.is_file() { digest(&fs::read(e.path()).unwrap_or_default()) } else { "not a file".to_string() };
            v.push((n, h));
        }
        v.sort();
        v.into_iter().map(|(a, b)| json!([a, b])).collect()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.path);
    }
}
fn chars(n: &str) -> Vec<String> {
    n.rsplit('/').next().unwrap().chars().map(|c| c.to_string()).collect()
}
fn place(n: &str) -> &'static str {
    if n == DIR {
        "dir"
    } else if n == FULL {
        "full"
    } else if n.contains('/') {
        "noparent"
    } else {
        "ok"
    }
}
fn save(ctx: &mut Ctx, d: &Dir, p: &Pool, name: &str, format: &str, image: usize, variant: usize) {
    // without a request: the defaults
    let v = if format.is_empty() { 0 } else { variant };
    let i = &p.images[image];
    let mut e = json!({"op": "save", "name": chars(name), "path": name, "place": place(name), "format": format, "w": i.width(), "hh": i.height()});
    ctx.mark(&e);
    e["enc"] = p.table(image, v);
    let path = d.path.join(name);
    let r = guard(|| if format.is_empty() { i.save(&path) } else { i.save_with_format(&path, p.encs[image][format][v].format.clone()) });
    e["res"] = json!(match &r {
        Ok(Ok(())) => "ok",
        Ok(Err(x)) => edec(x),
        Err(_) => "panic",
    });
    e["ls"] = json!(d.list());
    // never read from /dev/full: it is endless
    e["left"] = match if place(name) == "ok" { fs::read(&path).ok() } else { None } {
        Some(b) => json!({"h": digest(&b), "sig": sig(&b), "real": "", "pic": ""}),
        _ => json!({"h": "", "sig": [], "real": "", "pic": ""}),
    };
    ctx.emit(e);
}
fn load(ctx: &mut Ctx, d: &Dir, name: &str) {
    let mut e = json!({"op": "load", "name": chars(name), "path": name, "place": place(name)});
    ctx.mark(&e);
    // never read from /dev/full: it is endless
    let path = if name == FULL { d.path.join("missing") } else { d.path.join(name) };
    let (r, g) = loaded(guard(|| Image::open(&path)));
    e["res"] = json!(r);
    e["got"] = json!(g);
    ctx.emit(e);
}
/// content of a known nature: bytes, the format whose decoder accepts them, the picture
fn content(r: &mut Rng, p: &Pool, kind: &str) -> (Vec<u8>, String, String) {
    let i = 2 + r.below(p.images.len() as u64 - 2) as usize;
    let some = |r: &mut Rng, f: &str| r.pick(&p.encs[i][f]).clone();
    let head: HashMap<&str, &[u8]> = HashMap::from([
        ("jpeg", &[0xFFu8, 0xD8, 0xFF][..]), ("png", &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]), ("gif", b"GIF87a"), ("bmp", b"BM"),
        ("ico", &[0, 0, 1, 0]), ("webp", b"RIFF\x24\0\0\0WEBP"),
    ]);
    match kind {
        "empty" => (vec![], String::new(), String::new()),
        "junk" => {
            let n = r.range(1, 40);
            let mut b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            b[0] = 0x33;
            (b, String::new(), String::new())
        }
        // a signature and nothing of value
        "head" => {
            let f = *r.pick(&FORMATS);
            let h = head[f];
            let mut b = h[..if r.chance(1, 2) { r.range(0, h.len() as i64) as usize } else { h.len() }].to_vec();
            // bytes that mean nothing here
            if f == "webp" {
                for v in b.iter_mut().skip(4).take(4) {
                    *v = match r.below(4) { 0 => 0, 1 => 255, _ => r.below(256) as u8 };
                }
            }
            if f == "gif" && b.len() > 4 && r.chance(1, 2) {
                b[4] = *r.pick(&[b'9', b'9', b'8', b'6']);
            }
            if b.len() == h.len() {
                b.extend((0..r.range(0, 60)).map(|_| r.below(256) as u8));
            }
            (b, String::new(), String::new())
        }
        // an image with a broken signature
        "broken" => {
            let f = *r.pick(&["jpeg", "png", "gif", "bmp", "webp"]);
            let mut b = some(r, f).bytes;
            let at = match f {
                "jpeg" | "bmp" => r.below(2),
                "png" => r.below(8),
                "gif" => r.below(4),
                _ => *r.pick(&[0, 1, 2, 3, 8, 9, 10, 11]),
            } as usize;
            b[at] = b[at].wrapping_add(1);
            (b, String::new(), String::new())
        }
        // the signature of one format before an image of another one
        "wrong" => {
            let (f, g) = (*r.pick(&FORMATS), *r.pick(&FORMATS));
            if f == g {
                return content(r, p, "head");
            }
            let mut b = head[f].to_vec();
            b.extend(some(r, g).bytes);
            (b, String::new(), String::new())
        }
        "cursor" => {
            let e = some(r, "ico");
            let mut b = e.bytes;
            b[2] = 2;
            (b, "ico".into(), gs(&e.info, "pic").into())
        }
        // bytes in front of the first marker are skipped by the decoder, but this is no signature
        "jpegjunk" => {
            let e = some(r, "jpeg");
            let mut b = vec![0xFF, 0xD8];
            b.extend((0..r.range(1, 9)).map(|_| r.range(1, 200) as u8));
            b.extend(&e.bytes[2..]);
            (b, "jpeg".into(), gs(&e.info, "pic").into())
        }
        // junk behind the end of the image
        "tail" => {
            let f = *r.pick(&["jpeg", "gif", "bmp", "webp"]);
            let e = some(r, f);
            let mut b = e.bytes;
            b.extend((0..r.range(1, 20)).map(|_| r.below(256) as u8));
            (b, f.into(), gs(&e.info, "pic").into())
        }
        f => {
            let e = some(r, f);
            (e.bytes, f.into(), gs(&e.info, "pic").into())
        }
    }
}
fn write(ctx: &mut Ctx, d: &Dir, p: &Pool, name: &str, kind: &str) {
    let (b, real, pic) = content(&mut ctx.rng, p, kind);
    fs::write(d.path.join(name), &b).expect("write");
    ctx.emit(json!({"op": "write", "path": name, "kind": kind, "h": digest(&b), "sig": sig(&b), "real": real, "pic": pic}));
}
fn mem(ctx: &mut Ctx, p: &Pool, kind: &str) {
    let (b, real, pic) = content(&mut ctx.rng, p, kind);
    let mut e = json!({"op": "mem", "kind": kind, "sig": sig(&b), "real": real, "pic": pic});
    ctx.mark(&e);
    let (r, g) = loaded(guard(|| Image::read_from_buffer(&b)));
    e["res"] = json!(r);
    e["got"] = json!(g);
    ctx.emit(e);
}
/// a reader that returns few bytes at once
struct Slow {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    interrupts: bool,
    turn: bool,
}
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.turn = !self.turn;
        if self.interrupts && self.turn {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = b.len().min(self.chunk).min(self.data.len().saturating_sub(self.pos));
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Slow {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.pos = match s {
            SeekFrom::Start(k) => k as usize,
            SeekFrom::Current(k) => (self.pos as i64 + k) as usize,
            SeekFrom::End(k) => (self.data.len() as i64 + k) as usize,
        };
        Ok(self.pos as u64)
    }
}
fn detect(ctx: &mut Ctx, p: &Pool, kind: &str) {
    let (mut b, _, _) = content(&mut ctx.rng, p, kind);
    if ctx.rng.chance(1, 3) {
        b.truncate(ctx.rng.below(14) as usize);
    }
    let chunk = *ctx.rng.pick(&[1, 2, 3, 5, 7, 11, 12, 100]);
    let s = sig(&b);
    let mut r = Slow { data: b, pos: 0, chunk, interrupts: ctx.rng.chance(1, 3), turn: false };
    let f = guard(|| Format::from_reader(&mut r));
    let res = match f {
        Ok(Ok(Format::Jpeg)) => "jpeg".to_string(),
        Ok(Ok(Format::Png)) => "png".into(),
        Ok(Ok(Format::Gif)) => "gif".into(),
        Ok(Ok(Format::Bmp)) => "bmp".into(),
        Ok(Ok(Format::Ico)) => "ico".into(),
        Ok(Ok(Format::WebP)) => "webp".into(),
        Ok(Err(e)) => ddec(&e).into(),
        Err(p) => p,
    };
    ctx.emit(json!({"op": "detect", "kind": kind, "sig": s, "chunk": chunk, "interrupts": r.interrupts, "res": res, "pos": r.pos}));
}
const KINDS: [&str; 14] = ["empty", "junk", "head", "broken", "wrong", "cursor", "jpegjunk", "tail", "jpeg", "png", "gif", "bmp", "ico", "webp"];
fn name(r: &mut Rng) -> String {
    let ext = *r.pick(&["jpg", "jpeg", "png", "gif", "bmp", "ico", "webp", "jpg", "jpeg", "png", "gif", "bmp", "ico", "webp", "jpe", "jfif", "tif", "pn", "pngg", "web", "ïco", "", "bmp ", "ICO"]);
    let ext: String = match r.below(4) {
        0 => ext.to_ascii_uppercase(),
        1 => ext.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => ext.to_string(),
    };
    match r.below(12) {
        0 => format!(".{}", ext),
        1 => if ext.is_empty() { "e".into() } else { ext },
        2 => format!("a.b.{}", ext),
        3 => format!("a.{}.b", ext),
        4 => format!("a.{}.", ext),
        5 => format!("..{}", ext),
        6 => format!("png.{}", ext),
        7 => format!("ü .{}", ext),
        _ => format!("a.{}", ext),
    }
}
fn special(n: &str) -> &'static str {
    match n {
        "apng" => "a.png",
        "ajpg" => "a.JpG",
        "cnone" => "c",
        "dtmp" => "d.tmp",
        "hidden" => ".png",
        "wwebp" => "w.x.WEBP",
        "dir" => DIR,
        "gone" => "no/x.gif",
        "full" => FULL,
        _ => panic!("name {}", n),
    }
}
/// only names no special place has
fn free(n: &str) -> bool {
    n != "." && n != ".." && n != DIR && n != FULL && !n.is_empty()
}
fn sessions(ctx: &mut Ctx, saves: bool) {
    let p = Pool::new(&mut ctx.rng, 12);
    let d = Dir::new(ctx);
    for c in ctx.cases() {
        let steps = c.as_array().unwrap();
        if steps.iter().any(|s| gs(s, "op") == "save") != saves {
            continue;
        }
        ctx.session();
        d.reset();
        for s in steps {
            let n = special(gs(s, "name"));
            match gs(s, "op") {
                "save" => {
                    let i = 2 + (gi(s, "image") as usize * 3 + ctx.rng.below(3) as usize) % (p.images.len() - 2);
                    let v = ctx.rng.below(4) as usize;
                    save(ctx, &d, &p, n, gs(s, "format"), i, v)
                }
                "write" => write(ctx, &d, &p, n, gs(s, "kind")),
                _ => load(ctx, &d, n),
            }
        }
    }
    for _ in 0..if saves { ctx.n(500, 6000) } else { ctx.n(700, 8000) } {
        ctx.session();
        d.reset();
        let mut names: Vec<String> = (0..3).map(|_| name(&mut ctx.rng)).filter(|n| free(n)).collect();
        names.push("a.png".into());
        for _ in 0..ctx.rng.range(3, 9) {
            let n = ctx.rng.pick(&names).clone();
            let kind = *ctx.rng.pick(&KINDS);
            match ctx.rng.below(if saves { 10 } else { 5 }) {
                0 => write(ctx, &d, &p, &n, kind),
                1 => load(ctx, &d, &n),
                2 if !saves => mem(ctx, &p, kind),
                3 if !saves => detect(ctx, &p, kind),
                2 | 3 | 4 if !saves => {
                    write(ctx, &d, &p, &n, kind);
                    load(ctx, &d, &n)
                }
                2 => {
                    let n = *ctx.rng.pick(&[DIR, FULL, "no/x.gif", "no/x"]);
                    let f = *ctx.rng.pick(&["", "", "jpeg", "png", "gif", "bmp", "ico", "webp"]);
                    let (i, v) = (2 + ctx.rng.below(p.images.len() as u64 - 2) as usize, ctx.rng.below(4) as usize);
                    save(ctx, &d, &p, n, f, i, v)
                }
                _ => {
                    let f = if ctx.rng.chance(1, 2) { "" } else { *ctx.rng.pick(&FORMATS) };
                    let (i, v) = (ctx.rng.below(p.images.len() as u64) as usize, ctx.rng.below(4) as usize);
                    save(ctx, &d, &p, &n, f, i, v);
                    if ctx.rng.chance(1, 3) {
                        load(ctx, &d, &n)
                    }
                }
            }
        }
    }
}
pub fn x01(ctx: &mut Ctx) {
    sessions(ctx, false);
    // every kind through a file of every extension, through memory and through slow readers
    let p = Pool::new(&mut ctx.rng, 8);
    let d = Dir::new(ctx);
    for kind in KINDS {
        ctx.session();
        d.reset();
        for n in ["a.jpg", "a.JPEG", "a.png", "a.Gif", "a.bmp", "a.ico", "a.webp", "a", "a.tmp"] {
            write(ctx, &d, &p, n, kind);
            load(ctx, &d, n);
            mem(ctx, &p, kind);
            detect(ctx, &p, kind);
        }
        load(ctx, &d, "missing.png");
        load(ctx, &d, DIR);
    }
}
pub fn x02(ctx: &mut Ctx) {
    sessions(ctx, true);
}
