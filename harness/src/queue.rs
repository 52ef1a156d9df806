//! Q01: runs of command queues.  Q02: calls of the command line tool.
use crate::codec::picture;
use crate::common::*;
use crate::files::{digest, encoded, pic, sig, Dir, DIR, FULL};
use d10::*;
use d10_commands::{Cmd, CommandError, Queue};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// one command: its name in `Cmd`, numbers, a path relative to the scratch directory or a word
#[derive(Clone)]
struct Op {
    n: &'static str,
    v: [f32; 3],
    /// bytes as characters
    s: String,
    filter: FilterMode,
}
const WORDS: [(&str, Intensity); 10] = [
    ("average", Intensity::Average), ("rec601luma", Intensity::Rec601Luma), ("rec709luma", Intensity::Rec709Luma), ("default", Intensity::Rec709Luma),
    ("brightness", Intensity::Brightness), ("lightness", Intensity::Lightness), ("saturation", Intensity::Saturation), ("red", Intensity::Red),
    ("green", Intensity::Green), ("blue", Intensity::Blue),
];
fn intensity(s: &str) -> Intensity {
    WORDS.iter().find(|w| w.0 == s).expect("intensity").1
}
/// a path whose bytes are the characters of `s`
fn path_of(s: &str) -> PathBuf {
    PathBuf::from(OsString::from_vec(s.chars().map(|c| c as u8).collect()))
}
fn text_of(b: &std::ffi::OsStr) -> String {
    b.as_bytes().iter().map(|b| *b as char).collect()
}
fn op(n: &'static str) -> Op {
    Op { n, v: [0.0; 3], s: String::new(), filter: FilterMode::Bilinear }
}
impl Op {
    fn num(n: &'static str, v: f32) -> Op {
        Op { v: [v, 0.0, 0.0], ..op(n) }
    }
    fn file(n: &'static str, s: &str) -> Op {
        Op { s: s.to_string(), ..op(n) }
    }
    fn cmd(&self, dir: &Path) -> Cmd {
        let v = self.v;
        match self.n {
            "Silent" => Cmd::Silent,
            "Open" => Cmd::Open(dir.join(path_of(&self.s))),
            "Save" => Cmd::Save(dir.join(path_of(&self.s))),
            "ToGray" => Cmd::ToGray(intensity(&self.s)),
            "Invert" => Cmd::Invert,
            "Gamma" => Cmd::Gamma(v[0]),
            "Level" => Cmd::Level { black_point: v[0], white_point: v[1], gamma: v[2] },
            "Brightness" => Cmd::Brightness(v[0]),
            "Contrast" => Cmd::Contrast(v[0]),
            "BrightnessContrast" => Cmd::BrightnessContrast { brightness: v[0], contrast: v[1] },
            "Saturation" => Cmd::Saturation(v[0]),
            "StretchSaturation" => Cmd::StretchSaturation(v[0]),
            "Lightness" => Cmd::Lightness(v[0]),
            "HueRotate" => Cmd::HueRotate(v[0]),
            "Rotate" => Cmd::Rotate { radians: v[0], filter: self.filter },
            "RandomNoise" => Cmd::RandomNoise(v[0]),
            "SaltNPepperNoise" => Cmd::SaltNPepperNoise(v[0]),
            "RgbNoise" => Cmd::RgbNoise(v[0]),
            n => panic!("command {}", n),
        }
    }
    /// through the builder method, where there is one
    fn add(&self, q: Queue, dir: &Path, how: u64) -> Queue {
        let v = self.v;
        if how == 0 {
            return q.with(self.cmd(dir));
        }
        if how == 1 {
            let mut q = q;
            q.push(self.cmd(dir));
            return q;
        }
        match self.n {
            "Silent" => q.silent(),
            "Open" => q.open(dir.join(path_of(&self.s))),
            "Save" => q.save(dir.join(path_of(&self.s))),
            "ToGray" => q.to_gray(intensity(&self.s)),
            "Invert" => q.invert(),
            "Gamma" => q.gamma(v[0]),
            "Level" => q.level(v[0], v[1], v[2]),
            "Brightness" => q.brightness(v[0]),
            "Contrast" => q.contrast(v[0]),
            "BrightnessContrast" => q.brightness_contrast(v[0], v[1]),
            "Saturation" => q.saturation(v[0]),
            "StretchSaturation" => q.stretch_saturation(v[0]),
            "Lightness" => q.lightness(v[0]),
            "HueRotate" => q.hue_rotate(v[0]),
            "Rotate" => q.rotate(v[0], self.filter),
            _ => q.with(self.cmd(dir)),
        }
    }
    /// what the library makes of it
    fn apply(&self, i: &Image) -> Image {
        let v = self.v;
        match self.n {
            "ToGray" => i.map_colors(|c| c.to_gray_with_intensity(intensity(&self.s))),
            "Invert" => i.map_colors(|c| c.invert()),
            "Gamma" => i.map_colors(|c| c.with_gamma(v[0])),
            "Level" => i.map_colors(|c| c.with_level(v[0], v[1], v[2])),
            "Brightness" => i.map_colors(|c| c.with_brightness(v[0])),
            "Contrast" => i.map_colors(|c| c.with_contrast(v[0])),
            "BrightnessContrast" => i.map_colors(|c| c.with_brightness_contrast(v[0], v[1])),
            "Saturation" => i.map_colors(|c| c.with_saturation(v[0])),
            "StretchSaturation" => i.map_colors(|c| c.stretch_saturation(v[0])),
            "Lightness" => i.map_colors(|c| c.with_lightness(v[0])),
            "HueRotate" => i.map_colors(|c| c.with_hue_rotate(v[0])),
            "Rotate" => i.rotate(v[0], self.filter),
            // without any strength
            _ => i.clone(),
        }
    }
    fn noise(&self) -> bool {
        ["RandomNoise", "SaltNPepperNoise", "RgbNoise"].contains(&self.n)
    }
    fn t(&self) -> i64 {
        if !self.noise() {
            return 0;
        }
        let t = self.v[0] * 64.0;
        if t.fract() == 0.0 && (0.0..=64.0).contains(&t) && (self.n != "SaltNPepperNoise" || t <= 32.0 || t == 64.0) { t as i64 } else { -1 }
    }
    fn record(&self, dir: &Path) -> Value {
        let file = ["Open", "Save"].contains(&self.n);
        let name: &str = self.s.rsplit('/').next().unwrap();
        let chars: Vec<String> = if file { name.chars().map(|c| c.to_string()).collect() } else { vec![] };
        json!({"n": self.n, "say": format!("{:?}", self.cmd(dir)), "path": if file { &self.s } else { "" }, "chars": chars,
               "place": if file { place(&self.s) } else { "ok" }, "t": self.t()})
    }
}
fn place(s: &str) -> &'static str {
    if s == DIR || s.is_empty() || s == "." || s == ".." {
        "dir"
    } else if s == FULL {
        "full"
    } else if s.contains('/') {
        "noparent"
    } else {
        "ok"
    }
}
fn bytes8(i: &Image) -> Vec<[u8; 4]> {
    i.data().iter().map(|c| c.data.map(|v| (v.clamp(0.0, 1.0) * 255.0).round() as u8)).collect()
}
/// what the specification needs to know about pictures and encodings
#[derive(Default)]
struct Facts {
    app: HashMap<String, Map<String, Value>>,
    enc: HashMap<String, Map<String, Value>>,
    px: Map<String, Value>,
    noisy: bool,
}
fn maps(m: HashMap<String, Map<String, Value>>) -> Value {
    Value::Object(m.into_iter().map(|(k, v)| (k, Value::Object(v))).collect())
}
/// the pictures a run comes across; None: outside of what can be known before
fn facts(ops: &[Op], dir: &Path) -> Option<Facts> {
    let mut f = Facts::default();
    let mut files: HashMap<String, Option<Vec<u8>>> = HashMap::new();
    let mut cur: Option<Image> = None;
    let mut noisy = false;
    for o in ops {
        match o.n {
            "Silent" => {}
            "Open" => {
                if place(&o.s) != "ok" {
                    break;
                }
                cur = match files.get(&o.s) {
                    Some(None) => return None,
                    Some(Some(b)) => Image::read_from_buffer(b).ok(),
                    None => guard(|| Image::open(dir.join(path_of(&o.s))).ok()).ok()?,
                };
                noisy = false;
                if cur.is_none() {
                    break;
                }
            }
            "Save" => {
                let i = match &cur {
                    Some(i) if place(&o.s) == "ok" => i,
                    _ => break,
                };
                let fmt = match EncodingFormat::from_path(&path_of(&o.s)) {
                    Ok(f) => f,
                    Err(_) => break,
                };
                let n = match fmt {
                    EncodingFormat::Jpeg { .. } => "jpeg",
                    EncodingFormat::Png { .. } => "png",
                    EncodingFormat::Gif => "gif",
                    EncodingFormat::Bmp { .. } => "bmp",
                    EncodingFormat::Ico { .. } => "ico",
                    EncodingFormat::WebP { .. } => "webp",
                };
                if noisy {
                    // too large for the format?
                    let e = encoded(i, fmt);
                    if e.info["ok"] != json!(true) {
                        f.enc.entry(pic(i)).or_default().insert(n.into(), e.info);
                        break;
                    }
                    files.insert(o.s.clone(), None);
                } else {
                    let e = encoded(i, fmt);
                    let ok = e.info["ok"] == json!(true);
                    f.enc.entry(pic(i)).or_default().insert(n.into(), e.info);
                    if !ok {
                        break;
                    }
                    files.insert(o.s.clone(), Some(e.bytes));
                }
            }
            _ => {
                let i = match &cur {
                    Some(i) => i,
                    None => break,
                };
                if noisy && o.n == "Rotate" {
                    return None;
                }
                if o.noise() && o.t() != 0 {
                    if !noisy {
                        // as it would be saved
                        let b = encoded(i, EncodingFormat::png_default()).bytes;
                        let j = Image::read_from_buffer(&b).ok()?;
                        f.px.insert(pic(i), json!(bytes8(&j)));
                    }
                    noisy = true;
                    f.noisy = true;
                } else if !noisy {
                    let r = guard(|| o.apply(i)).ok()?;
                    f.app.entry(pic(i)).or_default().insert(format!("{:?}", o.cmd(dir)), json!(pic(&r)));
                    cur = Some(r);
                }
            }
        }
    }
    Some(f)
}
fn real_of(b: &[u8]) -> (String, String, Option<Image>) {
    match guard(|| Image::read_from_buffer(b).ok()) {
        Ok(Some(i)) => {
            let mut r = std::io::Cursor::new(b);
            let f = match d10_codecs::Format::from_reader(&mut r) {
                Ok(d10_codecs::Format::Jpeg) => "jpeg",
                Ok(d10_codecs::Format::Png) => "png",
                Ok(d10_codecs::Format::Gif) => "gif",
                Ok(d10_codecs::Format::Bmp) => "bmp",
                Ok(d10_codecs::Format::Ico) => "ico",
                Ok(d10_codecs::Format::WebP) => "webp",
                Err(_) => "",
            };
            (f.into(), pic(&i), Some(i))
        }
        _ => (String::new(), String::new(), None),
    }
}
/// the files there are after a run
fn seen(dir: &Path, before: &[Value], noisy: bool) -> Value {
    let mut m = Map::new();
    for e in fs::read_dir(dir).expect("scratch dir") {
        let e = e.expect("entry");
        if !e.file_type().expect("type").is_file() {
            continue;
        }
        let b = fs::read(e.path()).unwrap_or_default();
        let (name, h) = (text_of(&e.file_name()), digest(&b));
        if !noisy && before.iter().any(|x| x[0] == json!(name) && x[1] == json!(h)) {
            continue;
        }
        let (real, p, i) = real_of(&b);
        let px = if noisy { i.filter(|i| i.data().len() < 2000).map(|i| bytes8(&i)).unwrap_or_default() } else { vec![] };
        m.insert(name, json!({"h": h, "sig": sig(&b), "real": real, "pic": p, "px": px}));
    }
    Value::Object(m)
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// what `f` prints to standard output
fn printed<R>(file: &Path, f: impl FnOnce() -> R) -> (R, String) {
    let t = fs::File::create(file).expect("output file");
    std::io::stdout().flush().unwrap();
    let r;
    unsafe {
        let old = dup(1);
        assert!(old >= 0 && dup2(t.as_raw_fd(), 1) == 1);
        r = f();
        let _ = std::io::stdout().flush();
        assert!(dup2(old, 1) == 1);
        close(old);
    }
    (r, String::from_utf8_lossy(&fs::read(file).expect("output")).to_string())
}
fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
    // every line must be complete
    if v.last().map(|l| l.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}
fn run(ctx: &mut Ctx, d: &Dir, ops: &[Op]) {
    let f = match facts(ops, &d.path) {
        Some(f) => f,
        None => return,
    };
    let cmds: Vec<Value> = ops.iter().map(|o| o.record(&d.path)).collect();
    let mut e = json!({"op": "run", "cmds": cmds});
    ctx.mark(&e);
    let before = d.list_as(text_of);
    let mut q = if ctx.rng.chance(1, 2) { Queue::new() } else { Queue::default() };
    let style = ctx.rng.below(4);
    for o in ops {
        let how = if style == 3 { ctx.rng.below(3) } else { style };
        q = o.add(q, &d.path, how);
    }
    e["len"] = json!(q.len());
    e["empty"] = json!(q.is_empty());
    let (r, out) = printed(&PathBuf::from(&ctx.dir).join("stdout.txt"), || guard(|| q.run()));
    let (res, text) = match &r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(x)) => (
            match x {
                CommandError::MissingImage => "missing",
                CommandError::Decoding(_) => "open",
                CommandError::Encoding(_) => "save",
            },
            x.to_string(),
        ),
        Err(_) => ("panic", "panic".into()),
    };
    e["res"] = json!(res);
    e["text"] = json!(text);
    e["out"] = json!(lines(&out));
    finish(ctx, d, e, f, &before);
}
fn finish(ctx: &mut Ctx, d: &Dir, mut e: Value, f: Facts, before: &[Value]) {
    e["seen"] = seen(&d.path, before, f.noisy);
    e["ls"] = json!(d.list_as(text_of));
    e["app"] = maps(f.app);
    e["enc"] = maps(f.enc);
    e["px"] = Value::Object(f.px);
    ctx.emit(e);
}
/// pictures to start from, as files
struct Pool {
    files: Vec<(Vec<u8>, &'static str, String)>,
}
impl Pool {
    fn new(r: &mut Rng) -> Pool {
        let mut files = vec![];
        for k in 0..14 {
            let (w, h) = match k {
                0 => (300, 2),
                1 => (1, 1),
                k if k % 2 == 0 => (r.range(14, 20), r.range(9, 14)),
                _ => (r.range(1, 9), r.range(1, 7)),
            };
            let i = Image::new_from_buffer(picture(r, w, h));
            let f = match k % 5 {
                0 | 1 => "png",
                2 => "bmp",
                3 => "webp",
                _ => "jpeg",
            };
            let e = encoded(&i, crate::files::default_format(f));
            let p = gs(&e.info, "pic").to_string();
            files.push((e.bytes, f, p));
        }
        Pool { files }
    }
    fn write(&self, ctx: &mut Ctx, d: &Dir, name: &str, k: usize) {
        let (b, f, p) = &self.files[k];
        fs::write(d.path.join(path_of(name)), b).expect("write");
        ctx.emit(json!({"op": "write", "path": name, "h": digest(b), "sig": sig(b), "real": f, "pic": p}));
    }
    fn junk(&self, ctx: &mut Ctx, d: &Dir, name: &str) {
        let b: Vec<u8> = (0..ctx.rng.range(0, 30)).map(|_| ctx.rng.below(256) as u8 & 0x3F).collect();
        fs::write(d.path.join(path_of(name)), &b).expect("write");
        ctx.emit(json!({"op": "write", "path": name, "h": digest(&b), "sig": sig(&b), "real": "", "pic": ""}));
    }
    /// the files every session starts with
    fn start(&self, ctx: &mut Ctx, d: &Dir) {
        ctx.session();
        d.reset();
        let k = 1 + ctx.rng.below(self.files.len() as u64 - 1) as usize;
        self.write(ctx, d, "a.png", k);
        self.write(ctx, d, "w.bmp", 0);
        self.junk(ctx, d, "j.gif");
    }
}
const OPS: [&str; 16] = ["ToGray", "Invert", "Gamma", "Level", "Brightness", "Contrast", "BrightnessContrast", "Saturation", "StretchSaturation",
    "Lightness", "HueRotate", "Rotate", "RandomNoise", "SaltNPepperNoise", "RgbNoise", "Silent"];
fn some_number(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0]),
        1 => r.range(-300, 300) as f32 / 100.0,
        _ => r.range(5, 200) as f32 / 100.0,
    }
}
fn some_op(r: &mut Rng) -> Op {
    let n = *r.pick(&OPS);
    let mut o = Op { v: [some_number(r), some_number(r), some_number(r)], ..op(n) };
    match n {
        "ToGray" => o.s = r.pick(&WORDS).0.to_string(),
        "Level" => o.v = [r.range(0, 40) as f32 / 100.0, r.range(60, 100) as f32 / 100.0, r.range(50, 200) as f32 / 100.0],
        "Rotate" => {
            o.v[0] = *r.pick(&[0.0, 0.5, 1.5707964, 3.1415927, -1.0, 6.0]);
            o.filter = *r.pick(&[FilterMode::Nearest, FilterMode::Bilinear, FilterMode::Bicubic, FilterMode::Lanczos3, FilterMode::Auto]);
        }
        _ if o.noise() => o.v[0] = *r.pick(&[0.0, 0.125, 0.25, 0.5, 1.0]),
        _ => {}
    }
    o
}
const SAVES: [&str; 12] = ["b.BMP", "o.png", "a.png", "o.jpg", "o.webp", "p.png", "o.gif", "i.ico", "x.tif", "noext", "q.PNG", "w.bmp"];
fn special_path(r: &mut Rng) -> &'static str {
    *r.pick(&[DIR, FULL, "no/x.png", "m.png"])
}
fn some_queue(r: &mut Rng) -> Vec<Op> {
    let n = r.range(0, 9);
    let mut v = vec![];
    if !r.chance(1, 10) {
        v.push(Op::file("Open", r.pick(&["a.png", "a.png", "a.png", "w.bmp", "c.jpg"])));
    }
    for _ in 0..n {
        v.push(match r.below(10) {
            0 => {
                let s = match r.below(5) {
                    0 => special_path(r),
                    1 => "j.gif",
                    2 => *r.pick(&SAVES),
                    _ => *r.pick(&["a.png", "w.bmp", "c.jpg"]),
                };
                Op::file("Open", s)
            }
            1..=4 => {
                let s = if r.chance(1, 10) { special_path(r) } else { *r.pick(&SAVES) };
                Op::file("Save", s)
            }
            _ => some_op(r),
        });
        if v.last().map(|o| o.n == "Silent").unwrap_or(false) && r.chance(2, 3) {
            v.pop();
        }
    }
    v
}
fn of_case(r: &mut Rng, c: &str) -> Op {
    match c {
        "oa" => Op::file("Open", "a.png"),
        "ow" => Op::file("Open", "w.bmp"),
        "oj" => Op::file("Open", "j.gif"),
        "om" => Op::file("Open", "m.png"),
        "ob" => Op::file("Open", "b.BMP"),
        "sb" => Op::file("Save", "b.BMP"),
        "sa" => Op::file("Save", "a.png"),
        "si" => Op::file("Save", "i.ico"),
        "sx" => Op::file("Save", "x.tif"),
        "sd" => Op::file("Save", DIR),
        "su" => Op::file("Save", FULL),
        "inv" => op("Invert"),
        "gam" => loop {
            let o = some_op(r);
            if !o.noise() && o.n != "Silent" {
                return o;
            }
        },
        "nz" => Op::num(*r.pick(&["RgbNoise", "RandomNoise", "SaltNPepperNoise"]), 0.5),
        "sil" => op("Silent"),
        _ => panic!("case {}", c),
    }
}
pub fn q01(ctx: &mut Ctx) {
    let p = Pool::new(&mut ctx.rng);
    let d = Dir::new(ctx);
    for c in ctx.cases() {
        p.start(ctx, &d);
        let ops: Vec<Op> = c.as_array().unwrap().iter().map(|x| of_case(&mut ctx.rng, x.as_str().unwrap())).collect();
        run(ctx, &d, &ops);
    }
    for k in 0..ctx.n(500, 4000) {
        p.start(ctx, &d);
        let j = ctx.rng.below(p.files.len() as u64) as usize;
        p.write(ctx, &d, "c.jpg", j);
        // one operation alone, saved without loss
        if k % 2 == 0 {
            let o = some_op(&mut ctx.rng);
            run(ctx, &d, &[Op::file("Open", "a.png"), o, Op::file("Save", "o.png")]);
        }
        for _ in 0..ctx.rng.range(1, 4) {
            let q = some_queue(&mut ctx.rng);
            run(ctx, &d, &q);
        }
    }
}

// ---- command line ----
fn option(n: &str) -> Option<(&'static str, usize)> {
    Some(match n {
        "silent" => ("Silent", 0),
        "invert" => ("Invert", 0),
        "open" => ("Open", 9),
        "save" => ("Save", 9),
        "grayscale" => ("ToGray", 8),
        "gamma" => ("Gamma", 1),
        "level" => ("Level", 3),
        "brightness" => ("Brightness", 1),
        "contrast" => ("Contrast", 1),
        "brightness-contrast" => ("BrightnessContrast", 2),
        "saturation" => ("Saturation", 1),
        "stretch-saturation" => ("StretchSaturation", 1),
        "lightness" => ("Lightness", 1),
        "hue-rotate" => ("HueRotate", 1),
        "rotate" => ("Rotate", 1),
        "random-noise" => ("RandomNoise", 1),
        "salt-n-pepper-noise" => ("SaltNPepperNoise", 1),
        "rgb-noise" => ("RgbNoise", 1),
        _ => return None,
    })
}
const OPTIONS: [&str; 18] = ["silent", "invert", "open", "save", "grayscale", "gamma", "level", "brightness", "contrast", "brightness-contrast",
    "saturation", "stretch-saturation", "lightness", "hue-rotate", "rotate", "random-noise", "salt-n-pepper-noise", "rgb-noise"];
/// the meaning of an option with a parameter, if it has one
fn meaning(o: &str, p: &str) -> Option<Op> {
    let (n, k) = option(o)?;
    Some(match k {
        0 => op(n),
        9 => Op::file(n, p),
        8 => {
            WORDS.iter().find(|w| w.0 == p)?;
            Op::file(n, p)
        }
        _ => {
            let v: Vec<f32> = p.split(',').map(|x| x.parse::<f32>().ok()).collect::<Option<Vec<f32>>>()?;
            if v.len() != k {
                return None;
            }
            let mut o = op(n);
            o.v[..k].copy_from_slice(&v);
            o
        }
    })
}
fn cli(ctx: &mut Ctx, d: &Dir, bin: &Path, args: &[String]) {
    // texts and their meanings
    let mut tbl: HashMap<String, Map<String, Value>> = HashMap::new();
    let none = Path::new("");
    let put = |tbl: &mut HashMap<String, Map<String, Value>>, o: &str, p: &str| {
        if let Some(m) = meaning(o, p) {
            tbl.entry(o.to_string()).or_default().insert(p.to_string(), m.record(none));
        }
    };
    for (k, a) in args.iter().enumerate() {
        if let Some(o) = a.strip_prefix('-') {
            put(&mut tbl, o, "");
            if let Some(p) = args.get(k + 1) {
                put(&mut tbl, o, p);
            }
        } else {
            put(&mut tbl, "open", a);
            put(&mut tbl, "save", a);
        }
    }
    // the commands, as far as needed to know the pictures
    let mut ops = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let o = match a.strip_prefix('-') {
            Some(o) => match option(o) {
                None => break,
                Some((_, 0)) => meaning(o, ""),
                Some(_) => match it.next() {
                    None => break,
                    Some(p) => meaning(o, p),
                },
            },
            None => meaning(if ops.is_empty() { "open" } else { "save" }, a),
        };
        match o {
            Some(o) => ops.push(o),
            None => break,
        }
    }
    let f = match facts(&ops, &d.path) {
        Some(f) => f,
        None => return,
    };
    let recs: Vec<Value> = args.iter().map(|a| json!({"s": a, "c": a.chars().map(|c| c.to_string()).collect::<Vec<_>>()})).collect();
    let mut e = json!({"op": "cli", "args": recs});
    ctx.mark(&e);
    e["tbl"] = maps(tbl);
    let before = d.list_as(text_of);
    let o = Command::new(bin)
        .args(args.iter().map(|a| path_of(a)))
        .current_dir(&d.path)
        .stdin(Stdio::null())
        .output()
        .expect("start the command line tool");
    e["code"] = json!(o.status.code().unwrap_or(-1));
    e["err"] = json!(String::from_utf8_lossy(&o.stderr).trim());
    e["out"] = json!(lines(&String::from_utf8_lossy(&o.stdout)));
    finish(ctx, d, e, f, &before);
}
const STRAY: [char; 26] = [' ', '%', 'f', 'x', ';', ':', '"', '\'', '!', '#', '=', '/', '_', '+', '-', '(', ')', 'd', 'e', '.', ',', '\t', '°', '\u{a0}', '\u{2212}', '٣'];
/// spellings of a number, most of them right
fn number_text(r: &mut Rng) -> String {
    let v = some_number(r);
    match r.below(16) {
        14 => {
            // a number with one character too much, before, behind or within
            let s = format!("{}", v);
            let c = *r.pick(&STRAY);
            let at = r.below(s.len() as u64 + 1) as usize;
            format!("{}{}{}", &s[..at], c, &s[at..])
        }
        0 => format!("+{}", v.abs()),
        1 => format!("{:e}", v),
        2 => format!("{}.", r.range(0, 3)),
        3 => format!(".{}", r.range(0, 99)),
        4 => format!("{:?}E+0", v.abs()),
        5 => format!("00{}", v.abs()),
        6 => format!("{:.3}", v),
        _ => format!("{}", v),
    }
}
fn odd_text(r: &mut Rng) -> String {
    (*r.pick(&["", ".", "-", "+", "1e", "e5", "1.2.3", " 1", "1 ", "1f", "0x1", "1,", ",1", "1,2", "1,2,3", "1,2,3,4", "0,1,1,", "0,1,1,5", "0.5,1.5,", "0.5,1.5,2", "one", "--1", "1e+", "1_0", "½", "red", "a.png", "-invert",
        "inf", "-inf", "nan", "NaN", "Infinity", "+INF", "infinit", "1e40", "-1e-50", "1;2", "0,5", "1,x", "1,2,x", "x,1,2", "1,,2", "Red", "default ", "luma"])).to_string()
}
fn latin(s: &str) -> String {
    s.bytes().map(|b| b as char).collect()
}
fn args_of(r: &mut Rng, o: &Op) -> Vec<String> {
    let name = OPTIONS.iter().find(|n| option(n).unwrap().0 == o.n).expect("option");
    let (_, k) = option(name).unwrap();
    let mut v = vec![format!("-{}", name)];
    match k {
        0 => {}
        8 | 9 => v.push(o.s.clone()),
        _ if o.n == "Rotate" || o.noise() => v.push(format!("{}", o.v[0])),
        _ if o.n == "Level" => v.push(format!("{},{},{}", o.v[0], o.v[1], o.v[2])),
        _ => v.push((0..k).map(|_| number_text(r)).collect::<Vec<_>>().join(",")),
    }
    v
}
const NAMES: [&str; 8] = ["-dash.png", "-open", "sp ace.png", "ünï.png", "\u{80}\u{ff}.png", "-", "a.png.bmp", "-invert.png"];
fn some_args(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let q = some_queue(r);
    for (k, o) in q.iter().enumerate() {
        if o.n == "Save" && k > 0 && r.chance(1, 2) {
            v.push(o.s.clone());
        } else if o.n == "Open" && k == 0 && r.chance(3, 4) {
            v.push(o.s.clone());
        } else {
            v.extend(args_of(r, o));
        }
    }
    if r.chance(1, 4) {
        v.push("-save".into());
        let n = *r.pick(&NAMES);
        v.push(if n.contains('\u{80}') { n.to_string() } else { latin(n) });
        if r.chance(1, 2) && v.len() > 3 {
            let n = v.last().unwrap().clone();
            v.extend(["-open".to_string(), n, "-invert".into(), "z.png".into()]);
        }
    }
    match r.below(10) {
        // something wrong somewhere
        0 => {
            let k = r.below(v.len() as u64 + 1) as usize;
            v.insert(k, (*r.pick(&["--invert", "-Invert", "-", "-inver", "-invertt", "-h", "--help", "-gamma=1", "--", "-open=a.png", "invert", "- invert"])).to_string());
        }
        1 => {
            v.pop();
        }
        2 if !v.is_empty() => {
            let k = r.below(v.len() as u64) as usize;
            v[k] = latin(&odd_text(r));
        }
        3 if !v.is_empty() => {
            let k = r.below(v.len() as u64) as usize;
            v.remove(k);
        }
        4 => {
            // any option with any text
            let o = *r.pick(&OPTIONS);
            v.push(format!("-{}", o));
            let t = odd_text(r);
            if o != "rotate" {
                v.push(latin(&t));
            }
        }
        _ => {}
    }
    v
}
pub fn q02(ctx: &mut Ctx) {
    let p = Pool::new(&mut ctx.rng);
    let d = Dir::new(ctx);
    let bin = PathBuf::from(std::env::var("D10_BUILD").expect("D10_BUILD")).join("target/debug/d10");
    for c in ctx.cases() {
        p.start(ctx, &d);
        let args: Vec<String> = c.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        cli(ctx, &d, &bin, &args);
    }
    for k in 0..ctx.n(700, 6000) {
        p.start(ctx, &d);
        let j = ctx.rng.below(p.files.len() as u64) as usize;
        p.write(ctx, &d, "c.jpg", j);
        if k == 0 {
            cli(ctx, &d, &bin, &[]);
        }
        // every option alone, and every one with every odd text
        let o = OPTIONS[k as usize % OPTIONS.len()];
        let mut v = vec!["a.png".to_string()];
        if k % 2 == 0 {
            let n = option(o).unwrap().0;
            let op = loop {
                let op = match n {
                    "Open" => Op::file("Open", "w.bmp"),
                    "Save" => Op::file("Save", "p.png"),
                    _ => some_op(&mut ctx.rng),
                };
                if op.n == n {
                    break op;
                }
            };
            v.extend(args_of(&mut ctx.rng, &op));
        } else if o != "rotate" {
            v.push(format!("-{}", o));
            v.push(latin(&odd_text(&mut ctx.rng)));
        }
        v.push("o.png".into());
        cli(ctx, &d, &bin, &v);
        // a number followed (or led) by one character too much: every option, every character
        if k % 2 == 1 {
            let num: Vec<&str> = OPTIONS.iter().filter(|o| (1..=3).contains(&option(o).unwrap().1)).cloned().collect();
            let i = k as usize / 2;
            let (o, c) = (num[i % num.len()], STRAY[(i / num.len()) % STRAY.len()]);
            let n = option(o).unwrap().1;
            let at = ctx.rng.below(n as u64) as usize;
            let t: Vec<String> = (0..n).map(|j| { let v = ctx.rng.range(2, 90) as f32 / 50.0; if j != at { format!("{}", v) } else if i % 3 == 0 { format!("{}{}", c, v) } else { format!("{}{}", v, c) } }).collect();
            cli(ctx, &d, &bin, &["a.png".to_string(), format!("-{}", o), latin(&t.join(",")), "o.png".to_string()]);
        }
        // a list of too few, just enough or too many numbers
        if k % 4 == 0 {
            let o = *ctx.rng.pick(&["gamma", "contrast", "brightness-contrast", "brightness-contrast", "level", "level", "level", "lightness"]);
            let n = ctx.rng.range(0, 6);
            let t = (0..n).map(|_| if ctx.rng.chance(1, 12) { "".to_string() } else { format!("{}", ctx.rng.range(1, 99) as f32 / 50.0) }).collect::<Vec<_>>().join(",");
            cli(ctx, &d, &bin, &["a.png".to_string(), format!("-{}", o), t, "o.png".to_string()]);
        }
        for _ in 0..2 {
            let a = some_args(&mut ctx.rng);
            // turning by an endless angle is not the command line's business
            if a.windows(2).any(|w| w[0] == "-rotate" && w[1].parse::<f32>().map(|v| !(v.abs() < 100.0)).unwrap_or(false)) {
                continue;
            }
            cli(ctx, &d, &bin, &a);
        }
    }
}
