//! X04: destinations which fail.
use crate::codec::picture;
use crate::common::*;
use crate::files::{any_format, default_format, digest, FORMATS};
use d10::*;
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Write};
use std::path::PathBuf;

#[derive(Clone)]
struct Plan {
    at: i64,
    kind: String,
    chunk: i64,
    hiccup: i64,
    flush: bool,
}
struct Sink {
    plan: Plan,
    data: Vec<u8>,
    calls: i64,
    failed: bool,
    log: Vec<Value>,
}
impl Sink {
    fn note(&mut self, n: usize, taken: usize, res: &str) {
        self.calls += 1;
        if self.log.len() < 40 {
            self.log.push(json!([n, taken, res]));
        }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let p = self.plan.clone();
        let got = self.data.len() as i64;
        if p.hiccup > 0 && self.calls % p.hiccup == p.hiccup - 1 {
            self.note(b.len(), 0, "interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let again = p.kind == "once" && self.failed;
        if p.at >= 0 && got >= p.at && !again {
            self.failed = true;
            if p.kind == "zero" {
                self.note(b.len(), 0, "zero");
                return Ok(0);
            }
            self.note(b.len(), 0, "error");
            return Err(Error::new(ErrorKind::Other, "no more room"));
        }
        let mut n = b.len().min(p.chunk as usize);
        if p.at >= 0 && !again {
            n = n.min((p.at - got) as usize);
        }
        self.data.extend_from_slice(&b[..n]);
        self.note(b.len(), n, "taken");
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.plan.flush { Err(Error::new(ErrorKind::Other, "flush")) } else { Ok(()) }
    }
}
fn outcome(r: &Result<Result<(), EncodingError>, String>) -> String {
    match r {
        Ok(Ok(())) => "ok".into(),
        Ok(Err(_)) => "error".into(),
        Err(p) => format!("panic: {}", p),
    }
}
fn one(ctx: &mut Ctx, i: &Image, f: &EncodingFormat, name: &str, want: &[u8], plan: Plan) {
    let p = json!({"at": plan.at, "kind": plan.kind, "chunk": plan.chunk, "hiccup": plan.hiccup, "flush": plan.flush});
    let mut e = json!({"op": "sink", "fmt": name, "plan": p, "total": want.len(), "want": digest(want)});
    ctx.mark(&e);
    let mut s = Sink { plan, data: vec![], calls: 0, failed: false, log: vec![] };
    let r = guard(|| i.save_to_writer(&mut s, f.clone()));
    e["res"] = json!(outcome(&r));
    e["got"] = json!(s.data.len());
    e["h"] = json!(digest(&s.data));
    e["log"] = json!(s.log);
    ctx.stateless();
    ctx.emit(e);
}
#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(which: i32, l: *const RLimit) -> i32;
    fn getrlimit(which: i32, l: *mut RLimit) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
/// save to a path whose file cannot grow beyond `limit` bytes
fn file(ctx: &mut Ctx, i: &Image, f: &EncodingFormat, name: &str, want: &[u8], limit: usize) {
    let path = PathBuf::from(&ctx.dir).join("grow.tmp");
    let mut e = json!({"op": "file", "fmt": name, "limit": limit, "total": want.len(), "want": digest(want)});
    ctx.mark(&e);
    let r = unsafe {
        signal(SIGXFSZ, 1);
        let mut old = RLimit { cur: 0, max: 0 };
        assert_eq!(getrlimit(RLIMIT_FSIZE, &mut old), 0);
        assert_eq!(setrlimit(RLIMIT_FSIZE, &RLimit { cur: limit as u64, max: old.max }), 0);
        let r = guard(|| i.save_with_format(&path, f.clone()));
        assert_eq!(setrlimit(RLIMIT_FSIZE, &old), 0);
        r
    };
    let b = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    e["res"] = json!(outcome(&r));
    e["got"] = json!(b.len());
    e["h"] = json!(digest(&b));
    ctx.stateless();
    ctx.emit(e);
}
pub fn x04(ctx: &mut Ctx) {
    // a small and a large picture in every format
    let mut work: Vec<(Image, EncodingFormat, &str, Vec<u8>)> = vec![];
    for k in 0..ctx.n(6, 14) {
        for name in FORMATS {
            let (w, h) = match k % 3 {
                0 => (ctx.rng.range(1, 5), ctx.rng.range(1, 4)),
                1 => (ctx.rng.range(12, 30), ctx.rng.range(12, 30)),
                2 if k == 2 => (ctx.rng.range(60, 70), ctx.rng.range(50, 60)),
                _ => (ctx.rng.range(5, 10), ctx.rng.range(5, 9)),
            };
            let i = Image::new_from_buffer(picture(&mut ctx.rng, w, h));
            let f = if k == 0 { default_format(name) } else { any_format(&mut ctx.rng, name) };
            if let Ok(Ok(want)) = guard(|| i.save_to_buffer(f.clone())) {
                work.push((i, f, name, want));
            }
        }
    }
    for (i, f, n, want) in &work {
        let free = Plan { at: -1, kind: "error".into(), chunk: 1 << 30, hiccup: 0, flush: false };
        one(ctx, i, f, n, want, free);
    }
    let cases: Vec<Value> = ctx.cases();
    for (k, c) in cases.iter().enumerate() {
        for j in 0..6 {
            let (i, f, n, want) = &work[(k * 6 + j + k / 7) % work.len()];
            if want.len() > 3000 && !ctx.thorough && k % 8 != 0 {
                continue;
            }
            let at = gi(c, "at");
            let chunk = gi(c, "chunk");
            let plan = Plan {
                at: if at < 0 { -1 } else { at * want.len() as i64 / 1000 },
                kind: gs(c, "kind").into(),
                chunk: if chunk == 100 { 1 << 30 } else { chunk },
                hiccup: gi(c, "hiccup"),
                flush: c["flush"].as_bool().unwrap(),
            };
            one(ctx, i, f, n, want, plan);
        }
    }
    // every byte of the small files, the ends and samples of the large ones
    for (i, f, n, want) in &work {
        let t = want.len() as i64;
        let mut at: Vec<i64> = if t < 700 { (0..t).collect() } else { (0..4).chain(t - 20..t).collect() };
        if t >= 700 {
            at.extend((0..6).map(|_| ctx.rng.range(0, t - 1)));
            at.extend([4096, 8191, 8192, 8193, 16384, 32768, 65535].iter().filter(|k| **k < t));
        } else if !ctx.thorough && t > 200 {
            at.retain(|k| *k > t - 70 || *k < 20 || k % 3 == 0);
        }
        for a in at {
            let kind = *ctx.rng.pick(&["error", "zero", "once"]);
            let chunk = *ctx.rng.pick(&[1, 3, 64, 1 << 30, 1 << 30]);
            let plan = Plan { at: a, kind: kind.into(), chunk, hiccup: *ctx.rng.pick(&[0, 0, 2, 5]), flush: ctx.rng.chance(1, 8) };
            one(ctx, i, f, n, want, plan);
            if a % 4 == 0 || a > t - 14 {
                file(ctx, i, f, n, want, a as usize);
            }
        }
        file(ctx, i, f, n, want, want.len());
        file(ctx, i, f, n, want, want.len() + 1);
    }
}
