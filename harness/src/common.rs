//! Shared parts of all drivers: random numbers, trace files, labels, panic capture.
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        // far apart in the generator's sequence
        let mut r = Rng(seed ^ 0x1234_5678_9ABC_DEF1);
        let s = r.next();
        Rng(s ^ r.next().rotate_left(32) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub dir: String,
    shards: Vec<BufWriter<File>>,
    cur: usize,
    next: usize,
    cases: Option<String>,
    pub sessions: u64,
    pub events: u64,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, dir: &str, shards: usize, cases: Option<String>) -> Ctx {
        let shards = (0..shards)
            .map(|i| BufWriter::with_capacity(1 << 16, File::create(format!("{}/s{}.ndjson", dir, i)).expect("trace file")))
            .collect();
        Ctx { rng: Rng::new(seed), seed, thorough, dir: dir.to_string(), shards, cur: 0, next: 0, cases, sessions: 0, events: 0 }
    }
    /// number of random sessions for this tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough { thorough } else { quick }
    }
    /// start a new session (next shard); writes a reset event
    pub fn session(&mut self) {
        self.stateless();
        self.emit(json!({"op": "reset"}));
    }
    /// next events may go to another shard (no reset event)
    pub fn stateless(&mut self) {
        self.cur = self.next;
        self.next = (self.next + 1) % self.shards.len();
        self.sessions += 1;
    }
    pub fn emit(&mut self, v: Value) {
        let w = &mut self.shards[self.cur];
        serde_json::to_writer(&mut *w, &v).unwrap();
        w.write_all(b"\n").unwrap();
        self.events += 1;
    }
    /// remember what is running, in case the whole process dies or hangs
    pub fn mark(&self, v: &Value) {
        let _ = std::fs::write(format!("{}/current", self.dir), v.to_string());
    }
    pub fn cases(&self) -> Vec<Value> {
        match &self.cases {
            None => vec![],
            Some(p) => BufReader::new(File::open(p).expect("case file"))
                .lines()
                .map(|l| serde_json::from_str(&l.unwrap()).expect("case json"))
                .collect(),
        }
    }
    pub fn finish(&mut self) {
        for s in &mut self.shards {
            s.flush().unwrap();
        }
        let _ = std::fs::remove_file(format!("{}/current", self.dir));
        println!("{}", json!({"sessions": self.sessions, "events": self.events}));
    }
}

/// Run an operation of the code under test; Err(message) if it panicked.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Clamp to what TLC can hold.
pub fn i32c(v: i64) -> i64 {
    v.clamp(-2147483647, 2147483647)
}

/// f32/f64 to fixed point; NaN and infinities become 2000000001/2/3, far values saturate.
pub fn fx(v: f64, scale: f64) -> i64 {
    if v.is_nan() {
        2_000_000_001
    } else if v == f64::INFINITY {
        2_000_000_002
    } else if v == f64::NEG_INFINITY {
        -2_000_000_002
    } else {
        (v * scale).round().clamp(-1.9e9, 1.9e9) as i64
    }
}
/// exact integer multiple of 1/scale, or 1999999999 if it is not one
pub fn exact(v: f32, scale: f64) -> i64 {
    let s = v as f64 * scale;
    if s.fract() == 0.0 && s.abs() < 1.0e9 { s as i64 } else { 1_999_999_999 }
}

pub fn gi(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("no int {} in {}", k, v))
}
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("no string {} in {}", k, v))
}
