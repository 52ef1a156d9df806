//! B01, B02: PixelBuffer/Image as a mutable grid; calls as JSON, real effects as events.
use crate::common::*;
use crate::label::*;
use d10::*;
use serde_json::{json, Value};
use std::cell::RefCell;

type Visits = RefCell<Vec<(i64, i64, i64)>>; // x, y (or -1), label seen

/// The label an edit writes at the i-th visit (0-based) when it sees label v.
pub fn new_label(v: i64, i: i64) -> i64 {
    (v * 3 + i * 7 + 5) % 997 + 1
}

trait Slot {
    fn st(&self) -> Value;
    fn labels(&self) -> Vec<i64>;
    fn clone_box(&self) -> Box<dyn Slot>;
    fn dims(&self) -> (u32, u32);
    fn get(&self, x: u32, y: u32) -> i64;
    fn put(&mut self, x: u32, y: u32, k: i64);
    fn opt(&self, x: i32, y: i32) -> Option<i64>;
    fn clamped(&self, x: i32, y: i32) -> i64;
    fn isin(&self, x: i32, y: i32) -> bool;
    fn empty(&self) -> bool;
    fn dataput(&mut self, i: usize, k: i64);
    fn enumerate(&self) -> Vec<Vec<i64>>;
    fn enumput(&mut self, x: i64, y: i64, k: i64);
    fn same(&self) -> bool; // redundant views agree
    /// in-place edit; Err(code) is the closure's error
    fn edit(&mut self, kind: &str, fail: i64, vis: &Visits) -> Result<(), i64>;
    fn map(&self, kind: &str, fail: i64, vis: &Visits) -> Result<Box<dyn Slot>, i64>;
}

fn visit<T: Color>(vis: &Visits, x: i64, y: i64, c: &T) -> (i64, i64) {
    let k = lab(c);
    let i = vis.borrow().len() as i64;
    vis.borrow_mut().push((x, y, k));
    (i, k)
}

macro_rules! slot_impl {
    ($t:ty, $c:ty, [$($g:tt)*], $map_r:expr) => {
        impl $($g)* Slot for $t {
            fn st(&self) -> Value {
                json!({"w": self.width(), "h": self.height(), "px": px(self.data())})
            }
            fn labels(&self) -> Vec<i64> { px(self.data()) }
            fn clone_box(&self) -> Box<dyn Slot> { Box::new(self.clone()) }
            fn dims(&self) -> (u32, u32) { (self.width(), self.height()) }
            fn get(&self, x: u32, y: u32) -> i64 { lab(self.get_pixel(x, y)) }
            fn put(&mut self, x: u32, y: u32, k: i64) { self.put_pixel(x, y, col(k)) }
            fn opt(&self, x: i32, y: i32) -> Option<i64> { self.get_pixel_optional(x, y).map(|c| lab(c)) }
            fn clamped(&self, x: i32, y: i32) -> i64 { lab(self.get_pixel_clamped(x, y)) }
            fn isin(&self, x: i32, y: i32) -> bool { self.is_in_image(x, y) }
            fn empty(&self) -> bool { self.is_empty() }
            fn dataput(&mut self, i: usize, k: i64) { self.data_mut()[i] = col(k) }
            fn enumerate(&self) -> Vec<Vec<i64>> {
                buf_of!(self, enumerate).map(|(x, y, c)| vec![x as i64, y as i64, lab(&c)]).collect()
            }
            fn enumput(&mut self, x: i64, y: i64, k: i64) {
                for (a, b, c) in buf_of!(self, enumerate_mut) {
                    if a as i64 == x && b as i64 == y { *c = col(k) }
                }
            }
            fn same(&self) -> bool { true }
            fn edit(&mut self, kind: &str, fail: i64, vis: &Visits) -> Result<(), i64> {
                match kind {
                    "mod" => { self.mod_colors(|c| { let (i, k) = visit(vis, -1, -1, c); col(new_label(k, i)) }); Ok(()) }
                    "mod_e" => { self.mod_colors_enumerated(|x, y, c| { let (i, k) = visit(vis, x as i64, y as i64, c); col(new_label(k, i)) }); Ok(()) }
                    "try_mod" => self.try_mod_colors(|c| { let (i, k) = visit(vis, -1, -1, c); if i == fail { Err(100 + i) } else { Ok(col(new_label(k, i))) } }),
                    "try_mod_e" => self.try_mod_colors_enumerated(|x, y, c| { let (i, k) = visit(vis, x as i64, y as i64, c); if i == fail { Err(100 + i) } else { Ok(col(new_label(k, i))) } }),
                    _ => panic!("kind {}", kind),
                }
            }
            fn map(&self, kind: &str, fail: i64, vis: &Visits) -> Result<Box<dyn Slot>, i64> {
                Ok(match kind {
                    "map" => Box::new(self.map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); col::<$c>(new_label(k, i)) })) as Box<dyn Slot>,
                    "map_t" => $map_r(self, -1, vis)?,
                    "try_map_t" => $map_r(self, fail, vis)?,
                    "map_e" => Box::new(self.map_colors_enumerated(|x, y, c| { let (i, k) = visit(vis, x as i64, y as i64, c); col(new_label(k, i)) })),
                    "try_map" => Box::new(self.try_map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); if i == fail { Err(100 + i) } else { Ok(col::<$c>(new_label(k, i))) } })?),
                    "try_map_e" => Box::new(self.try_map_colors_enumerated(|x, y, c| { let (i, k) = visit(vis, x as i64, y as i64, c); if i == fail { Err(100 + i) } else { Ok(col(new_label(k, i))) } })?),
                    _ => panic!("kind {}", kind),
                })
            }
        }
    };
}

macro_rules! buf_of { ($s:expr, $m:ident) => { $s.$m() }; }
slot_impl!(PixelBuffer<T>, T, [<T: Color + 'static>], |s: &PixelBuffer<T>, fail: i64, vis: &Visits| -> Result<Box<dyn Slot>, i64> {
    // map to another colour type
    if fail < 0 {
        Ok(Box::new(s.map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); col::<Yuv>(new_label(k, i)) })))
    } else {
        Ok(Box::new(s.try_map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); if i == fail { Err(100 + i) } else { Ok(col::<Hsl>(new_label(k, i))) } })?))
    }
});

mod img {
    use super::*;
    macro_rules! buf_of {
        ($s:expr, enumerate) => { $s.buffer().enumerate() };
        ($s:expr, enumerate_mut) => { $s.buffer_mut().enumerate_mut() };
    }
    slot_impl!(Image, Rgb, [], |s: &Image, fail: i64, vis: &Visits| -> Result<Box<dyn Slot>, i64> {
        if fail < 0 {
            Ok(Box::new(s.buffer().map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); col::<Xyz>(new_label(k, i)) })))
        } else {
            Ok(Box::new(s.buffer().try_map_colors(|c| { let (i, k) = visit(vis, -1, -1, c); if i == fail { Err(100 + i) } else { Ok(col::<Srgb>(new_label(k, i))) } })?))
        }
    });
}

fn make<T: Color + 'static>(c: &Value, vis: &Visits) -> Result<Box<dyn Slot>, i64> {
    let (w, h) = (gi(c, "w") as u32, gi(c, "h") as u32);
    let p: Vec<i64> = c["px"].as_array().map(|a| a.iter().map(|v| v.as_i64().unwrap()).collect()).unwrap_or_default();
    let fail = c["fail"].as_i64().unwrap_or(-1);
    let at = |x: u32, y: u32| -> T {
        let i = vis.borrow().len() as i64;
        vis.borrow_mut().push((x as i64, y as i64, -1));
        col(new_label(0, i))
    };
    Ok(match gs(c, "mk") {
        "default" => Box::new(PixelBuffer::<T>::new(w, h)) as Box<dyn Slot>,
        "color" => Box::new(PixelBuffer::<T>::new_with_color(w, h, col(p[0]))),
        "raw" => Box::new(PixelBuffer::<T>::new_from_raw(w, h, p.iter().map(|k| col(*k)).collect())),
        "func" => Box::new(PixelBuffer::<T>::new_from_func(w, h, at)),
        "tryfunc" => Box::new(PixelBuffer::<T>::try_new_from_func(w, h, |x, y| {
            let c = at(x, y);
            let i = vis.borrow().len() as i64 - 1;
            if i == fail { Err(100 + i) } else { Ok(c) }
        })?),
        m => panic!("mk {}", m),
    })
}
fn make_img(c: &Value) -> Result<Box<dyn Slot>, i64> {
    let (w, h) = (gi(c, "w") as u32, gi(c, "h") as u32);
    let p: Vec<i64> = c["px"].as_array().map(|a| a.iter().map(|v| v.as_i64().unwrap()).collect()).unwrap_or_default();
    Ok(match gs(c, "mk") {
        "default" => Box::new(Image::new(w, h)) as Box<dyn Slot>,
        "color" => Box::new(Image::new_with_color(w, h, col(p[0]))),
        "raw" => match p.len() % 4 {
            0 => Box::new(Image::new_from_raw(w, h, p.iter().map(|k| col(*k)).collect())),
            1 => Box::new(Image::new_from_raw_with_meta(&Image::new(1, 1), w, h, p.iter().map(|k| col(*k)).collect())),
            2 => Box::new(Image::new_from_buffer(PixelBuffer::new_from_raw(w, h, p.iter().map(|k| col(*k)).collect()))),
            _ => Box::new(Image::new_from_buffer_with_meta(&Image::new(1, 1), PixelBuffer::new_from_raw(w, h, p.iter().map(|k| col(*k)).collect()))),
        },
        m => panic!("mk {}", m),
    })
}
pub const TYPES: [&str; 9] = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch", "img"];

struct World {
    slots: Vec<Option<Box<dyn Slot>>>,
}

fn u32arg(v: &Value, k: &str) -> u32 {
    gi(v, k).clamp(0, u32::MAX as i64) as u32
}
fn i32arg(v: &Value, k: &str) -> i32 {
    gi(v, k).clamp(i32::MIN as i64, i32::MAX as i64) as i32
}

impl World {
    fn new() -> World {
        World { slots: vec![None, None, None] }
    }
    /// run one call on the real code, return the event
    fn exec(&mut self, c: &Value) -> Value {
        let mut e = c.clone();
        for k in ["w", "h", "x", "y"] {
            if let Some(v) = c[k].as_i64() {
                e[k] = json!(i32c(v));
            }
        }
        let s = gi(c, "s") as usize;
        let op = gs(c, "op").to_string();
        let vis: Visits = RefCell::new(vec![]);
        let r: Result<Value, String> = match op.as_str() {
            "new" => {
                let r = guard(|| match gs(c, "t") {
                    "rgb" => make::<Rgb>(c, &vis),
                    "srgb" => make::<Srgb>(c, &vis),
                    "hsl" => make::<Hsl>(c, &vis),
                    "hsv" => make::<Hsv>(c, &vis),
                    "yuv" => make::<Yuv>(c, &vis),
                    "xyz" => make::<Xyz>(c, &vis),
                    "lab" => make::<DefaultLab>(c, &vis),
                    "lch" => make::<Lch>(c, &vis),
                    "img" => make_img(c),
                    t => panic!("type {}", t),
                });
                match r {
                    Err(p) => Err(p),
                    Ok(Err(code)) => Ok(json!(code)),
                    Ok(Ok(b)) => {
                        self.slots[s] = Some(b);
                        Ok(json!(0))
                    }
                }
            }
            "validsize" => guard(|| json!(is_valid_buffer_size(gi(c, "w") as u32, gi(c, "h") as u32))),
            "clone" => {
                let b = self.slots[s].as_ref().unwrap().clone_box();
                self.slots[gi(c, "d") as usize] = Some(b);
                Ok(json!(0))
            }
            "map" => {
                let b = self.slots[s].as_ref().unwrap();
                match guard(|| b.map(gs(c, "k"), gi(c, "fail"), &vis)) {
                    Err(p) => Err(p),
                    Ok(Err(code)) => Ok(json!(code)),
                    Ok(Ok(b)) => {
                        self.slots[gi(c, "d") as usize] = Some(b);
                        Ok(json!(0))
                    }
                }
            }
            _ => {
                let b = self.slots[s].as_mut().unwrap();
                guard(|| match op.as_str() {
                    "get" => json!(b.get(u32arg(c, "x"), u32arg(c, "y"))),
                    "put" => {
                        b.put(u32arg(c, "x"), u32arg(c, "y"), gi(c, "k"));
                        json!(0)
                    }
                    "opt" => json!(b.opt(i32arg(c, "x"), i32arg(c, "y")).unwrap_or(-9)),
                    "clamped" => json!(b.clamped(i32arg(c, "x"), i32arg(c, "y"))),
                    "isin" => json!(b.isin(i32arg(c, "x"), i32arg(c, "y"))),
                    "empty" => json!(b.empty()),
                    "dataput" => {
                        b.dataput(gi(c, "i") as usize, gi(c, "k"));
                        json!(0)
                    }
                    "enum" => json!(b.enumerate()),
                    "enumput" => {
                        b.enumput(gi(c, "x"), gi(c, "y"), gi(c, "k"));
                        json!(0)
                    }
                    "edit" => json!(b.edit(gs(c, "k"), gi(c, "fail"), &vis).err().unwrap_or(0)),
                    o => panic!("op {}", o),
                })
            }
        };
        match r {
            Ok(v) => {
                e["ok"] = json!(true);
                e["v"] = v;
            }
            Err(_) => {
                e["ok"] = json!(false);
            }
        }
        if matches!(op.as_str(), "new" | "edit" | "map") {
            let v = vis.borrow();
            e["vis"] = json!(v.iter().map(|(x, y, k)| vec![*x, *y, *k]).collect::<Vec<_>>());
        }
        // projection of the whole state
        e["st"] = json!(self.slots.iter().map(|s| s.as_ref().map_or(json!({"w": -1, "h": -1, "px": []}), |s| s.st())).collect::<Vec<_>>());
        e
    }
}

fn probe(ctx: &mut Ctx, w: &mut World, s: usize) {
    let Some((bw, bh)) = w.slots[s].as_ref().map(|b| b.dims()) else { return };
    let (bw, bh) = (bw as i64, bh as i64);
    for y in -2..=bh + 1 {
        for x in -2..=bw + 1 {
            for op in ["opt", "clamped", "isin"] {
                ctx.emit(w.exec(&json!({"op": op, "s": s, "x": x, "y": y})));
            }
            if x >= 0 && y >= 0 {
                ctx.emit(w.exec(&json!({"op": "get", "s": s, "x": x, "y": y})));
            }
        }
    }
    ctx.emit(w.exec(&json!({"op": "enum", "s": s})));
    ctx.emit(w.exec(&json!({"op": "empty", "s": s})));
}

fn run_session(ctx: &mut Ctx, calls: &[Value], probes: bool) {
    ctx.session();
    let mut w = World::new();
    for c in calls {
        let bad = c["op"] != "new" && c["op"] != "validsize" && w.slots[gi(c, "s") as usize].is_none();
        if bad {
            continue;
        }
        ctx.mark(c);
        let e = w.exec(c);
        ctx.emit(e);
    }
    if probes {
        for s in 0..w.slots.len() {
            probe(ctx, &mut w, s);
        }
    }
}

const HUGE: [i64; 14] = [4294967295, 4294967294, 2147483648, 2147483647, 1073741824, 1073741823, 536870912, 65536, 65535, 46341, 32768, 32767, 2, 1];

fn new_call(rng: &mut Rng, s: i64, maxdim: i64) -> Value {
    let t = *rng.pick(&TYPES);
    let (w, h) = match rng.below(20) {
        0 => (0, 0),
        1 => (0, rng.range(1, 5)),
        2 => (rng.range(1, 5), 0),
        _ => (rng.range(1, maxdim), rng.range(1, maxdim)),
    };
    let mk = if t == "img" { *rng.pick(&["default", "color", "raw"]) } else { *rng.pick(&["default", "color", "raw", "func", "tryfunc"]) };
    let mut c = json!({"op": "new", "s": s, "t": t, "w": w, "h": h, "mk": mk});
    match mk {
        "color" => c["px"] = json!([rng.range(0, 900)]),
        "raw" => {
            let mut n = w * h;
            if rng.chance(1, 8) {
                n = (n + rng.range(-2, 2)).max(0);
            }
            c["px"] = json!((0..n).map(|_| rng.range(0, 900)).collect::<Vec<_>>());
        }
        "tryfunc" => c["fail"] = json!(rng.range(-1, w * h)),
        _ => {}
    }
    c
}
/// creations whose size is at or beyond the limits; nothing big is ever allocated
fn huge_call(rng: &mut Rng, s: i64) -> Value {
    let (w, h) = (*rng.pick(&HUGE), *rng.pick(&HUGE));
    if rng.chance(1, 2) {
        return json!({"op": "validsize", "s": s, "w": w, "h": h});
    }
    let t = *rng.pick(&TYPES[..8]);
    if rng.chance(1, 3) {
        // wrong length or invalid size
        return json!({"op": "new", "s": s, "t": t, "w": w, "h": h, "mk": "raw", "px": [1, 2]});
    }
    json!({"op": "new", "s": s, "t": t, "w": w, "h": h, "mk": "tryfunc", "fail": 0})
}

fn coord(rng: &mut Rng, n: i64, signed: bool) -> i64 {
    match rng.below(12) {
        0 => n,
        1 => n + rng.range(0, 5),
        2 if signed => -rng.range(1, 6),
        3 if signed => *rng.pick(&[i32::MIN as i64 + 1, -2147483647, -65536, 65536, 2147483647, 2147483646]),
        3 => *rng.pick(&[4294967295, 2147483647, 65536]),
        _ => rng.range(0, (n - 1).max(0)),
    }
}

fn access_call(rng: &mut Rng, w: &World) -> Value {
    let s = rng.below(3) as usize;
    let (bw, bh) = w.slots[s].as_ref().map(|b| b.dims()).unwrap_or((1, 1));
    let (bw, bh) = (bw as i64, bh as i64);
    match rng.below(12) {
        0 => json!({"op": "get", "s": s, "x": coord(rng, bw, false), "y": coord(rng, bh, false)}),
        1 => json!({"op": "opt", "s": s, "x": coord(rng, bw, true), "y": coord(rng, bh, true)}),
        2 => json!({"op": "clamped", "s": s, "x": coord(rng, bw, true), "y": coord(rng, bh, true)}),
        3 => json!({"op": "isin", "s": s, "x": coord(rng, bw, true), "y": coord(rng, bh, true)}),
        4 => json!({"op": "enum", "s": s}),
        5 if bw * bh > 0 => json!({"op": "dataput", "s": s, "i": rng.range(0, bw * bh - 1), "k": rng.range(0, 990)}),
        6 => json!({"op": "enumput", "s": s, "x": coord(rng, bw, false), "y": coord(rng, bh, false), "k": rng.range(0, 990)}),
        7 => json!({"op": "clone", "s": s, "d": rng.below(3)}),
        _ => json!({"op": "put", "s": s, "x": coord(rng, bw, false), "y": coord(rng, bh, false), "k": rng.range(0, 990)}),
    }
}

/// A buffer too large for the trace; the content is a formula, positions are chosen (TrBuffer.WideOk).
fn wide(ctx: &mut Ctx, i: usize, k: &str) {
    let (w, h) = wide_dims(&mut ctx.rng, i);
    let n = w * h;
    let mut world = World::new();
    let t = *ctx.rng.pick(&TYPES);
    let mk = if k == "make" || (t != "img" && ctx.rng.chance(1, 4)) { *ctx.rng.pick(&["func", "tryfunc"]) } else { "raw" };
    let t = if k == "make" && t == "img" { "yuv" } else { t };
    let mut c = json!({"op": "new", "s": 0, "t": t, "w": w, "h": h, "mk": mk, "fail": -1});
    if mk == "raw" { c["px"] = json!((0..n).map(wide_label).collect::<Vec<_>>()) }
    let pos: Vec<(i64, i64)> = (0..25).map(|_| (wide_at(&mut ctx.rng, w), wide_at(&mut ctx.rng, h))).collect();
    let fail = if k.starts_with("try") && ctx.rng.chance(2, 3) { let (x, y) = pos[0]; y * w + x } else { -1 };
    let maps = MAPS.contains(&k);
    let mut e = json!({"op": "wide", "w": w, "h": h, "t": t, "mk": mk, "k": k, "fail": fail, "maps": maps});
    ctx.session();
    ctx.mark(&e);
    let vis: Visits = RefCell::new(vec![]);
    let r = guard(|| {
        let made = match t {
            "img" => make_img(&c), "rgb" => make::<Rgb>(&c, &vis), "srgb" => make::<Srgb>(&c, &vis), "hsl" => make::<Hsl>(&c, &vis), "hsv" => make::<Hsv>(&c, &vis),
            "yuv" => make::<Yuv>(&c, &vis), "xyz" => make::<Xyz>(&c, &vis), "lab" => make::<DefaultLab>(&c, &vis), _ => make::<Lch>(&c, &vis),
        };
        world.slots[0] = Some(made.ok().expect("made"));
        if k != "make" { vis.borrow_mut().clear() }
        let before: Vec<i64> = world.slots[0].as_ref().unwrap().labels();
        let b = world.slots[0].as_mut().unwrap();
        let mut q = json!({});
        match k {
            "make" => {}
            "enum" => { let v = b.enumerate(); *vis.borrow_mut() = v.iter().map(|v| (v[0], v[1], v[2])).collect(); }
            "read" => {
                let mut at = vec![];
                for (x, y) in &pos {
                    at.push(json!(["get", x, y, b.get(*x as u32, *y as u32)]));
                    let (x, y) = (if ctx.rng.chance(1, 5) { *ctx.rng.pick(&[-1, -65536, w, w + 65536, 2147483647]) } else { *x }, if ctx.rng.chance(1, 5) { *ctx.rng.pick(&[-1, -65535, h, h + 65536, 2147483647]) } else { *y });
                    at.push(json!(["opt", x, y, b.opt(x as i32, y as i32).unwrap_or(-9)]));
                    at.push(json!(["clamped", x, y, b.clamped(x as i32, y as i32)]));
                    at.push(json!(["isin", x, y, b.isin(x as i32, y as i32) as i64]));
                    if x >= w && y >= 0 && y < h { at.push(json!(["get", x, y, guard(|| b.get(x as u32, y as u32)).unwrap_or(-9)])); }
                }
                q["at"] = json!(at);
            }
            "put" | "enumput" | "dataput" => {
                let (x, y) = pos[0];
                match k { "put" => b.put(x as u32, y as u32, 990), "enumput" => b.enumput(x, y, 990), _ => b.dataput((y * w + x) as usize, 990) }
                q["x"] = json!(x);
                q["y"] = json!(y);
                q["l"] = json!(990);
                q["px"] = json!(b.labels().iter().enumerate().filter(|(i, v)| **v != before[*i]).map(|(i, v)| vec![i as i64, *v]).take(9).collect::<Vec<_>>());
            }
            _ if maps => { if let Ok(m) = b.map(k, fail, &vis) { world.slots[0] = Some(m) } }
            _ => { let _ = b.edit(k, fail, &vis); }
        }
        let b = world.slots[0].as_ref().unwrap();
        let l = b.labels();
        let at: Vec<i64> = pos.iter().map(|(x, y)| y * w + x).chain([0, n - 1]).chain(if fail >= 0 { vec![fail, (fail - 1).max(0), (fail + 1).min(n - 1)] } else { vec![] }).collect();
        if q["px"].is_null() { q["px"] = json!(at.iter().map(|i| vec![*i, l[*i as usize]]).collect::<Vec<_>>()) }
        let v = vis.borrow();
        q["n"] = json!(v.len());
        q["vis"] = json!(at.iter().filter(|i| (**i as usize) < v.len()).map(|i| { let (x, y, k) = v[*i as usize]; vec![*i, x, y, k] }).collect::<Vec<_>>());
        q["nw"] = json!(b.dims().0);
        q["nh"] = json!(b.dims().1);
        q["len"] = json!(l.len());
        q
    });
    match r {
        Ok(q) => { e["ok"] = json!(true); for (k, x) in q.as_object().unwrap() { e[k] = x.clone() } }
        Err(_) => e["ok"] = json!(false),
    }
    ctx.emit(e);
}
pub fn b01(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let calls = c.as_array().unwrap().clone();
        run_session(ctx, &calls, true);
    }
    for i in 0..ctx.n(400, 6000) {
        ctx.session();
        let mut w = World::new();
        let maxdim = if i % 5 == 0 { 9 } else { 4 };
        for s in 0..3 {
            let c = new_call(&mut ctx.rng, s, maxdim);
            ctx.mark(&c);
            ctx.emit(w.exec(&c));
        }
        for _ in 0..30 {
            let c = match ctx.rng.below(25) {
                0 => { let s = ctx.rng.range(0, 2); new_call(&mut ctx.rng, s, maxdim) }
                1 | 2 => { let s = ctx.rng.range(0, 2); huge_call(&mut ctx.rng, s) }
                _ => access_call(&mut ctx.rng, &w),
            };
            if c["op"] != "new" && c["op"] != "validsize" && w.slots[gi(&c, "s") as usize].is_none() {
                continue;
            }
            ctx.mark(&c);
            ctx.emit(w.exec(&c));
        }
        if ctx.rng.chance(1, 4) {
            for s in 0..3 {
                probe(ctx, &mut w, s);
            }
        }
    }
    for k in 0..ctx.n(54, 500) as usize {
        wide(ctx, k / 6, ["make", "enum", "read", "put", "enumput", "dataput"][k % 6]);
    }
}

const EDITS: [&str; 4] = ["mod", "mod_e", "try_mod", "try_mod_e"];
const MAPS: [&str; 6] = ["map", "map_t", "map_e", "try_map", "try_map_t", "try_map_e"];

pub fn b02(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let calls = c.as_array().unwrap().clone();
        run_session(ctx, &calls, false);
    }
    for i in 0..ctx.n(800, 12000) {
        ctx.session();
        let mut w = World::new();
        let maxdim = if i % 5 == 0 { 12 } else { 5 };
        for s in 0..2 {
            let c = new_call(&mut ctx.rng, s, maxdim);
            ctx.mark(&c);
            ctx.emit(w.exec(&c));
        }
        for _ in 0..12 {
            let s = ctx.rng.below(2) as usize;
            let Some((bw, bh)) = w.slots[s].as_ref().map(|b| b.dims()) else { continue };
            let n = bw as i64 * bh as i64;
            let fail = ctx.rng.range(-1, n);
            let c = if ctx.rng.chance(1, 2) {
                let k = *ctx.rng.pick(&EDITS);
                json!({"op": "edit", "s": s, "k": k, "fail": if k.starts_with("try") { fail } else { -1 }})
            } else {
                let k = *ctx.rng.pick(&MAPS);
                json!({"op": "map", "s": s, "d": ctx.rng.below(3), "k": k, "fail": if k.starts_with("try") { fail } else { -1 }})
            };
            ctx.mark(&c);
            ctx.emit(w.exec(&c));
        }
    }
    for k in 0..ctx.n(60, 400) as usize {
        wide(ctx, k / 10, if k % 10 < 4 { EDITS[k % 10] } else { MAPS[k % 10 - 4] });
    }
}
