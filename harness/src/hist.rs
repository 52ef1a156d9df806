//! H01: equalize, stretch_contrast, balance.  Channels are multiples of 1/256.
//! Images whose channel values lie so close to a histogram step that rounding decides are skipped.
use crate::common::*;
use crate::orc;
use d10::*;
use serde_json::json;

const P: f64 = 1048576.0;
const EQ: [&str; 5] = ["rgb", "srgb", "saturation", "lightness", "saturation_lightness"];
const BAL: [&str; 5] = ["rgb", "srgb", "hsv", "hsl", "lch"];
const D65: [f64; 3] = [0.95047, 1.0, 1.08883];

fn scaled(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| fx(*v as f64, P)).collect()).collect()
}
fn model(m: &str, c: &Rgb) -> [f64; 3] {
    let v = [c.data[0] as f64, c.data[1] as f64, c.data[2] as f64];
    match m {
        "rgb" => v,
        "srgb" => orc::srgb(v),
        "hsv" => orc::hsv(v),
        "lch" => orc::lch(v, D65),
        _ => orc::hsl(v),
    }
}
fn treated(m: &str) -> &'static [usize] {
    match m {
        "rgb" | "srgb" => &[0, 1, 2],
        "saturation" => &[1],
        "lightness" => &[2],
        "lch" => &[0, 1],
        _ => &[1, 2],
    }
}
/// is the step of the value certain? (margins: what rounding may move it)
fn certain(k: &str, m: &str, px: &[Rgb]) -> bool {
    px.iter().all(|c| {
        if k == "stretch" {
            let s = (c.data[0] + c.data[1] + c.data[2]) as f64 * 256.0;
            return s != 256.0 && s != 512.0;
        }
        let q = model(m, c);
        treated(m).iter().all(|&i| {
            let v = q[i] * 255.0;
            if k == "equalize" {
                let f = (v - v.floor() - 0.5).abs();
                f > 0.02 || (m != "srgb" && q[i] == 0.5)
            } else {
                let f = (v - v.round()).abs();
                let exact = match m {
                    "srgb" => q[i] == 0.0,
                    "lch" => v.abs() < 0.01,
                    _ => q[i] == 0.0 || q[i] == 1.0,
                };
                f > 0.06 || exact
            }
        })
    })
}
fn run(ctx: &mut Ctx, k: &str, m: &str, w: u32, px: Vec<Rgb>, t: i64) {
    if !certain(k, m, &px) {
        return;
    }
    // a threshold exactly at a share of the pixels is decided by rounding
    let n = px.len() as i64;
    if k != "equalize" && t != 0 && (1..=n).any(|c| c * 2000 == t * n) {
        return;
    }
    let h = px.len() as u32 / w;
    let buf = PixelBuffer::new_from_raw(w, h, px);
    let mut e = json!({"op": k, "m": m, "w": w, "h": h, "px": scaled(buf.data()), "t": t});
    ctx.mark(&e);
    let r = apply(ctx, k, m, &buf, t);
    e["ok"] = json!(r.is_ok());
    if let Ok(b) = r {
        e["nw"] = json!(b.width());
        e["nh"] = json!(b.height());
        e["v"] = json!(scaled(b.data()));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn apply(ctx: &mut Ctx, k: &str, m: &str, buf: &PixelBuffer<Rgb>, t: i64) -> Result<PixelBuffer<Rgb>, String> {
    let img = Image::new_from_buffer(buf.clone());
    let free = ctx.rng.chance(1, 3);
    let th = t as f32 / 2.0;
    guard(|| match k {
        "equalize" if free => ops::equalize(buf, m.parse().unwrap()),
        "equalize" => img.equalize(m.parse().unwrap()).buffer().clone(),
        "stretch" if free => ops::stretch_contrast(buf, th),
        "stretch" => img.stretch_contrast(th).buffer().clone(),
        "balance" if free => ops::balance(buf, m.parse().unwrap(), th),
        "balance" if m == "rgb" && t % 2 == 1 => img.white_balance(th).buffer().clone(),
        _ => img.balance(m.parse().unwrap(), th).buffer().clone(),
    })
}
/// a picture that is the same few pixels over and over: only the shares of the colours count
fn tiled(ctx: &mut Ctx, k: &str, m: &str, px: Vec<Rgb>, t: i64, pixels: i64) {
    let n = px.len();
    let close = |c: i64| (c * 2000 - t * n as i64).abs() < 60;
    if !certain(k, m, &px) || (k != "equalize" && t != 0 && (1..=n as i64).any(close)) {
        return;
    }
    let across = ctx.rng.range(1, 40) as usize;
    let down = pixels as usize / (n * across) + 1;
    let mut all = Vec::with_capacity(n * across * down);
    for _ in 0..across * down {
        all.extend(px.iter().cloned());
    }
    let (bw, bh) = ((n * across) as u32, down as u32);
    let buf = PixelBuffer::new_from_raw(bw, bh, all);
    let mut e = json!({"op": k, "m": m, "w": n, "h": 1, "px": scaled(&px), "t": t, "across": across, "down": down});
    ctx.mark(&e);
    let r = apply(ctx, k, m, &buf, t);
    e["ok"] = json!(r.is_ok());
    if let Ok(b) = r {
        let same = b.width() == bw && b.height() == bh && b.data().chunks(n).all(|c| c == &b.data()[..n]);
        e["nw"] = json!(if same { n } else { 0 });
        e["nh"] = json!(1);
        e["v"] = json!(scaled(&b.data()[..n.min(b.data().len())]));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn image(r: &mut Rng, n: usize) -> Vec<Rgb> {
    let ch = |r: &mut Rng, lo: i64, hi: i64| r.range(lo, hi) as f32 / 256.0;
    let (lo, hi) = match r.below(4) {
        0 => { let a = r.range(0, 240); (a, a + r.range(0, 16)) }
        1 => { let a = r.range(0, 100); (a, r.range(a, 256)) }
        _ => (0, 256),
    };
    let few: Vec<[f32; 3]> = (0..r.range(1, 4)).map(|_| [ch(r, lo, hi), ch(r, lo, hi), ch(r, lo, hi)]).collect();
    let mode = r.below(4);
    (0..n).map(|_| {
        let d = match mode {
            0 => *r.pick(&few),
            1 => { let v = ch(r, lo, hi); [v, v, v] }
            2 if r.chance(1, 6) => *r.pick(&[[0.0; 3], [1.0; 3], [1.0, 0.0, 0.0], [0.0, 0.0, 0.0]]),
            _ => [ch(r, lo, hi), ch(r, lo, hi), ch(r, lo, hi)],
        };
        Rgb { data: [d[0], d[1], d[2], crate::imgs::alpha(r)] }
    }).collect()
}
pub fn h01(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let px: Vec<Rgb> = c["px"].as_array().unwrap().iter().map(|p| {
            let f = |i: usize| (p[i].as_i64().unwrap() as f64 / P) as f32;
            Rgb { data: [f(0), f(1), f(2), f(3)] }
        }).collect();
        let n = px.len() as u32;
        let w = if ctx.rng.chance(1, 2) { n } else { 1 };
        run(ctx, gs(&c, "k"), gs(&c, "m"), w, px, gi(&c, "t"));
    }
    for _ in 0..ctx.n(3000, 40000) {
        let big = ctx.rng.chance(1, 10);
        let (w, h) = if big && ctx.rng.chance(1, 4) { crate::imgs::big(&mut ctx.rng) } else if big { (ctx.rng.range(4, 8), ctx.rng.range(4, 8)) } else { (ctx.rng.range(1, 5), ctx.rng.range(1, 4)) };
        let px = image(&mut ctx.rng, (w * h) as usize);
        let t = match ctx.rng.below(8) {
            0 | 1 => 0,
            2 | 3 => ctx.rng.range(1, 40),
            4 => ctx.rng.range(2001, 2600),
            _ => ctx.rng.range(1, 998),
        };
        match ctx.rng.below(5) {
            0 => run(ctx, "stretch", "rgb", w as u32, px, t),
            1 | 2 => { let m = *ctx.rng.pick(&EQ); run(ctx, "equalize", m, w as u32, px, 0) }
            _ => { let m = *ctx.rng.pick(&BAL); run(ctx, "balance", m, w as u32, px, t) }
        }
    }
    // more pixels than 16 bits count
    for i in 0..ctx.n(60, 600) {
        let n = ctx.rng.range(1, 9) as usize;
        let pixels = if i % 20 == 0 { ctx.rng.range(4_000_000, 12_000_000) } else { ctx.rng.range(66_000, 200_000) };
        let px = image(&mut ctx.rng, n);
        let t = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.range(1, 998) };
        match ctx.rng.below(5) {
            0 => tiled(ctx, "stretch", "rgb", px, t, pixels),
            1 | 2 => { let m = *ctx.rng.pick(&EQ); tiled(ctx, "equalize", m, px, 0, pixels) }
            _ => { let m = *ctx.rng.pick(&BAL); tiled(ctx, "balance", m, px, t, pixels) }
        }
    }
    // more than 24 bits count: a white page
    for i in 0..ctx.n(1, 3) {
        let px = [0.25, 0.5, 0.75, 0.25, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0];
        let px = px.iter().map(|v| Rgb { data: [*v, *v, *v, 1.0] }).collect();
        tiled(ctx, "equalize", ["rgb", "lightness", "srgb"][i as usize], px, 0, 23_000_000);
    }
    // nearly everything is one colour
    for _ in 0..ctx.n(150, 2000) {
        let n = ctx.rng.range(101, 420);
        let mut px = vec![image(&mut ctx.rng, 1)[0]; n as usize];
        for _ in 0..ctx.rng.range(1, 3) {
            let at = ctx.rng.below(n as u64) as usize;
            px[at] = image(&mut ctx.rng, 1)[0];
        }
        let w = if ctx.rng.chance(1, 2) { n as u32 } else { 1 };
        let t = ctx.rng.range(0, 20);
        match ctx.rng.below(3) {
            0 => run(ctx, "stretch", "rgb", w, px, t),
            1 => { let m = *ctx.rng.pick(&EQ); run(ctx, "equalize", m, w, px, 0) }
            _ => { let m = *ctx.rng.pick(&BAL); run(ctx, "balance", m, w, px, t) }
        }
    }
}
