//! N01: the four kinds of noise.
use crate::common::*;
use d10::*;
use serde_json::json;

const P: f64 = 1048576.0;
const KINDS: [&str; 4] = ["salt_n_pepper", "rgb", "random", "gaussian"];
fn scaled(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| fx(*v as f64, P)).collect()).collect()
}
fn noise(img: &Image, k: &str, t: f32, free: bool) -> Image {
    let b = img.buffer();
    match (k, free) {
        ("salt_n_pepper", true) => Image::new_from_buffer(ops::salt_n_pepper_noise(b, t)),
        ("salt_n_pepper", _) => img.salt_n_pepper_noise(t),
        ("rgb", true) => Image::new_from_buffer(ops::rgb_noise(b, t)),
        ("rgb", _) => img.rgb_noise(t),
        ("random", true) => Image::new_from_buffer(ops::random_noise(b, t)),
        ("random", _) => img.random_noise(t),
        (_, true) => Image::new_from_buffer(ops::gaussian_noise(b, t)),
        _ => img.gaussian_noise(t),
    }
}
fn add(img: &mut Image, k: &str, t: f32, free: bool) {
    if free {
        let mut b = img.buffer().clone();
        match k {
            "salt_n_pepper" => ops::add_salt_n_pepper_noise(&mut b, t),
            "rgb" => ops::add_rgb_noise(&mut b, t),
            "random" => ops::add_random_noise(&mut b, t),
            _ => ops::add_gaussian_noise(&mut b, t),
        }
        *img = Image::new_from_buffer(b);
    } else {
        match k {
            "salt_n_pepper" => img.add_salt_n_pepper_noise(t),
            "rgb" => img.add_rgb_noise(t),
            "random" => img.add_random_noise(t),
            _ => img.add_gaussian_noise(t),
        }
    }
}
fn share(r: &mut Rng, k: &str) -> i64 {
    let max = if k == "salt_n_pepper" { 32 } else { 64 };
    match r.below(6) {
        0 => 0,
        1 => max,
        2 => 64,
        3 => 1,
        _ => r.range(0, max),
    }
}
fn session(ctx: &mut Ctx) {
    let (w, h) = if ctx.rng.chance(1, 15) { crate::imgs::big(&mut ctx.rng) } else { (ctx.rng.range(1, 9), ctx.rng.range(1, 9)) };
    let mut img = Image::new_from_buffer(crate::imgs::image(&mut ctx.rng, w, h));
    ctx.session();
    ctx.emit(json!({"op": "start", "w": w, "h": h, "px": scaled(img.buffer().data())}));
    for _ in 0..ctx.rng.range(1, 6) {
        let k = *ctx.rng.pick(&KINDS);
        let t = share(&mut ctx.rng, k);
        let free = ctx.rng.chance(1, 2);
        let q = t as f32 / 64.0;
        let mut e = json!({"op": "noise", "k": k, "t": t, "free": free});
        ctx.mark(&e);
        if ctx.rng.chance(1, 2) {
            let r = guard(|| noise(&img, k, q, free));
            e["ok"] = json!(r.is_ok());
            if let Ok(v) = r {
                e["nw"] = json!(v.width());
                e["nh"] = json!(v.height());
                e["v"] = json!(scaled(v.buffer().data()));
            }
        } else {
            e["op"] = json!("add_noise");
            let r = guard(|| add(&mut img, k, q, free));
            e["ok"] = json!(r.is_ok());
        }
        e["w"] = json!(img.width());
        e["h"] = json!(img.height());
        e["px"] = json!(scaled(img.buffer().data()));
        ctx.emit(e);
    }
}
/// counts over a large image of one colour
fn stat(ctx: &mut Ctx, k: &str, t: i64, inplace: bool, free: bool) {
    let (w, h) = (128usize, 128usize);
    let n = w * h;
    let orig = Rgb::new(0.5, 0.5, 0.5);
    let img = Image::new_from_buffer(PixelBuffer::new_with_color(w as u32, h as u32, orig));
    let q = if k == "random" || k == "gaussian" { 0.25 } else { t as f32 / 64.0 };
    let mut e = json!({"op": "stat", "k": k, "t": t, "inplace": inplace, "free": free});
    ctx.mark(&e);
    let run = || -> Vec<Rgb> {
        if inplace {
            let mut i = img.clone();
            add(&mut i, k, q, free);
            i.buffer().data().to_vec()
        } else {
            noise(&img, k, q, free).buffer().data().to_vec()
        }
    };
    let r = guard(|| (run(), run()));
    e["ok"] = json!(r.is_ok() && r.as_ref().unwrap().0.len() == n);
    if e["ok"] == json!(true) {
        let (a, b) = r.unwrap();
        let cnt = |f: &dyn Fn(usize) -> bool, r: &mut dyn Iterator<Item = usize>| r.filter(|i| f(*i)).count();
        let mean = 0.375f32;
        let mix = k == "random" || k == "gaussian";
        let hit = |v: &[Rgb], i: usize| if mix { v[i].data[0] > mean } else { v[i].data != orig.data };
        let mut c = vec![
            json!(["any", cnt(&|i| hit(&a, i), &mut (0..n)), n]),
            json!(["first", cnt(&|i| hit(&a, i), &mut (0..n / 2)), n / 2]),
            json!(["even", cnt(&|i| hit(&a, 2 * i), &mut (0..n / 2)), n / 2]),
            json!(["next", cnt(&|i| hit(&a, 2 * i) && hit(&a, 2 * i + 1), &mut (0..n / 2)), n / 2]),
            json!(["far", cnt(&|i| hit(&a, i) && hit(&a, i + n / 2), &mut (0..n / 2)), n / 2]),
            json!(["twice", cnt(&|i| hit(&a, i) && hit(&b, i), &mut (0..n)), n]),
        ];
        let mut other = 0;
        if mix {
            for ch in 0..3 {
                let sd = if k == "random" { 0.125 } else { 0.25 };      // quartiles of the uniform, one sd of the normal distribution
                let z = |i: usize| (a[i].data[ch] - mean) / sd;
                c.push(json!(["q1", cnt(&|i| z(i) <= -1.0, &mut (0..n)), n]));
                c.push(json!(["q2", cnt(&|i| z(i) > -1.0 && z(i) <= 0.0, &mut (0..n)), n]));
                c.push(json!(["q3", cnt(&|i| z(i) > 0.0 && z(i) <= 1.0, &mut (0..n)), n]));
                c.push(json!(["q4", cnt(&|i| z(i) > 1.0, &mut (0..n)), n]));
                let o = (ch + 1) % 3;
                c.push(json!(["channels", cnt(&|i| z(i) > 0.0 && a[i].data[o] > mean, &mut (0..n)), n]));
            }
        } else {
            let is = |i: usize, x: [f32; 4]| a[i].data == x;
            let names: Vec<(&str, [f32; 4])> = if k == "rgb" {
                vec![("red", [1.0, 0.5, 0.5, 1.0]), ("green", [0.5, 1.0, 0.5, 1.0]), ("blue", [0.5, 0.5, 1.0, 1.0])]
            } else {
                vec![("black", [0.0, 0.0, 0.0, 1.0]), ("white", [1.0; 4])]
            };
            other = cnt(&|i| hit(&a, i), &mut (0..n));
            for (name, x) in names {
                let m = cnt(&|i| is(i, x), &mut (0..n));
                other -= m;
                c.push(json!([name, m, n]));
            }
        }
        e["other"] = json!(other);
        e["counts"] = json!(c);
    }
    ctx.stateless();
    ctx.emit(e);
}
pub fn n01(ctx: &mut Ctx) {
    for _ in 0..ctx.n(1500, 20000) {
        session(ctx);
    }
    for _ in 0..ctx.n(1, 12) {
        for k in KINDS {
            for t in if k == "salt_n_pepper" { vec![1, 5, 16, 31, 32] } else { vec![1, 5, 20, 48, 64] } {
                for m in 0..4 {
                    stat(ctx, k, t, m & 1 == 1, m & 2 == 2);
                }
            }
        }
    }
}
