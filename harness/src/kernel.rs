//! K01: windows and convolutions on integer-valued pixels.
use crate::common::*;
use d10::*;
use serde_json::{json, Value};

fn int(v: f32) -> i64 {
    exact(v, 1.0)
}
fn px4(c: &Rgb) -> Vec<i64> {
    c.data.iter().map(|v| int(*v)).collect()
}
fn rgb(p: &[i64]) -> Rgb {
    Rgb { data: [p[0] as f32, p[1] as f32, p[2] as f32, p[3] as f32] }
}
fn win<const N: usize>(b: &PixelBuffer<Rgb>, x: i32, y: i32) -> Vec<Vec<Vec<i64>>> {
    b.get_kernel::<N>(x, y).iter().map(|r| r.iter().map(px4).collect()).collect()
}
fn kern<const N: usize>(k: &[i64]) -> Kernel<N> {
    let mut d = [[0.0; N]; N];
    for y in 0..N {
        for x in 0..N {
            d[y][x] = k[y * N + x] as f32;
        }
    }
    Kernel::new(d)
}
fn apply<const N: usize>(k: &[i64], data: &[Vec<i64>]) -> Vec<i64> {
    let mut d = [[Rgb::default(); N]; N];
    for y in 0..N {
        for x in 0..N {
            d[y][x] = rgb(&data[y * N + x]);
        }
    }
    let r: [f32; 4] = kern::<N>(k).apply_kernel(&d, |c, i| c.data[i]);
    r.iter().map(|v| int(*v)).collect()
}
macro_rules! by_n {
    ($n:expr, $f:ident ( $($a:expr),* )) => {
        match $n { 1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*), 5 => $f::<5>($($a),*),
            6 => $f::<6>($($a),*), 7 => $f::<7>($($a),*), 8 => $f::<8>($($a),*), 9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 11 => $f::<11>($($a),*),
            n => panic!("n {}", n) }
    };
}
fn conv_static<const N: usize>(b: &PixelBuffer<Rgb>, k: &[i64]) -> PixelBuffer<Rgb> {
    b.apply_kernel(&kern::<N>(k))
}
fn done(ctx: &mut Ctx, mut e: Value, r: Result<Value, String>) {
    match r {
        Ok(v) => {
            e["ok"] = json!(true);
            for (k, x) in v.as_object().unwrap() {
                e[k] = x.clone();
            }
        }
        Err(m) => {
            e["ok"] = json!(false);
            e["panic"] = json!(m.chars().take(80).collect::<String>());
        }
    }
    ctx.emit(e);
}
fn planes(b: &PixelBuffer<Rgb>) -> Value {
    json!({"w": b.width(), "h": b.height(),
        "v": (0..4).map(|c| b.data().iter().map(|p| int(p.data[c])).collect::<Vec<_>>()).collect::<Vec<_>>()})
}
fn set_img(ctx: &mut Ctx, w: u32, h: u32, px: &[Vec<i64>]) -> PixelBuffer<Rgb> {
    ctx.session();
    ctx.emit(json!({"op": "img", "w": w, "h": h, "px": px}));
    PixelBuffer::new_from_raw(w, h, px.iter().map(|p| rgb(p)).collect())
}
fn windows(ctx: &mut Ctx, b: &PixelBuffer<Rgb>, n: i64, x: i64, y: i64) {
    let e = json!({"op": "win", "n": n, "x": x, "y": y, "dyn": false});
    ctx.mark(&e);
    let r = guard(|| json!({"v": by_n!(n, win(b, x as i32, y as i32))}));
    done(ctx, e, r);
    let r = guard(|| json!({"v": b.get_kernel_dyn(x as i32, y as i32, n as usize).iter().map(|r| r.iter().map(px4).collect()).collect::<Vec<Vec<Vec<i64>>>>()}));
    done(ctx, json!({"op": "win", "n": n, "x": x, "y": y, "dyn": true}), r);
}

/// windows and convolutions of an image too large for the trace, at some positions
fn wide(ctx: &mut Ctx, k: usize) {
    use crate::label::*;
    let (w, h) = wide_dims(&mut ctx.rng, k);
    let b = wide_buf::<Rgb>(w, h);
    for k in 0..8 {
        let n = *ctx.rng.pick(&[1, 2, 3, 3, 5, 7]);
        let (x, y) = (wide_at(&mut ctx.rng, w), wide_at(&mut ctx.rng, h));
        let e = json!({"op": "wide", "w": w, "h": h, "n": n, "x": x, "y": y, "k": k});
        ctx.mark(&e);
        let lb = |v: Vec<Vec<Rgb>>| -> Vec<Vec<i64>> { v.iter().map(|r| r.iter().map(lab).collect()).collect() };
        fn st<const N: usize>(b: &PixelBuffer<Rgb>, x: i32, y: i32) -> Vec<Vec<Rgb>> { b.get_kernel::<N>(x, y).iter().map(|r| r.to_vec()).collect() }
        let r = guard(|| json!({"v": if k % 2 == 0 { lb(by_n!(n, st(&b, x as i32, y as i32))) } else { lb(b.get_kernel_dyn(x as i32, y as i32, n as usize)) }}));
        done(ctx, e, r);
    }
    let (kw, kh) = (ctx.rng.range(1, 3), ctx.rng.range(1, 3));
    let k: Vec<i64> = (0..kw * kh).map(|_| ctx.rng.range(-5, 9)).collect();
    let sq: Vec<i64> = (0..9).map(|_| ctx.rng.range(-5, 9)).collect();
    let stat = ctx.rng.chance(1, 2);
    let (kw, kh, k) = if stat { (3, 3, sq) } else { (kw, kh, k) };
    let kd = KernelDyn::new(k.iter().map(|v| *v as f32).collect(), kw as u32, kh as u32);
    let at: Vec<(i64, i64)> = (0..25).map(|_| (wide_at(&mut ctx.rng, w), wide_at(&mut ctx.rng, h))).collect();
    let e = json!({"op": "wconv", "w": w, "h": h, "kw": kw, "kh": kh, "k": k});
    ctx.mark(&e);
    let r = guard(|| {
        let c = if stat { b.apply_kernel(&kern::<3>(&k)) } else { b.apply_kernel_dyn(&kd) };
        json!({"nw": c.width(), "nh": c.height(), "at": at.iter().enumerate().map(|(i, (x, y))| {
            let p = if i % 5 == 4 && !stat { b.get_kernel_value(*x as u32, *y as u32, &kd) } else { *c.get_pixel(*x as u32, *y as u32) };
            json!([x, y, px4(&p)])
        }).collect::<Vec<_>>()})
    });
    done(ctx, e, r);
}
fn gauss_static<const N: usize>(sigma: f32) -> Vec<i64> {
    Kernel::<N>::new_gaussian(sigma).data.iter().flatten().map(|v| fx(*v as f64, 1048576.0)).collect()
}
/// the kernels with names
fn named(ctx: &mut Ctx) {
    for n in 1..=11i64 {
        for k in 0..ctx.n(6, 40) {
            let sg = match k { 0 => 0, 1 => 16, 2 => (n - 1) * 4, _ => ctx.rng.range(4, 100) };
            let sigma = sg as f32 / 16.0;
            let dy = ctx.rng.chance(1, 2);
            let r = guard(|| json!({"v": if dy {
                KernelDyn::new_gaussian(n as u32, sigma).enumerate().map(|(_, _, v)| fx(v as f64, 1048576.0)).collect::<Vec<_>>()
            } else {
                by_n!(n, gauss_static(sigma))
            }}));
            ctx.stateless();
            done(ctx, json!({"op": "gauss", "n": n, "sg": sg, "dyn": dy}), r);
        }
    }
    let f = |k: KernelDyn| (0..9).map(|i| int(k.get(i % 3, i / 3))).collect::<Vec<_>>();
    let r = guard(|| json!({"sx": f(KernelDyn::new_sobel_x()), "sy": f(KernelDyn::new_sobel_y())}));
    done(ctx, json!({"op": "sobel"}), r);
}
pub fn k01(ctx: &mut Ctx) {
    // all model cases, grouped by image size
    let cases = ctx.cases();
    let mut sizes: Vec<(i64, i64)> = cases.iter().map(|c| (gi(c, "w"), gi(c, "h"))).collect();
    sizes.sort();
    sizes.dedup();
    for (w, h) in sizes {
        let px: Vec<Vec<i64>> = (0..w * h).map(|i| vec![1 + i, 100 + 3 * i, 700 - i, 5 * i]).collect();
        let mut b = set_img(ctx, w as u32, h as u32, &px);
        let mut i = 0;
        for c in cases.iter().filter(|c| (gi(c, "w"), gi(c, "h")) == (w, h)) {
            if i % 200 == 199 {
                b = set_img(ctx, w as u32, h as u32, &px);
            }
            i += 1;
            windows(ctx, &b, gi(c, "n"), gi(c, "x"), gi(c, "y"));
        }
    }
    for _ in 0..ctx.n(400, 6000) {
        let (w, h) = match ctx.rng.below(6) {
            0 => (1, ctx.rng.range(1, 14)),
            1 => (ctx.rng.range(1, 14), 1),
            2 if ctx.rng.chance(1, 4) => crate::imgs::big(&mut ctx.rng),
            2 => (ctx.rng.range(10, 14), ctx.rng.range(10, 14)),
            _ => (ctx.rng.range(1, 9), ctx.rng.range(1, 9)),
        };
        let px: Vec<Vec<i64>> = (0..w * h).map(|_| (0..4).map(|_| ctx.rng.range(-9, 99)).collect()).collect();
        let b = set_img(ctx, w as u32, h as u32, &px);
        for _ in 0..10 {
            let n = ctx.rng.range(1, 11);
            let (x, y) = (ctx.rng.range(-n - 1, w + n), ctx.rng.range(-n - 1, h + n));
            let (x, y) = if ctx.rng.chance(1, 12) { (*ctx.rng.pick(&[-100000, 100000, x]), *ctx.rng.pick(&[-70000, 70000, y])) } else { (x, y) };
            windows(ctx, &b, n, x, y);
        }
        for _ in 0..4 {
            // square kernels: static whole image and dynamic whole image
            let n = *ctx.rng.pick(&[1, 2, 3, 3, 3, 4, 5, 5, 7]);
            let k: Vec<i64> = (0..n * n).map(|_| ctx.rng.range(-5, 9)).collect();
            let e = json!({"op": "conv", "kw": n, "kh": n, "k": k, "form": "static"});
            ctx.mark(&e);
            let r = guard(|| planes(&by_n!(n, conv_static(&b, &k))));
            done(ctx, e, r);
            // rectangular dynamic kernels
            let (kw, kh) = (ctx.rng.range(1, 6), ctx.rng.range(1, 6));
            let k: Vec<i64> = (0..kw * kh).map(|_| ctx.rng.range(-5, 9)).collect();
            let kd = KernelDyn::new(k.iter().map(|v| *v as f32).collect(), kw as u32, kh as u32);
            let e = json!({"op": "conv", "kw": kw, "kh": kh, "k": k, "form": "dyn"});
            ctx.mark(&e);
            let r = guard(|| planes(&b.apply_kernel_dyn(&kd)));
            done(ctx, e, r);
            let (x, y) = (ctx.rng.range(0, w - 1), ctx.rng.range(0, h - 1));
            let r = guard(|| json!({"v": px4(&b.get_kernel_value(x as u32, y as u32, &kd))}));
            done(ctx, json!({"op": "at", "kw": kw, "kh": kh, "k": k, "x": x, "y": y}), r);
            let (x, y) = (ctx.rng.range(0, kw - 1), ctx.rng.range(0, kh - 1));
            let r = guard(|| {
                json!({"v": int(kd.get(x as u32, y as u32)), "offs": [kd.get_offset_x(), kd.get_offset_y()],
                "enum": kd.enumerate().map(|(x, y, v)| vec![x as i64, y as i64, int(v)]).collect::<Vec<_>>()})
            });
            done(ctx, json!({"op": "kget", "kw": kw, "kh": kh, "k": k, "x": x, "y": y}), r);
            let n = ctx.rng.range(1, 6);
            let k: Vec<i64> = (0..n * n).map(|_| ctx.rng.range(-5, 9)).collect();
            let data: Vec<Vec<i64>> = (0..n * n).map(|_| (0..4).map(|_| ctx.rng.range(-9, 99)).collect()).collect();
            let r = guard(|| json!({"v": by_n!(n, apply(&k, &data))}));
            done(ctx, json!({"op": "apply", "k": k, "data": data}), r);
        }
    }
    ctx.session();
    named(ctx);
    for k in 0..ctx.n(30, 300) {
        ctx.session();
        wide(ctx, k as usize);
    }
}
