//! L01: apply_palette.
use crate::common::*;
use d10::illuminant::D50;
use d10::observer::O10;
use d10::*;
use serde_json::{json, Value};

const P: f64 = 1048576.0;
fn scaled(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| fx(*v as f64, P)).collect()).collect()
}
fn from(v: &Value) -> Vec<Rgb> {
    v.as_array().unwrap().iter().map(|p| {
        let f = |i: usize| (p[i].as_i64().unwrap() as f64 / P) as f32;
        Rgb { data: [f(0), f(1), f(2), f(3)] }
    }).collect()
}
fn grid(rng: &mut Rng, n: usize) -> (u32, u32) {
    if n == 0 {
        return (0, 0);
    }
    let d: Vec<usize> = (1..=n).filter(|k| n % k == 0).collect();
    let w = *rng.pick(&d);
    (w as u32, (n / w) as u32)
}
fn with<C: Color>(b: &PixelBuffer<Rgb>, p: PixelBuffer<C>, inplace: bool) -> PixelBuffer<Rgb> {
    if inplace {
        let mut r = b.clone();
        ops::apply_palette_in_place(&mut r, &p);
        r
    } else {
        ops::apply_palette(b, &p)
    }
}
fn apply(b: &PixelBuffer<Rgb>, p: &PixelBuffer<Rgb>, m: i64, inplace: bool) -> PixelBuffer<Rgb> {
    match m {
        0 => with(b, p.clone(), inplace),
        1 => with(b, p.to_srgb(), inplace),
        2 => with(b, p.to_hsl(), inplace),
        3 => with(b, p.to_lab::<D50, O10>(), inplace),
        4 => with(b, p.to_xyz(), inplace),
        5 => with(b, p.to_lch::<illuminant::D65, observer::O2>(), inplace),
        _ => {
            let pi = Image::new_from_buffer(p.clone());
            let mut i = Image::new_from_buffer(b.clone());
            if inplace {
                i.apply_palette_in_place(&pi);
                i.buffer().clone()
            } else {
                i.apply_palette(&pi).buffer().clone()
            }
        }
    }
}
fn run(ctx: &mut Ctx, px: Vec<Rgb>, pal: Vec<Rgb>) {
    let (w, h) = grid(&mut ctx.rng, px.len());
    let (pw, ph) = grid(&mut ctx.rng, pal.len());
    let m = ctx.rng.range(0, 7);
    let inplace = ctx.rng.chance(1, 3);
    let b = PixelBuffer::new_from_raw(w, h, px);
    let p = PixelBuffer::new_from_raw(pw, ph, pal);
    let mut e = json!({"op": if inplace { "palette_in_place" } else { "palette" }, "m": m, "w": w, "h": h, "px": scaled(b.data()), "pal": scaled(p.data())});
    ctx.mark(&e);
    let r = guard(|| {
        let a = apply(&b, &p, m, inplace);
        let again = apply(&a, &p, m, !inplace);
        (a, again)
    });
    e["ok"] = json!(r.is_ok());
    if let Ok((a, g)) = r {
        e["nw"] = json!(a.width());
        e["nh"] = json!(a.height());
        e["v"] = json!(scaled(a.data()));
        e["again"] = json!(scaled(g.data()));
    }
    ctx.stateless();
    ctx.emit(e);
}
pub fn l01(ctx: &mut Ctx) {
    for c in ctx.cases() {
        run(ctx, from(&c["px"]), from(&c["pal"]));
    }
    // colours next to each other: one that is in the palette stays itself
    for _ in 0..ctx.n(400, 8000) {
        let r = &mut ctx.rng;
        let step = r.range(40, 200) as f64;
        let base: Vec<i64> = (0..3).map(|_| r.range(P as i64 / 8, P as i64 * 7 / 8)).collect();
        let n = r.range(2, 12);
        let mut at: Vec<Vec<i64>> = (0..n).map(|_| (0..3).map(|_| r.range(-2, 2)).collect()).collect();
        at.sort();
        at.dedup();
        let mut pal: Vec<Rgb> = at.iter().map(|o| {
            let f = |i: usize| ((base[i] as f64 + o[i] as f64 * step) / P) as f32;
            Rgb { data: [f(0), f(1), f(2), crate::imgs::alpha(r)] }
        }).collect();
        for i in (1..pal.len()).rev() {
            pal.swap(i, r.below(i as u64 + 1) as usize);
        }
        let px = pal.clone();
        run(ctx, px, pal);
    }
    for t in 0..ctx.n(1500, 30000) {
        let r = &mut ctx.rng;
        let n = if t % 150 == 0 { r.range(200, 700) } else { r.range(0, 8) } as usize;
        let mut pal: Vec<Rgb> = vec![];
        let base = crate::imgs::color(r);
        let mode = if t % 150 == 0 { 3 } else { r.below(4) };
        for _ in 0..n {
            let mut c = match mode {
                0 => { let mut c = base; c.data[r.below(3) as usize] = crate::imgs::ch(r); c }            // near each other
                1 => { let v = crate::imgs::ch(r); Rgb::new(v, v, v) }
                _ => crate::imgs::color(r),
            };
            if !pal.is_empty() && r.chance(1, 4) {
                c = *r.pick(&pal);          // the same colour again, with another alpha
            }
            c.data[3] = crate::imgs::alpha(r);
            pal.push(c);
        }
        let k = if r.chance(1, 30) { r.range(20, 300) } else { r.range(1, 12) } as usize;
        let px: Vec<Rgb> = (0..k).map(|_| {
            let mut c = if !pal.is_empty() && r.chance(1, 2) { *r.pick(&pal) } else { crate::imgs::color(r) };
            if r.chance(1, 2) {
                let i = r.below(3) as usize;
                c.data[i] = (c.data[i] + r.range(-4, 4) as f32 / 512.0).clamp(0.0, 1.0);
            }
            c
        }).collect();
        run(ctx, px, pal);
    }
}
