//! A01: every operation on every image with every parameter, in chains.
use crate::common::*;
use crate::opset::*;
use d10::*;
use serde_json::json;

const P: f64 = 1048576.0;
fn scaled(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(|c| c.data.iter().map(|v| fx(if v.is_finite() { v.clamp(-1500.0, 1500.0) } else { *v } as f64, P)).collect()).collect()
}
fn alphas(d: &[Rgb]) -> Vec<i64> {
    d.iter().map(|c| fx(c.data[3] as f64, P)).collect()
}
fn start(ctx: &mut Ctx, img: &Image) {
    ctx.emit(json!({"op": "start", "w": img.width(), "h": img.height(), "al": alphas(img.data())}));
}
fn picture(r: &mut Rng) -> Image {
    let (w, h) = match r.below(6) {
        0 => (1, r.range(1, 7)),
        1 => (r.range(1, 7), 1),
        2 if r.chance(1, 3) => crate::imgs::big(r),
        2 => (1, 1),
        _ => (r.range(2, 8), r.range(2, 8)),
    };
    Image::new_from_buffer(match r.below(7) {
        0 => {
            let c = crate::imgs::color(r);
            PixelBuffer::new_with_color(w as u32, h as u32, c)
        }
        1 => PixelBuffer::new_from_func(w as u32, h as u32, |_, _| {
            let v = crate::imgs::ch(r);
            Rgb { data: [v, v, v, crate::imgs::alpha(r)] }
        }),
        2 => {
            // denormal, tiny and almost full values
            let vals = [0.0, 1.0, f32::MIN_POSITIVE, 1e-30, 1e-7, 0.99999994, 1.0 / 32768.0, 0.5, 1e-42, -0.0];
            PixelBuffer::new_from_func(w as u32, h as u32, |_, _| Rgb { data: [*r.pick(&vals), *r.pick(&vals), *r.pick(&vals), *r.pick(&vals)] })
        }
        _ => crate::imgs::image(r, w, h),
    })
}
fn chain(ctx: &mut Ctx, names: &[String]) {
    let mut img = picture(&mut ctx.rng);
    ctx.session();
    start(ctx, &img);
    for name in names {
        let other = picture(&mut ctx.rng);
        let o = make(&mut ctx.rng, name, img.width() as i64, img.height() as i64);
        let mut e = json!({"op": "call", "k": o.name, "key": o.key, "q": o.q, "ow": other.width(), "oh": other.height()});
        ctx.mark(&json!({"call": e, "w": img.width(), "h": img.height(), "px": format!("{:?}", img.data().iter().map(|c| c.data).collect::<Vec<_>>())}));
        let form = ctx.rng.below(3);
        let r = guard(|| match (&o.free, &o.inplace) {
            (Some(f), _) if form == 0 => Image::new_from_buffer(f(img.buffer(), other.buffer())),
            (_, Some(f)) if form == 1 => {
                let mut i = img.clone();
                f(&mut i, &other);
                i
            }
            _ => (o.method)(&img, &other),
        });
        e["ok"] = json!(r.is_ok());
        match r {
            Err(p) => {
                e["panic"] = json!(p);
                ctx.emit(e);
                return;
            }
            Ok(v) => {
                e["nw"] = json!(v.width());
                e["nh"] = json!(v.height());
                e["v"] = json!(scaled(v.data()));
                ctx.emit(e);
                if v.data().is_empty() || v.data().len() > 200 || v.data().iter().any(|c| c.data.iter().any(|x| !x.is_finite())) {
                    return;
                }
                img = v;
                if img.data().iter().any(|c| c.data.iter().any(|x| !(0.0..=1.0).contains(x))) {
                    img = img.map_colors(|c| Rgb { data: c.data.map(|x| x.clamp(0.0, 1.0)) });
                    start(ctx, &img);
                }
            }
        }
    }
}
pub fn a01(ctx: &mut Ctx) {
    for c in ctx.cases() {
        let ops: Vec<String> = c["ops"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        chain(ctx, &ops);
    }
    for _ in 0..ctx.n(2500, 40000) {
        let names: Vec<String> = (0..ctx.rng.range(1, 6)).map(|_| ctx.rng.pick(&NAMES).to_string()).collect();
        chain(ctx, &names);
    }
}
