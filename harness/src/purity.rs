//! B03: operations returning an image are pure; methods, functions and in-place forms agree.
use crate::common::*;
use crate::opset::*;
use d10::*;
use serde_json::json;
use std::collections::HashMap;

struct Ids(HashMap<(u32, u32, Vec<u32>), i64>);
impl Ids {
    fn id(&mut self, i: &Image) -> i64 {
        // +0.0 and -0.0 are the same channel value
        let bits = i.data().iter().flat_map(|c| c.data.map(|v| (v + 0.0).to_bits())).collect();
        let n = self.0.len() as i64 + 1;
        *self.0.entry((i.width(), i.height(), bits)).or_insert(n)
    }
}
fn session(ctx: &mut Ctx, names: &[&str], hist: &[(String, usize, usize, usize)]) {
    let mut ids = Ids(HashMap::new());
    let mut st: Vec<Image> = vec![];
    let (w, h) = if ctx.rng.chance(1, 20) { crate::imgs::big(&mut ctx.rng) } else { (ctx.rng.range(1, 6), ctx.rng.range(1, 6)) };
    st.push(Image::new_from_buffer(crate::imgs::image(&mut ctx.rng, w, h)));
    let (w2, h2) = if ctx.rng.chance(1, 3) { (w, h) } else { (ctx.rng.range(1, 6), ctx.rng.range(1, 6)) };
    st.push(Image::new_from_buffer(crate::imgs::image(&mut ctx.rng, w2, h2)));
    let ops: Vec<Op> = names.iter().map(|n| make(&mut ctx.rng, n, w.min(w2), h.min(h2))).collect();
    ctx.session();
    let e = json!({"op": "start", "st": st.iter().map(|i| ids.id(i)).collect::<Vec<_>>()});
    ctx.emit(e);
    for (form, k, s, dst) in hist {
        let o = &ops[*k];
        if st[0].data().is_empty() || st[1].data().is_empty() || st.iter().any(|i| i.data().len() > 400) {
            return;
        }
        let form = match form.as_str() {
            "inplace" if o.inplace.is_some() => "inplace",
            "free" if o.free.is_some() => "free",
            _ => "method",
        };
        let dst = if form == "method" && *dst == 0 { 0 } else { *dst };
        let other = 3 - *s;
        let mut e = json!({"op": form, "name": o.name, "key": o.key, "pure": !o.noise, "ins": if o.binary { vec![*s, other] } else { vec![*s] }, "dst": dst});
        ctx.mark(&e);
        let r = if form == "inplace" {
            let b = st[other - 1].clone();
            let mut a = st[s - 1].clone();
            let r = guard(|| (o.inplace.as_ref().unwrap())(&mut a, &b));
            let keep = ids.id(&b) == ids.id(&st[other - 1]);
            st[s - 1] = a;
            if !keep {
                st[other - 1] = b;
            }
            r.map(|_| st[s - 1].clone())
        } else if form == "free" {
            guard(|| Image::new_from_buffer((o.free.as_ref().unwrap())(st[s - 1].buffer(), st[other - 1].buffer())))
        } else {
            guard(|| (o.method)(&st[s - 1], &st[other - 1]))
        };
        e["ok"] = json!(r.is_ok());
        if let Ok(v) = r {
            e["r"] = json!(ids.id(&v));
            if form != "inplace" && dst > 0 {
                st[dst - 1] = v;
            }
        }
        e["st"] = json!(st.iter().map(|i| ids.id(i)).collect::<Vec<_>>());
        ctx.emit(e);
    }
}
pub fn b03(ctx: &mut Ctx) {
    let mut at = 0;
    for c in ctx.cases() {
        let hist: Vec<_> = c["h"].as_array().unwrap().iter().map(|x| {
            let n = |i: usize| x[i].as_u64().unwrap() as usize;
            (x[0].as_str().unwrap().to_string(), (x[1] == "b") as usize, n(2), n(3))
        }).collect();
        let names = [NAMES[at % NAMES.len()], NAMES[(at / NAMES.len() + at) % NAMES.len()]];
        at += 1;
        session(ctx, &names, &hist);
    }
    for _ in 0..ctx.n(1200, 20000) {
        let names: Vec<&str> = (0..ctx.rng.range(1, 3)).map(|_| *ctx.rng.pick(&NAMES)).collect();
        let n = ctx.rng.range(3, 8);
        // often the same call on the same contents again
        let mut hist: Vec<(String, usize, usize, usize)> = vec![];
        for _ in 0..n {
            let form = ctx.rng.pick(&["method", "free", "inplace", "method"]).to_string();
            let k = ctx.rng.below(names.len() as u64) as usize;
            let s = ctx.rng.range(1, 2) as usize;
            let dst = if ctx.rng.chance(1, 4) { ctx.rng.range(1, 2) as usize } else { 0 };
            hist.push((form, k, s, dst));
        }
        session(ctx, &names, &hist);
    }
}
