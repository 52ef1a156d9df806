//! X07: files of other programs, built here byte by byte.
use crate::codec::dec;
use crate::common::*;
use d10::*;
use serde_json::{json, Value};

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = 0xFFFF_FFFFu32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}
pub fn chunk(kind: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = (data.len() as u32).to_be_bytes().to_vec();
    let mut body = kind.to_vec();
    body.extend(data);
    v.extend(&body);
    v.extend(crc32(&body).to_be_bytes());
    v
}
/// zlib without compression
fn zlib(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let n = data.chunks(1000).count().max(1);
    for (i, c) in data.chunks(1000).enumerate() {
        v.push((i + 1 == n) as u8);
        v.extend((c.len() as u16).to_le_bytes());
        v.extend((!(c.len() as u16)).to_le_bytes());
        v.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    v.extend(((b << 16) | a).to_be_bytes());
    v
}
/// samples, highest bits first, rows padded to bytes
fn pack(row: &[u32], bits: usize) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for s in row {
        if bits == 16 {
            out.extend((*s as u16).to_be_bytes());
            continue;
        }
        acc = acc << bits | s;
        n += bits;
        if n == 8 {
            out.push(acc as u8);
            acc = 0;
            n = 0;
        }
    }
    if n > 0 {
        out.push((acc << (8 - n)) as u8);
    }
    out
}
fn paeth(a: i32, b: i32, c: i32) -> i32 {
    let p = a + b - c;
    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
    if pa <= pb && pa <= pc { a } else if pb <= pc { b } else { c }
}
fn filtered(r: &mut Rng, rows: &[Vec<u8>], bpp: usize) -> Vec<u8> {
    let mut out = vec![];
    let zero = vec![];
    for (y, row) in rows.iter().enumerate() {
        let up = if y == 0 { &zero } else { &rows[y - 1] };
        let f = r.below(5) as u8;
        out.push(f);
        for i in 0..row.len() {
            let a = if i >= bpp { row[i - bpp] as i32 } else { 0 };
            let b = up.get(i).map(|v| *v as i32).unwrap_or(0);
            let c = if i >= bpp { up.get(i - bpp).map(|v| *v as i32).unwrap_or(0) } else { 0 };
            let p = match f {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                _ => paeth(a, b, c),
            };
            out.push((row[i] as i32 - p) as u8);
        }
    }
    out
}
fn channels(ctype: i64) -> usize {
    [1, 0, 3, 1, 2, 0, 4][ctype as usize]
}
/// px: samples of every pixel
#[allow(clippy::too_many_arguments)]
pub fn png(r: &mut Rng, w: usize, h: usize, ctype: i64, bits: usize, px: &[Vec<u32>], pal: &[[u8; 3]], trns: &[u32], interlace: bool, parts: usize) -> Vec<u8> {
    let mut v = vec![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A];
    let mut ihdr = (w as u32).to_be_bytes().to_vec();
    ihdr.extend((h as u32).to_be_bytes());
    ihdr.extend([bits as u8, ctype as u8, 0, 0, interlace as u8]);
    v.extend(chunk(b"IHDR", &ihdr));
    if r.chance(1, 3) {
        v.extend(chunk(b"tEXt", b"Comment\0made by hand"));
    }
    if ctype == 3 {
        v.extend(chunk(b"PLTE", &pal.concat()));
    }
    if !trns.is_empty() {
        let d: Vec<u8> = if ctype == 3 { trns.iter().map(|t| *t as u8).collect() } else { trns.iter().flat_map(|t| (*t as u16).to_be_bytes()).collect() };
        v.extend(chunk(b"tRNS", &d));
    }
    let bpp = (channels(ctype) * bits).div_ceil(8);
    let mut raw = vec![];
    let passes: Vec<(usize, usize, usize, usize)> = if interlace {
        vec![(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
    } else {
        vec![(0, 0, 1, 1)]
    };
    for (x0, y0, dx, dy) in passes {
        let rows: Vec<Vec<u8>> = (y0..h)
            .step_by(dy)
            .map(|y| pack(&(x0..w).step_by(dx).flat_map(|x| px[y * w + x].clone()).collect::<Vec<_>>(), bits))
            .filter(|p| !p.is_empty())
            .collect();
        raw.extend(filtered(r, &rows, bpp));
    }
    let z = zlib(&raw);
    for c in z.chunks(z.len().div_ceil(parts).max(1)) {
        v.extend(chunk(b"IDAT", c));
    }
    v.extend(chunk(b"IEND", &[]));
    v
}
fn le2(v: &mut Vec<u8>, x: u32) {
    v.extend((x as u16).to_le_bytes());
}
fn le4(v: &mut Vec<u8>, x: i32) {
    v.extend(x.to_le_bytes());
}
/// header (40 bytes) + palette + rows; ico: double height and a mask
fn dib(w: usize, h: usize, bits: usize, px: &[Vec<u32>], pal: &[[u8; 3]], topdown: bool, mask: Option<&[bool]>) -> Vec<u8> {
    let mut v = vec![];
    le4(&mut v, 40);
    le4(&mut v, w as i32);
    le4(&mut v, if topdown { -(h as i32) } else if mask.is_some() { 2 * h as i32 } else { h as i32 });
    le2(&mut v, 1);
    le2(&mut v, bits as u32);
    for x in [0, 0, 2835, 2835, pal.len() as i32, 0] {
        le4(&mut v, x);
    }
    for p in pal {
        v.extend([p[2], p[1], p[0], 0]);
    }
    let order: Vec<usize> = if topdown { (0..h).collect() } else { (0..h).rev().collect() };
    let pad = |mut row: Vec<u8>| {
        while row.len() % 4 != 0 {
            row.push(0);
        }
        row
    };
    for y in &order {
        let p = &px[y * w..(y + 1) * w];
        let row: Vec<u8> = match bits {
            1 | 4 | 8 => pack(&p.iter().map(|s| s[0]).collect::<Vec<_>>(), bits),
            16 => p.iter().flat_map(|s| ((s[0] << 10 | s[1] << 5 | s[2]) as u16).to_le_bytes()).collect(),
            24 => p.iter().flat_map(|s| [s[2] as u8, s[1] as u8, s[0] as u8]).collect(),
            _ => p.iter().flat_map(|s| [s[2] as u8, s[1] as u8, s[0] as u8, s.get(3).copied().unwrap_or(0) as u8]).collect(),
        };
        v.extend(pad(row));
    }
    if let Some(m) = mask {
        for y in &order {
            v.extend(pad(pack(&m[y * w..(y + 1) * w].iter().map(|b| *b as u32).collect::<Vec<_>>(), 1)));
        }
    }
    v
}
pub fn bmp(w: usize, h: usize, bits: usize, px: &[Vec<u32>], pal: &[[u8; 3]], topdown: bool) -> Vec<u8> {
    let d = dib(w, h, bits, px, pal, topdown, None);
    let mut v = b"BM".to_vec();
    le4(&mut v, 14 + d.len() as i32);
    le4(&mut v, 0);
    le4(&mut v, 14 + 40 + 4 * pal.len() as i32);
    v.extend(d);
    v
}
pub fn ico(w: usize, h: usize, bits: usize, px: &[Vec<u32>], pal: &[[u8; 3]], mask: &[bool]) -> Vec<u8> {
    let d = dib(w, h, bits, px, pal, false, Some(mask));
    let mut v = vec![0, 0, 1, 0, 1, 0, w as u8, h as u8, if bits < 8 { 1 << bits } else { 0 }, 0, 1, 0, bits as u8, 0];
    le4(&mut v, d.len() as i32);
    le4(&mut v, 22);
    v.extend(d);
    v
}
pub fn gif(w: usize, h: usize, bits: usize, frames: &[Vec<Vec<u32>>], pal: &[[u8; 3]], local: bool, interlace: bool, key: Option<u8>) -> Vec<u8> {
    let mut v = b"GIF89a".to_vec();
    le2(&mut v, w as u32);
    le2(&mut v, h as u32);
    v.extend([if local { 0 } else { 0x80 | (bits as u8 - 1) }, 0, 0]);
    if !local {
        v.extend(pal.concat());
    }
    if frames.len() > 1 {
        v.extend(b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\0\0\0");
    }
    for px in frames {
        if let Some(k) = key {
            v.extend([0x21, 0xF9, 4, 1, 0, 0, k, 0]);
        }
        v.push(0x2C);
        for x in [0, 0, w, h] {
            le2(&mut v, x as u32);
        }
        v.push(if local { 0x80 | (bits as u8 - 1) } else { 0 } | (interlace as u8) << 6);
        if local {
            v.extend(pal.concat());
        }
        let rows: Vec<usize> = if interlace {
            [(0, 8), (4, 8), (2, 4), (1, 2)].iter().flat_map(|(o, s)| (*o..h).step_by(*s)).collect()
        } else {
            (0..h).collect()
        };
        let min = bits.max(2);
        let (clear, end, width) = (1u32 << min, (1u32 << min) + 1, min + 1);
        let (mut acc, mut n, mut out) = (0u32, 0, vec![]);
        let mut put = |c: u32, out: &mut Vec<u8>| {
            acc |= c << n;
            n += width;
            while n >= 8 {
                out.push(acc as u8);
                acc >>= 8;
                n -= 8;
            }
        };
        let mut left = 0;
        for y in rows {
            for x in 0..w {
                if left == 0 {
                    put(clear, &mut out);
                    left = (1usize << min) - 2;
                }
                put(px[y * w + x][0], &mut out);
                left -= 1;
            }
        }
        put(end, &mut out);
        if n > 0 {
            out.push(acc as u8);
        }
        v.push(min as u8);
        for c in out.chunks(255) {
            v.push(c.len() as u8);
            v.extend(c);
        }
        v.push(0);
    }
    v.push(0x3B);
    v
}
/// lossless JPEG (differences to the neighbour that `predictor` names)
pub fn ljpeg(w: usize, h: usize, bits: usize, px: &[Vec<u32>], predictor: u8) -> Vec<u8> {
    let comps = px[0].len();
    let mut v = vec![0xFF, 0xD8];
    // code lengths: 17 codes of 5 bits, one per size of a difference
    v.extend([0xFF, 0xC4, 0, 19 + 17, 0]);
    v.extend([0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    v.extend(0..=16u8);
    v.extend([0xFF, 0xC3, 0, 8 + 3 * comps as u8, bits as u8]);
    for x in [h, w] {
        v.extend((x as u16).to_be_bytes());
    }
    v.push(comps as u8);
    for c in 0..comps {
        v.extend([c as u8 + 1, 0x11, 0]);
    }
    v.extend([0xFF, 0xDA, 0, 6 + 2 * comps as u8, comps as u8]);
    for c in 0..comps {
        v.extend([c as u8 + 1, 0]);
    }
    v.extend([predictor, 0, 0]);
    let (mut acc, mut n) = (0u64, 0);
    let mut put = |code: u32, len: u32, v: &mut Vec<u8>| {
        acc = acc << len | code as u64;
        n += len;
        while n >= 8 {
            let b = (acc >> (n - 8)) as u8;
            v.push(b);
            if b == 0xFF {
                v.push(0);
            }
            n -= 8;
            acc &= (1 << n) - 1;
        }
    };
    for y in 0..h {
        for x in 0..w {
            for c in 0..comps {
                let at = |x: usize, y: usize| px[y * w + x][c] as i32;
                let p = match (x, y) {
                    (0, 0) => 1 << (bits - 1),
                    (_, 0) => at(x - 1, y),
                    (0, _) => at(x, y - 1),
                    _ => {
                        let (a, b, d) = (at(x - 1, y), at(x, y - 1), at(x - 1, y - 1));
                        match predictor {
                            1 => a,
                            2 => b,
                            3 => d,
                            4 => a + b - d,
                            5 => a + ((b - d) >> 1),
                            6 => b + ((a - d) >> 1),
                            _ => (a + b) / 2,
                        }
                    }
                };
                // modulo 2^16
                let diff = (at(x, y) - p) as i16 as i32;
                if diff == -32768 {
                    put(16, 5, &mut v);
                    continue;
                }
                let size = 32 - diff.unsigned_abs().leading_zeros();
                put(size, 5, &mut v);
                let low = if diff < 0 { diff - 1 } else { diff } as u32 & ((1 << size) - 1);
                put(low, size, &mut v);
            }
        }
    }
    put(0x7F, 7, &mut v);
    v.extend([0xFF, 0xD9]);
    v
}
fn palette(r: &mut Rng, n: usize) -> Vec<[u8; 3]> {
    (0..n).map(|_| [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]).collect()
}
fn read(ctx: &mut Ctx, mut e: Value, file: &[u8]) {
    ctx.mark(&e);
    match guard(|| Image::read_from_buffer(file)) {
        Ok(Ok(i)) => {
            e["err"] = json!("");
            e["nw"] = json!(i.width());
            e["nh"] = json!(i.height());
            e["got"] = json!(i.data().iter().map(dec).collect::<Vec<_>>());
            e["inside"] = json!(i.data().iter().all(|p| p.data.iter().all(|v| (0.0..=1.0).contains(v))));
        }
        Ok(Err(x)) => e["err"] = json!(format!("error: {}", x)),
        Err(p) => e["err"] = json!(format!("panic: {}", p)),
    }
    ctx.stateless();
    ctx.emit(e);
}
fn sample(r: &mut Rng, bits: usize) -> u32 {
    let m = (1u64 << bits) - 1;
    match r.below(4) {
        0 => *r.pick(&[0, m, m / 2, 1.min(m)]) as u32,
        _ => r.below(m + 1) as u32,
    }
}
fn size(r: &mut Rng, interlace: bool) -> (usize, usize) {
    match r.below(6) {
        0 => (1, 1),
        1 if interlace => (r.range(1, 20) as usize, r.range(1, 20) as usize),
        _ => (r.range(1, 9) as usize, r.range(1, 7) as usize),
    }
}
/// one file: description and bytes
pub fn build(r: &mut Rng, c: &Value) -> (Value, Vec<u8>) {
    let flag = |k: &str| c[k].as_bool().unwrap_or(false);
    let bits = c["bits"].as_i64().unwrap_or(8) as usize;
    let (w, h) = size(r, flag("interlace"));
    let mut e = json!({"op": "read", "kind": gs(c, "kind"), "case": c, "w": w, "h": h, "key": -1, "trns": [], "pal": [], "depth": 8});
    let mut px: Vec<Vec<u32>>;
    let file = match gs(c, "kind") {
        "png" => {
            let ctype = gi(c, "ctype");
            e["ctype"] = json!(ctype);
            e["bits"] = json!(bits);
            let mut pal = vec![];
            let mut trns: Vec<u32> = vec![];
            if ctype == 3 {
                let n = r.range(1, 1 << bits) as usize;
                pal = palette(r, n);
                px = (0..w * h).map(|_| vec![r.below(n as u64) as u32]).collect();
                if flag("trns") {
                    trns = (0..r.range(1, n as i64)).map(|_| *r.pick(&[0, 255, 128, 17])).collect();
                }
            } else {
                px = (0..w * h).map(|_| (0..channels(ctype)).map(|_| sample(r, bits)).collect()).collect();
                if flag("trns") {
                    trns = r.pick(&px).clone();
                    // neighbours of the key
                    for p in px.iter_mut() {
                        if r.chance(1, 4) {
                            *p = trns.clone();
                        } else if r.chance(1, 6) && bits == 16 {
                            *p = trns.clone();
                            p[0] ^= 1;
                        }
                    }
                }
            }
            e["trns"] = json!(trns);
            let f = png(r, w, h, ctype, bits, &px, &pal, &trns, flag("interlace"), c["parts"].as_i64().unwrap_or(1) as usize);
            e["pal"] = json!(pal);
            f
        }
        "bmp" => {
            let mut pal = vec![];
            if bits <= 8 {
                pal = palette(r, 1 << bits);
                px = (0..w * h).map(|_| vec![r.below(1 << bits) as u32]).collect();
            } else {
                let d = if bits == 16 { 5 } else { 8 };
                e["depth"] = json!(d);
                px = (0..w * h).map(|_| (0..3).map(|_| sample(r, d)).collect()).collect();
            }
            e["pal"] = json!(pal);
            bmp(w, h, bits, &px, &pal, flag("topdown"))
        }
        "ico" => {
            let mut pal = vec![];
            let mut mask: Vec<bool> = (0..w * h).map(|_| r.chance(1, 3)).collect();
            if bits <= 8 {
                pal = palette(r, 1 << bits);
                px = (0..w * h).map(|_| vec![r.below(1 << bits) as u32]).collect();
                // palette pictures: opaque ones only
                mask = vec![false; w * h];
            } else {
                px = (0..w * h).map(|_| (0..if bits == 32 { 4 } else { 3 }).map(|_| sample(r, 8)).collect()).collect();
                if bits == 32 {
                    mask = vec![false; w * h];
                }
            }
            let f = ico(w, h, bits, &px, &pal, &mask);
            if bits == 24 {
                for (p, m) in px.iter_mut().zip(&mask) {
                    p.push(if *m { 0 } else { 255 });
                }
            }
            e["pal"] = json!(pal);
            f
        }
        "gif" => {
            let pal = palette(r, 1 << bits);
            px = (0..w * h).map(|_| vec![r.below(1 << bits) as u32]).collect();
            let key = if flag("trns") { Some(r.below(1 << bits) as u8) } else { None };
            e["pal"] = json!(pal);
            e["key"] = json!(key.map(|k| k as i64).unwrap_or(-1));
            let mut frames = vec![px.clone()];
            for _ in 1..c["frames"].as_i64().unwrap_or(1) {
                frames.push((0..w * h).map(|_| vec![r.below(1 << bits) as u32]).collect());
            }
            gif(w, h, bits, &frames, &pal, flag("local"), flag("interlace"), key)
        }
        "ljpeg" => {
            e["bits"] = json!(bits);
            px = (0..w * h).map(|_| (0..gi(c, "comps")).map(|_| sample(r, bits)).collect()).collect();
            ljpeg(w, h, bits, &px, gi(c, "predictor") as u8)
        }
        _ => {
            // every corner of the ink cube once, then mixtures
            let ink: Vec<u8> = match c.get("corner").and_then(|v| v.as_u64()) {
                Some(b) => (0..4).map(|i| if b >> i & 1 == 1 { 255 } else { 0 }).collect(),
                None => (0..4).map(|_| *r.pick(&[0, 0, 255, 128, 60, 200])).collect(),
            };
            px = vec![ink.iter().map(|v| *v as u32).collect(); w * h];
            let mut out = vec![];
            let mut enc = jpeg_encoder::Encoder::new(&mut out, 100);
            if gi(c, "sampling") == 0 {
                enc.set_sampling_factor(jpeg_encoder::SamplingFactor::F_1_1);
            }
            let data: Vec<u8> = (0..w * h).flat_map(|_| ink.clone()).collect();
            enc.encode(&data, w as u16, h as u16, jpeg_encoder::ColorType::Cmyk).expect("jpeg");
            out
        }
    };
    e["px"] = json!(px);
    (e, file)
}
pub fn x07(ctx: &mut Ctx) {
    let cases = ctx.cases();
    for mut c in cases.iter().filter(|c| c["kind"] == "cmyk").cloned() {
        for b in 0..16 {
            c["corner"] = json!(b);
            let (mut e, f) = build(&mut ctx.rng, &c);
            if let Some(o) = e.as_object_mut() {
                o.remove("corner");
            }
            read(ctx, e, &f);
        }
    }
    for _ in 0..ctx.n(5, 60) {
        for c in &cases {
            let (e, f) = build(&mut ctx.rng, c);
            read(ctx, e, &f);
        }
    }
}
