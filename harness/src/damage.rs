//! X05: truncated, corrupted and arbitrary data.
use crate::codec::{lossless, lossy_with, picture, LOSSLESS};
use crate::common::*;
use crate::foreign;
use d10::*;
use serde_json::{json, Value};

/// a sound file, its segments (start of each one), the end of its image data
struct Sample {
    fmt: String,
    bytes: Vec<u8>,
    starts: Vec<usize>,
    complete: usize,
    /// bytes under a checksum that guards the image: from, behind
    guarded: Vec<(usize, usize)>,
}
fn be4(b: &[u8], i: usize) -> usize {
    b.get(i..i + 4).map(|v| u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as usize).unwrap_or(0)
}
fn le4(b: &[u8], i: usize) -> usize {
    b.get(i..i + 4).map(|v| u32::from_le_bytes([v[0], v[1], v[2], v[3]]) as usize).unwrap_or(0)
}
fn le2(b: &[u8], i: usize) -> usize {
    b.get(i..i + 2).map(|v| u16::from_le_bytes([v[0], v[1]]) as usize).unwrap_or(0)
}
fn sample(fmt: &str, bytes: Vec<u8>) -> Sample {
    let n = bytes.len();
    let mut starts = vec![0];
    let mut complete = n;
    let mut guarded = vec![];
    if fmt == "png" {
        let mut i = 8;
        while i + 8 <= n {
            starts.push(i);
            let l = be4(&bytes, i);
            if &bytes[i + 4..i + 8] == b"IHDR" {
                guarded.push((i + 8, i + 8 + l));
            }
            if &bytes[i + 4..i + 8] == b"IDAT" {
                guarded.push((i + 8, i + 8 + l));
                // the last four bytes are a checksum
                complete = i + 8 + l - 4;
            }
            i += 12 + l;
        }
    } else if fmt.starts_with("webp") {
        let mut i = 12;
        while i + 8 <= n {
            starts.push(i);
            let l = le4(&bytes, i + 4);
            if &bytes[i..i + 4] == b"VP8L" {
                complete = i + 8 + l;
            }
            i += 8 + l + l % 2;
        }
        starts.push(n / 2);
    } else if fmt == "jpeg" {
        let mut i = 2;
        while i + 4 <= n && bytes[i] == 0xFF && bytes[i + 1] != 0xD9 {
            starts.push(i);
            let l = (bytes[i + 2] as usize) << 8 | bytes[i + 3] as usize;
            if bytes[i + 1] == 0xDA {
                starts.push(i + 2 + l);
                break;
            }
            i += 2 + l;
        }
    } else {
        for k in [14, 26, 54, n / 2, n.saturating_sub(2)] {
            if k < n {
                starts.push(k);
            }
        }
    }
    starts.sort();
    starts.dedup();
    Sample { fmt: fmt.into(), bytes, starts, complete, guarded }
}
/// would decoding this need an enormous amount of memory?
fn too_large(b: &[u8]) -> bool {
    const MAX: u64 = 1 << 21;
    let big = |w: usize, h: usize| w as u64 * h as u64 > MAX;
    if b.starts_with(&[0x89, b'P']) || b.starts_with(&[0, 0]) {
        for i in 0..b.len().saturating_sub(12) {
            if &b[i..i + 4] == b"IHDR" && big(be4(b, i + 4), be4(b, i + 8)) {
                return true;
            }
        }
    }
    let dib = |i: usize| match le4(b, i) {
        12 => big(le2(b, i + 4), le2(b, i + 6)),
        _ => big((le4(b, i + 4) as u32 as i32).unsigned_abs() as usize, (le4(b, i + 8) as u32 as i32).unsigned_abs() as usize),
    };
    if b.starts_with(b"BM") && dib(14) {
        return true;
    }
    if b.starts_with(&[0, 0, 1, 0]) {
        for k in 0..le2(b, 4).min(b.len() / 16) {
            let at = le4(b, 6 + 16 * k + 12);
            if at < b.len() && dib(at) {
                return true;
            }
        }
    }
    if b.starts_with(&[0xFF, 0xD8]) {
        for i in 0..b.len().saturating_sub(9) {
            if b[i] == 0xFF && (0xC0..=0xCF).contains(&b[i + 1]) {
                let d = |k: usize| (b[i + k] as usize) << 8 | b[i + k + 1] as usize;
                if big(d(5), d(7)) {
                    return true;
                }
            }
        }
    }
    if b.starts_with(b"GIF8") {
        for i in 0..b.len().saturating_sub(9) {
            if b[i] == 0x2C && big(le2(b, i + 5), le2(b, i + 7)) && i < 1200 {
                return true;
            }
        }
    }
    if b.starts_with(b"RIFF") {
        for i in 12..b.len().saturating_sub(18) {
            if &b[i..i + 4] == b"VP8L" {
                let v = le4(b, i + 9);
                if big((v & 0x3FFF) + 1, (v >> 14 & 0x3FFF) + 1) {
                    return true;
                }
            }
            if &b[i..i + 4] == b"VP8 " && big(le2(b, i + 14) & 0x3FFF, le2(b, i + 16) & 0x3FFF) {
                return true;
            }
        }
    }
    false
}
fn decode(e: &mut Value, b: &[u8]) {
    match guard(|| Image::read_from_buffer(b)) {
        Ok(Ok(i)) => {
            e["res"] = json!("image");
            e["w"] = json!(i.width());
            e["h"] = json!(i.height());
            e["n"] = json!(i.data().len());
            let (mut lo, mut hi, mut bad) = (0.5f32, 0.5f32, 0);
            for v in i.data().iter().flat_map(|c| c.data) {
                if v.is_finite() {
                    lo = lo.min(v);
                    hi = hi.max(v);
                } else {
                    bad += 1;
                }
            }
            // gamma conversion is single precision
            let near = |v: f32| if v > 1.0 && v < 1.00001 { 1.0 } else { v };
            e["lo"] = json!(fx(lo as f64, 100000.0));
            e["hi"] = json!(fx(near(hi) as f64, 100000.0));
            e["bad"] = json!(bad);
        }
        Ok(Err(_)) => e["res"] = json!("error"),
        Err(p) => e["res"] = json!(format!("panic: {}", p)),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(3000).map(|x| format!("{:02x}", x)).collect()
}
fn cut(ctx: &mut Ctx, s: &Sample, kept: usize) {
    let mut e = json!({"op": "cut", "fmt": s.fmt, "kept": kept, "size": s.bytes.len(), "complete": s.complete});
    ctx.mark(&e);
    decode(&mut e, &s.bytes[..kept]);
    if gs(&e, "res") != "error" {
        e["data"] = json!(hex(&s.bytes[..kept.min(400)]));
    }
    ctx.stateless();
    ctx.emit(e);
}
/// one changed byte of guarded data
fn flip(ctx: &mut Ctx, s: &Sample, at: usize, mask: u8) {
    let mut b = s.bytes.clone();
    b[at] ^= mask;
    if too_large(&b) {
        return;
    }
    let mut e = json!({"op": "flip", "fmt": s.fmt, "at": at, "mask": mask, "size": b.len()});
    ctx.mark(&e);
    decode(&mut e, &b);
    if gs(&e, "res") != "error" {
        e["data"] = json!(hex(&b[..b.len().min(400)]));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn damage(ctx: &mut Ctx, fmt: &str, how: Value, b: &[u8]) {
    if too_large(b) {
        return;
    }
    let mut e = json!({"op": "damage", "fmt": fmt, "how": how, "size": b.len()});
    let mut m = e.clone();
    m["data"] = json!(hex(b));
    ctx.mark(&m);
    decode(&mut e, b);
    if gs(&e, "res").starts_with("panic") {
        e["data"] = json!(hex(b));
    }
    ctx.stateless();
    ctx.emit(e);
}
fn pool(r: &mut Rng, n: u64) -> Vec<Sample> {
    let mut v = vec![];
    for k in 0..n {
        for name in LOSSLESS {
            let (w, h) = if k == 0 { (3, 2) } else { (r.range(1, 24), r.range(1, 20)) };
            let i = Image::new_from_buffer(picture(r, w, h));
            let fmt = if name == "webp" { "webp_lossless" } else { name.split('_').next().unwrap() };
            if let Ok(b) = i.save_to_buffer(lossless(name, r.below(3) as usize, r.below(5) as usize)) {
                v.push(sample(fmt, b));
            }
        }
        for name in ["jpeg", "jpeg", "jpeg", "gif", "webp", "webp"] {
            let (w, h) = (r.range(1, 40), r.range(1, 30));
            let i = Image::new_from_buffer(picture(r, w, h));
            if let Ok(b) = i.save_to_buffer(lossy_with(r, name)) {
                v.push(sample(name, b));
            }
        }
        for c in [
            json!({"kind": "png", "ctype": 3, "bits": 4, "trns": true, "interlace": true, "parts": 3}), json!({"kind": "png", "ctype": 0, "bits": 2, "trns": true, "parts": 1}),
            json!({"kind": "png", "ctype": 2, "bits": 16, "trns": true, "interlace": true, "parts": 3}), json!({"kind": "png", "ctype": 4, "bits": 16, "interlace": true, "parts": 3}),
            json!({"kind": "bmp", "bits": 1}), json!({"kind": "bmp", "bits": 4, "topdown": true}), json!({"kind": "bmp", "bits": 8}), json!({"kind": "bmp", "bits": 16}),
            json!({"kind": "gif", "bits": 4, "interlace": true, "local": true, "trns": true}), json!({"kind": "ico", "bits": 32}), json!({"kind": "ico", "bits": 8}),
            json!({"kind": "ico", "bits": 24}), json!({"kind": "cmyk", "sampling": 1}),
        ] {
            let (_, b) = foreign::build(r, &c);
            let k = gs(&c, "kind");
            v.push(sample(if k == "cmyk" { "jpeg" } else { k }, b));
        }
    }
    v
}
/// a scripted damage to the segments of a file
fn scripted(s: &Sample, script: &[Value]) -> Vec<u8> {
    let n = s.bytes.len();
    let mut segs: Vec<Vec<u8>> = (0..s.starts.len()).map(|i| s.bytes[s.starts[i]..s.starts.get(i + 1).copied().unwrap_or(n)].to_vec()).collect();
    for x in script {
        if segs.is_empty() {
            break;
        }
        // the first segments are the heads, the last ones the end
        let pos = |k: i64, l: usize| if k <= 2 { (k as usize - 1).min(l - 1) } else { l - (5 - k.min(5)) as usize % l - 1 };
        let l = segs.len();
        let i = pos(gi(x, "i"), l);
        let j = gi(x, "j");
        match gs(x, "op") {
            "cut" => {
                let keep = segs[i].len() * j as usize / 4;
                segs.truncate(i + 1);
                segs[i].truncate(keep);
            }
            "drop" => {
                segs.remove(i);
            }
            "dup" => {
                let d = segs[i].clone();
                segs.insert(i, d);
            }
            "swap" => segs.swap(i, pos(j, l)),
            _ => {
                let m = segs[i].len();
                if m > 0 {
                    let at = (m - 1) * j as usize / 3;
                    segs[i][at] ^= 0x41 << (j % 2);
                }
            }
        }
    }
    segs.concat()
}
fn random_damage(r: &mut Rng, s: &Sample, other: &[u8]) -> (Value, Vec<u8>) {
    let mut b = s.bytes.clone();
    let mut how = vec![];
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 8]) {
        if b.is_empty() {
            break;
        }
        let n = b.len() as u64;
        // headers are more interesting
        let at = if r.chance(1, 2) { r.below(n.min(60)) } else { r.below(n) } as usize;
        let k = r.below(9);
        how.push(json!([k, at]));
        match k {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xFE]),
            2 => b[at] = r.below(256) as u8,
            3 => b.truncate(at),
            4 => {
                let m = (r.below(20) as usize).min(b.len() - at);
                b.drain(at..at + m);
            }
            5 => {
                let x: Vec<u8> = (0..r.below(12)).map(|_| r.below(256) as u8).collect();
                b.splice(at..at, x);
            }
            6 => {
                let m = (r.below(40) as usize).min(b.len() - at);
                let x = b[at..at + m].to_vec();
                b.splice(at..at, x);
            }
            7 if !other.is_empty() => {
                let o = r.below(other.len() as u64) as usize;
                let m = (r.below(60) as usize).min(other.len() - o).min(b.len() - at);
                b[at..at + m].copy_from_slice(&other[o..o + m]);
            }
            _ => {
                for i in 0..2.min(b.len() - at) {
                    b[at + i] = *r.pick(&[0, 0xFF, 0x7F, 0x80]);
                }
            }
        }
    }
    // repair the checksums of PNG chunks half of the time: the damage goes deeper
    if s.fmt == "png" && r.chance(1, 2) {
        let mut i = 8;
        while i + 12 <= b.len() {
            let l = be4(&b, i);
            if l > b.len() || i + 12 + l > b.len() {
                break;
            }
            let c = foreign::crc32(&b[i + 4..i + 8 + l]);
            b[i + 8 + l..i + 12 + l].copy_from_slice(&c.to_be_bytes());
            i += 12 + l;
        }
    }
    (json!(how), b)
}
/// a whole file in which there is no picture
fn hollow(r: &mut Rng, k: u64) -> (&'static str, Vec<u8>) {
    let (w, h) = (r.range(1, 40) as u16, r.range(1, 40) as u16);
    let mut v = vec![];
    match k {
        0 => {
            // GIF: screen, colours, extensions, end
            v.extend(if r.chance(1, 2) { b"GIF89a" } else { b"GIF87a" });
            v.extend(w.to_le_bytes());
            v.extend(h.to_le_bytes());
            let colours = r.chance(1, 2);
            v.extend([if colours { 0x80 } else { 0 }, 0, 0]);
            if colours {
                v.extend([0, 0, 0, 255, 255, 255]);
            }
            if r.chance(1, 2) {
                v.extend([0x21, 0xFE, 2, b'h', b'i', 0]);
            }
            if r.chance(1, 3) {
                v.extend([0x21, 0xF9, 4, 1, 0, 0, 0, 0]);
            }
            v.push(0x3B);
            ("gif", v)
        }
        1 => {
            v.extend([0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A]);
            let mut d = (w as u32).to_be_bytes().to_vec();
            d.extend((h as u32).to_be_bytes());
            d.extend([8, *r.pick(&[0, 2, 4, 6]), 0, 0, r.below(2) as u8]);
            v.extend(foreign::chunk(b"IHDR", &d));
            if r.chance(1, 2) {
                v.extend(foreign::chunk(b"tEXt", b"Comment\0nothing here"));
            }
            if r.chance(1, 3) {
                v.extend(foreign::chunk(b"IDAT", &[]));
            }
            v.extend(foreign::chunk(b"IEND", &[]));
            ("png", v)
        }
        2 => {
            v.extend([0xFF, 0xD8]);
            if r.chance(1, 2) {
                v.extend([0xFF, 0xE0, 0, 16, b'J', b'F', b'I', b'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0]);
            }
            if r.chance(1, 2) {
                v.extend([0xFF, 0xFE, 0, 4, b'h', b'i']);
            }
            if r.chance(1, 2) {
                v.extend([0xFF, 0xC0, 0, 11, 8]);
                v.extend(h.to_be_bytes());
                v.extend(w.to_be_bytes());
                v.extend([1, 1, 0x11, 0]);
            }
            v.extend([0xFF, 0xD9]);
            ("jpeg", v)
        }
        3 => ("ico", vec![0, 0, 1, 0, 0, 0]),
        4 => {
            // a header only
            v.extend(b"BM");
            v.extend(54u32.to_le_bytes());
            v.extend([0, 0, 0, 0, 54, 0, 0, 0, 40, 0, 0, 0]);
            v.extend((w as u32).to_le_bytes());
            v.extend((h as u32).to_le_bytes());
            v.extend([1, 0, *r.pick(&[24, 32]), 0]);
            v.extend([0; 24]);
            ("bmp", v)
        }
        _ => {
            let mut d = vec![b'W', b'E', b'B', b'P'];
            if r.chance(1, 2) {
                d.extend(b"VP8X");
                d.extend([10, 0, 0, 0, if r.chance(1, 2) { 0x10 } else { 0 }, 0, 0, 0]);
                d.extend([w as u8 - 1, 0, 0, h as u8 - 1, 0, 0]);
            }
            if r.chance(1, 2) {
                d.extend([b'X', b'M', b'P', b' ', 2, 0, 0, 0, b'h', b'i']);
            }
            v.extend(b"RIFF");
            v.extend((d.len() as u32).to_le_bytes());
            v.extend(d);
            ("webp", v)
        }
    }
}
pub fn x05(ctx: &mut Ctx) {
    for _ in 0..ctx.n(20, 100) {
        for k in 0..6 {
            let (fmt, b) = hollow(&mut ctx.rng, k);
            let mut e = json!({"op": "hollow", "fmt": fmt, "data": hex(&b)});
            ctx.mark(&e);
            decode(&mut e, &b);
            ctx.stateless();
            ctx.emit(e);
        }
    }
    let n = ctx.n(2, 6);
    let all = pool(&mut ctx.rng, n);
    // cut everywhere
    for s in &all {
        let n = s.bytes.len();
        for kept in 0..=n {
            if n < 300 || ctx.thorough || kept < 40 || kept + 30 > n || ctx.rng.chance(150, n as u64) || kept == s.complete {
                cut(ctx, s, kept);
            }
        }
    }
    // one changed byte of guarded data
    for s in &all {
        for (from, behind) in s.guarded.clone() {
            let every = ctx.thorough || behind - from < 60;
            for at in from..behind {
                if every || ctx.rng.chance(60, (behind - from) as u64) {
                    let mask = if ctx.rng.chance(1, 2) { 1 << ctx.rng.below(8) } else { ctx.rng.range(1, 255) as u8 };
                    flip(ctx, s, at, mask);
                }
            }
        }
    }
    // scripts of the specification
    let cases = ctx.cases();
    let per = ctx.n(3, 2);
    for (k, c) in cases.iter().enumerate() {
        for j in 0..per as usize {
            let s = &all[(k * per as usize + j * 17 + k / 5) % all.len()];
            let b = scripted(s, c.as_array().unwrap());
            damage(ctx, &s.fmt, c.clone(), &b);
        }
    }
    for _ in 0..ctx.n(9000, 120_000) {
        let i = ctx.rng.below(all.len() as u64) as usize;
        let o = ctx.rng.below(all.len() as u64) as usize;
        let (how, b) = random_damage(&mut ctx.rng, &all[i], &all[o].bytes);
        damage(ctx, &all[i].fmt, how, &b);
    }
    // arbitrary data behind a signature
    let heads: [&[u8]; 7] = [&[], &[0xFF, 0xD8, 0xFF], &[0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A], b"GIF89a", b"BM", &[0, 0, 1, 0], b"RIFF\xFF\0\0\0WEBPVP8 "];
    for _ in 0..ctx.n(1500, 20_000) {
        let mut b = ctx.rng.pick(&heads).to_vec();
        let zeros = ctx.rng.chance(1, 2);
        for _ in 0..ctx.rng.below(120) {
            let x = if zeros && ctx.rng.chance(2, 3) { ctx.rng.below(3) } else { ctx.rng.below(256) };
            b.push(x as u8);
        }
        damage(ctx, "junk", json!([]), &b);
    }
}
