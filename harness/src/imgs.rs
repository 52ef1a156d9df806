//! Random images with exactly representable channels, and their projection.
use crate::common::*;
use d10::*;

pub const S: f64 = 16384.0;

/// a channel value k/256 with 0, 1 and neighbours overrepresented
pub fn ch(rng: &mut Rng) -> f32 {
    match rng.below(10) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => rng.range(0, 256) as f32 / 256.0,
    }
}
pub fn alpha(rng: &mut Rng) -> f32 {
    match rng.below(4) {
        0 => 0.0,
        1 => rng.range(0, 256) as f32 / 256.0,
        _ => 1.0,
    }
}
pub fn color(rng: &mut Rng) -> Rgb {
    let a = alpha(rng);
    match rng.below(8) {
        0 => {
            let v = ch(rng);
            Rgb { data: [v, v, v, a] }
        }
        _ => Rgb { data: [ch(rng), ch(rng), ch(rng), a] },
    }
}
pub fn image(rng: &mut Rng, w: i64, h: i64) -> PixelBuffer<Rgb> {
    // few colours sometimes, so that neighbours repeat
    let few: Vec<Rgb> = (0..3).map(|_| color(rng)).collect();
    let mode = rng.below(3);
    let data = (0..w * h).map(|_| if mode == 0 { *rng.pick(&few) } else { color(rng) }).collect();
    PixelBuffer::new_from_raw(w as u32, h as u32, data)
}
/// sizes beyond the usual handful of pixels
pub fn big(r: &mut Rng) -> (i64, i64) {
    match r.below(4) {
        // beyond what a byte counts
        0 | 1 if r.chance(1, 8) => { let n = r.range(257, 420); if r.chance(1, 2) { (n, 1) } else { (1, n) } }
        0 => (r.range(17, 140), r.range(1, 2)),
        1 => (r.range(1, 2), r.range(17, 140)),
        2 => (r.range(9, 20), r.range(9, 20)),
        _ => (r.range(30, 70), r.range(2, 4)),
    }
}
pub fn px4(c: &Rgb) -> Vec<i64> {
    c.data.iter().map(|v| fx(*v as f64, S)).collect()
}
pub fn pxs(d: &[Rgb]) -> Vec<Vec<i64>> {
    d.iter().map(px4).collect()
}
pub fn c3(c: &Rgb) -> [f64; 3] {
    [c.data[0] as f64, c.data[1] as f64, c.data[2] as f64]
}
pub fn f3(c: [f64; 3]) -> Vec<i64> {
    c.iter().map(|v| fx(*v, S)).collect()
}
