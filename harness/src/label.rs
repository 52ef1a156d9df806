//! Labels: pixels as opaque integers. Label 0 is the type's default colour, label k > 0 a colour
//! whose four raw channels are 16k, 16k+1, 16k+2, 16k+3 (exact in f32).
use d10::*;

pub fn col<T: Color>(k: i64) -> T {
    let mut c = T::default();
    if k > 0 {
        for (i, v) in c.data_mut().iter_mut().enumerate() {
            *v = (k * 16 + i as i64) as f32;
        }
    }
    c
}
/// the label of a colour, -1 if it is none
pub fn lab<T: Color>(c: &T) -> i64 {
    let d = c.data();
    let same = |k: i64| col::<T>(k).data().iter().zip(d).all(|(a, b)| a.to_bits() == b.to_bits());
    if same(0) {
        return 0;
    }
    if d.is_empty() || !(d[0] >= 16.0 && d[0] < 1.6e7) {
        return -1;
    }
    let k = d[0] as i64 / 16;
    if same(k) { k } else { -1 }
}
pub fn buf<T: Color>(w: u32, h: u32, px: &[i64]) -> PixelBuffer<T> {
    PixelBuffer::new_from_raw(w, h, px.iter().map(|k| col(*k)).collect())
}
pub fn px<T: Color>(d: &[T]) -> Vec<i64> {
    d.iter().map(lab).collect()
}

/// Content of images too large for a trace (Wide.tla)
pub fn wide_label(i: i64) -> i64 {
    (i * 31 + (i / 251) * 7 + 7) % 997 + 1
}
pub fn wide_buf<T: Color>(w: i64, h: i64) -> PixelBuffer<T> {
    PixelBuffer::new_from_raw(w as u32, h as u32, (0..w * h).map(|i| col(wide_label(i))).collect())
}
/// sizes beyond 16 bits along a side, or in the number of pixels
pub fn wide_dims(r: &mut crate::common::Rng, k: usize) -> (i64, i64) {
    let long = *r.pick(&[(65536, 1), (65537, 1), (65538, 2), (65536, 2), (65537, 3), (70000, 3), (131073, 1)]);
    match k % 3 {
        0 => long,
        1 => (long.1, long.0),
        _ => *r.pick(&[(257, 256), (256, 257), (300, 300), (32768, 3), (3, 40000), (65535, 2), (2, 65535), (256, 256)]),
    }
}
/// a position along a side of n: the ends, around the 16-bit border, anywhere
pub fn wide_at(r: &mut crate::common::Rng, n: i64) -> i64 {
    let v = match r.below(6) {
        0 => r.range(0, 3),
        1 => n - 1 - r.range(0, 3),
        2 => 65534 + r.range(0, 4),
        3 => 32766 + r.range(0, 3),
        4 => r.range(254, 258),
        _ => r.range(0, n - 1),
    };
    if v < 0 || v >= n { r.range(0, n - 1) } else { v }
}
