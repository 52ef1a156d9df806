//! Reference colour mathematics in f64, written from the published definitions (independent of
//! the code under test). Used for oracle values of transcendental functions only; what an
//! operation does with these values is stated in the TLA+ specifications.
pub type C = [f64; 3];

pub fn lin(v: f64) -> f64 {
    if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) }
}
pub fn gam(v: f64) -> f64 {
    if v <= 0.003130805 { 12.92 * v } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 }
}
pub fn srgb(c: C) -> C {
    c.map(gam)
}
fn mul(m: [[f64; 3]; 3], c: C) -> C {
    [0, 1, 2].map(|i| m[i][0] * c[0] + m[i][1] * c[1] + m[i][2] * c[2])
}
pub fn xyz(c: C) -> C {
    mul([[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]], c)
}
pub fn xyz_rgb(c: C) -> C {
    mul([[3.240479, -1.53715, -0.498535], [-0.969256, 1.875991, 0.041556], [0.055648, -0.204043, 1.057311]], c)
}
pub fn yuv(c: C) -> C {
    let s = srgb(c);
    let y = 0.299 * s[0] + 0.587 * s[1] + 0.114 * s[2];
    [y, 0.492111 * (s[2] - y), 0.877283 * (s[0] - y)]
}
pub const REFS: [[[f64; 3]; 2]; 3] = [
    [[0.964212, 1.0, 0.8251883], [0.9672063, 1.0, 0.81428015]],
    [[0.95047, 1.0, 1.08883], [0.9480967, 1.0, 1.0730513]],
    [[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]],
];
/// L in 0..1, a and b divided by 128
pub fn lab(c: C, refs: [f64; 3]) -> C {
    let f = |t: f64| if t > 0.008856 { t.cbrt() } else { (903.3 * t + 16.0) / 116.0 };
    let x = xyz(c);
    let (fx, fy, fz) = (f(x[0] / refs[0]), f(x[1] / refs[1]), f(x[2] / refs[2]));
    [(116.0 * fy - 16.0) / 100.0, 500.0 * (fx - fy) / 128.0, 200.0 * (fy - fz) / 128.0]
}
pub fn lab_rgb(l: C, refs: [f64; 3]) -> C {
    let f = |t: f64| if t > 6.0 / 29.0 { t * t * t } else { (t - 16.0 / 116.0) / 7.787 };
    let fy = (l[0] * 100.0 + 16.0) / 116.0;
    let fx = l[1] * 128.0 / 500.0 + fy;
    let fz = fy - l[2] * 128.0 / 200.0;
    xyz_rgb([f(fx) * refs[0], f(fy) * refs[1], f(fz) * refs[2]])
}
pub fn lch(c: C, refs: [f64; 3]) -> C {
    let l = lab(c, refs);
    [l[0], l[1].hypot(l[2]), l[2].atan2(l[1])]
}
pub fn lch_rgb(l: C, refs: [f64; 3]) -> C {
    lab_rgb([l[0], l[1] * l[2].cos(), l[1] * l[2].sin()], refs)
}
pub const D65: [f64; 3] = REFS[1][0];
/// hue in 0..1
pub fn hsl(c: C) -> C {
    let (mx, mn) = (c[0].max(c[1]).max(c[2]), c[0].min(c[1]).min(c[2]));
    let d = mx - mn;
    let l = (mx + mn) / 2.0;
    if d == 0.0 {
        return [0.0, 0.0, l];
    }
    [hue(c), d / (1.0 - (2.0 * l - 1.0).abs()), l]
}
pub fn hsv(c: C) -> C {
    let (mx, mn) = (c[0].max(c[1]).max(c[2]), c[0].min(c[1]).min(c[2]));
    if mx == mn {
        return [0.0, 0.0, mx];
    }
    [hue(c), (mx - mn) / mx, mx]
}
fn hue(c: C) -> f64 {
    let (mx, mn) = (c[0].max(c[1]).max(c[2]), c[0].min(c[1]).min(c[2]));
    let d = mx - mn;
    let h = if mx == c[0] { (c[1] - c[2]) / d } else if mx == c[1] { 2.0 + (c[2] - c[0]) / d } else { 4.0 + (c[0] - c[1]) / d };
    (h / 6.0).rem_euclid(1.0)
}
