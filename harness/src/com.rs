//! Shared helpers: colour alphabets and an independent re-statement of the documented colour metric.
#![allow(dead_code)]
use crate::sym::*;
use imagequant::*;

pub const fn c(r: u8, g: u8, b: u8, a: u8) -> RGBA { RGBA { r, g, b, a } }
/// 16 colours: opaque extremes, near-duplicates, semi-transparent and fully transparent ones
pub static ALPHA16: [RGBA; 16] = [
    c(0, 0, 0, 255), c(255, 255, 255, 255), c(255, 0, 0, 255), c(0, 255, 0, 255),
    c(0, 0, 255, 255), c(128, 128, 128, 255), c(129, 128, 127, 255), c(10, 20, 200, 255),
    c(0, 0, 0, 0), c(255, 255, 255, 0), c(255, 0, 0, 128), c(0, 255, 0, 1),
    c(200, 100, 50, 254), c(200, 100, 50, 255), c(1, 2, 3, 255), c(254, 253, 3, 64),
];
/// 8 opaque colours
pub static OPAQ8: [RGBA; 8] = [
    c(0, 0, 0, 255), c(255, 255, 255, 255), c(255, 0, 0, 255), c(0, 200, 0, 255),
    c(10, 20, 200, 255), c(128, 128, 128, 255), c(140, 128, 120, 255), c(250, 240, 5, 255),
];
pub fn same(a: RGBA, b: RGBA) -> bool { ((a.a == 0) & (b.a == 0)) | ((a.r == b.r) & (a.g == b.g) & (a.b == b.b) & (a.a == b.a)) }
pub fn eq(a: RGBA, b: RGBA) -> bool { (a.r == b.r) & (a.g == b.g) & (a.b == b.b) & (a.a == b.a) }
pub fn ok<T>(r: Result<T, Error>) -> T { match r { Ok(v) => v, Err(_) => { check(false, "unexpected error from a valid call"); std::process::exit(9) } } }
pub fn some<T>(r: Option<T>) -> T { match r { Some(v) => v, None => { check(false, "unexpected None from a valid call"); std::process::exit(9) } } }
/// all pixel values of a palette slice, padded with zeros, in a fixed-size buffer
pub fn obs_pal(p: &[RGBA]) { observe(p.len() as u64); for x in p { observe(u64::from(x.r) | u64::from(x.g) << 8 | u64::from(x.b) << 16 | u64::from(x.a) << 24); } }
pub fn obs_idx(p: &[u8]) { for x in p { observe(u64::from(*x)); } }

/// Premultiplied colour in the library's working space, recomputed from 8-bit RGBA.
pub struct Metric { lut: [f32; 256] }
impl Metric {
    pub fn new(gamma: f64) -> Self { let mut lut = [0f32; 256]; for (i, t) in lut.iter_mut().enumerate() { *t = (i as f32 / 255.).powf((0.57 / gamma) as f32); } Self { lut } }
    pub fn f(&self, p: RGBA) -> [f32; 4] { let a = p.a as f32 / 255.; [a * 0.625, self.lut[p.r as usize] * 0.5 * a, self.lut[p.g as usize] * a, self.lut[p.b as usize] * 0.45 * a] }
    /// worst-case squared distance over black and over white backgrounds, summed over colour channels
    pub fn dist(&self, p: RGBA, q: RGBA) -> f32 {
        Self::dist_f(self.f(p), self.f(q))
    }
    pub fn dist_f(x: [f32; 4], y: [f32; 4]) -> f32 {
        let al = y[0] - x[0];
        let mut s = 0.;
        for i in 1..4 { let b = x[i] - y[i]; let w = b + al; let (b, w) = (b * b, w * w); s += if b > w { b } else { w }; }
        s
    }
}

pub const SPEEDS: [&[i32]; 7] = [&[4], &[1, 4, 7, 8, 10], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], &[1, 3, 7], &[1, 5, 10], &[10], &[6, 8, 10]];
pub const COLORS: [&[u32]; 6] = [&[256], &[2], &[2, 3, 256], &[2, 3, 4, 5, 7, 16, 255, 256], &[2, 4], &[3]];
pub fn speed(id: u64) -> i32 { let l = SPEEDS[id as usize]; l[choose(l.len() as u64, "speed") as usize] }
pub fn colors(id: u64) -> u32 { let l = COLORS[id as usize]; l[choose(l.len() as u64, "max_colors") as usize] }
pub fn attr(s: i32, n: u32) -> Attributes { let mut a = Attributes::new(); ok(a.set_speed(s)); ok(a.set_max_colors(n)); a }
pub fn alphabet(id: u64) -> &'static [RGBA] { match id { 0 => &ALPHA16, 1 => &OPAQ8, 2 => &ALPHA16[..8], 3 => &ALPHA16[8..], 4 => &MIX4, 6 => &NEAR8, 8 => &OPAQ8, _ => &MIX8 } }
pub static MIX4: [RGBA; 4] = [c(0, 0, 0, 255), c(250, 128, 3, 255), c(10, 90, 250, 128), c(0, 0, 0, 0)];
/// colours close to each other
pub static NEAR8: [RGBA; 8] = [c(100, 100, 100, 255), c(103, 100, 100, 255), c(100, 104, 100, 255), c(107, 100, 100, 255), c(100, 101, 100, 255), c(96, 100, 100, 250), c(100, 110, 100, 255), c(120, 100, 100, 255)];
pub static MIX8: [RGBA; 8] = [c(0, 0, 0, 255), c(255, 255, 255, 255), c(250, 128, 3, 255), c(250, 130, 3, 255), c(10, 90, 250, 128), c(255, 255, 255, 254), c(90, 0, 0, 1), c(0, 0, 0, 0)];
/// filler for pixels that are not symbolic
pub fn fill(i: usize) -> RGBA { let v = (i as u8).wrapping_mul(37); match i % 7 { 5 => c(v, 255 - v, 9, 128), 6 => c(v, v, v, 0), _ => c(v, v.wrapping_mul(3), 200u8.wrapping_sub(v), 255) } }
/// a different colour for each of the first 2^22 pixels
pub fn fill_many(i: usize) -> RGBA { c((i as u8).wrapping_mul(7), (i >> 8) as u8 ^ (i as u8) << 3, ((i >> 16) as u8) << 2 | (i as u8) >> 6, 255) }
pub fn fill_opaque(i: usize) -> RGBA { let v = (i as u8).wrapping_mul(37); c(v, v.wrapping_mul(3), 200u8.wrapping_sub(v), 255) }
/// w×h pixels, n of them (spread over the image) taken symbolically from the alphabet
pub fn pixels(w: usize, h: usize, alpha: &'static [RGBA], n: usize, filler: fn(usize) -> RGBA) -> Vec<RGBA> {
    let len = w * h;
    let mut px = Vec::with_capacity(len);
    for i in 0..len { px.push(filler(i)); }
    for k in 0..n.min(len) { let at = if n >= len { k } else { k * (len - 1) / (n - 1).max(1) }; px[at] = alpha[pick(alpha.len() as u64, "px")]; }
    px
}
/// the image described by params 0..=3: width, height, alphabet, number of symbolic pixels
pub struct Scene { pub w: usize, pub h: usize, pub px: Vec<RGBA>, pub opaque: bool }
pub fn scene() -> Scene {
    let (w, h) = (param(0) as usize, param(1) as usize);
    let al = param(2);
    let opaque = al == 1 || al == 2 || al == 8;
    let filler = if al >= 7 { fill_many } else if opaque { fill_opaque } else { fill };
    Scene { w, h, px: pixels(w, h, alphabet(al), param(3) as usize, filler), opaque }
}
