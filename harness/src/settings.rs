use crate::com::*;
use crate::sym::*;
use imagequant::*;
use imagequant_sys::*;

/// a full-range 32-bit value: an arbitrary low byte and arbitrary upper 24 bits
fn wide32() -> u32 { if param(1) > 0 { return [0, 1, 4, 5, 50, 100, 101, u32::MAX][pick(8, "v")]; } let lo = u32::from(u8_("lo")); if bool_("small") { lo } else { let hi = bits(24, "hi") as u32; assume(hi != 0); hi << 8 | lo } }

struct Model { colors: u32, speed: u32, post: u32, qmin: u32, qmax: u32 }
const FRESH: Model = Model { colors: 256, speed: 4, post: 0, qmin: 0, qmax: 100 };

fn agree(a: &Attributes, m: &Model) {
    check(a.max_colors() == m.colors, "max colours reads back");
    check(a.speed() == m.speed, "speed reads back");
    check(u32::from(a.min_posterization()) == m.post, "posterization reads back");
    let (lo, hi) = a.quality();
    check((u32::from(lo) == m.qmin) & (u32::from(hi) == m.qmax), "quality range reads back");
}
fn expect(r: Result<(), Error>, valid: bool) -> bool {
    match r {
        Ok(()) => { check(valid, "an out-of-range setting was accepted"); true }
        Err(e) => { check(!valid, "a valid setting was rejected"); check(e == Error::ValueOutOfRange, "rejection is reported as value out of range"); false }
    }
}
/// Rust API: a sequence of param(0) setting changes with arbitrary values
pub fn set_rust() {
    let mut a = Attributes::new();
    let mut m = FRESH;
    agree(&a, &m);
    for _ in 0..param(0) {
        match choose(5, "setting") {
            0 => { let v = u32_("colors"); if expect(a.set_max_colors(v), (v >= 2) & (v <= 256)) { m.colors = v; cover("colors ok"); } else { cover("colors rejected"); } }
            1 => { let v = u32_("speed") as i32; if expect(a.set_speed(v), (v >= 1) & (v <= 10)) { m.speed = v as u32; cover("speed ok"); } else { cover("speed rejected"); } }
            2 => { let v = u8_("post"); if expect(a.set_min_posterization(v), v <= 4) { m.post = v.into(); cover("post ok"); } else { cover("post rejected"); } }
            3 => { let (lo, hi) = if param(1) > 0 { const Q: [u8; 8] = [0, 1, 29, 50, 99, 100, 101, 255]; (Q[pick(8, "qmin")], Q[pick(8, "qmax")]) } else { (u8_("qmin"), u8_("qmax")) }; if expect(a.set_quality(lo, hi), (lo <= hi) & (hi <= 100)) { m.qmin = lo.into(); m.qmax = hi.into(); cover("quality ok"); } else { cover("quality rejected"); } }
            _ => { a.set_last_index_transparent(bool_("last")); }
        }
        agree(&a, &m);
    }
    let b = a.clone();
    agree(&b, &m);
    drop(a);
    agree(&b, &m);
}

fn agree_c(a: &liq_attr, m: &Model) {
    check(liq_get_max_colors(a) == m.colors, "C: max colours reads back");
    check(liq_get_speed(a) == m.speed, "C: speed reads back");
    check(liq_get_min_posterization(a) == m.post, "C: posterization reads back");
    check((liq_get_min_quality(a) == m.qmin) & (liq_get_max_quality(a) == m.qmax), "C: quality range reads back");
}
fn expect_c(r: liq_error, valid: bool) -> bool {
    if r == liq_error::LIQ_OK { check(valid, "C: an out-of-range setting was accepted"); true }
    else { check(!valid, "C: a valid setting was rejected"); check(r == liq_error::ValueOutOfRange, "C: rejection is reported as value out of range"); false }
}
pub fn set_capi() {
    let mut a = some(liq_attr_create());
    let mut m = FRESH;
    agree_c(&a, &m);
    for _ in 0..param(0) {
        match choose(5, "setting") {
            0 => { let v = u32_("colors"); if expect_c(liq_set_max_colors(&mut a, v), (v >= 2) & (v <= 256)) { m.colors = v; cover("colors ok"); } else { cover("colors rejected"); } }
            1 => { let v = u32_("speed") as i32; if expect_c(liq_set_speed(&mut a, v), (v >= 1) & (v <= 10)) { m.speed = v as u32; cover("speed ok"); } else { cover("speed rejected"); } }
            2 => { let v = wide32() as i32; if expect_c(liq_set_min_posterization(&mut a, v), (v >= 0) & (v <= 4)) { m.post = v as u32; cover("post ok"); } else { cover("post rejected"); } }
            3 => { let (lo, hi) = (wide32(), wide32()); if expect_c(liq_set_quality(&mut a, lo, hi), (lo <= hi) & (hi <= 100)) { m.qmin = lo; m.qmax = hi; cover("quality ok"); } else { cover("quality rejected"); } }
            _ => { liq_set_last_index_transparent(&mut a, u32_("last") as i32); }
        }
        agree_c(&a, &m);
    }
    let b = some(liq_attr_copy(&a));
    agree_c(&b, &m);
    liq_attr_destroy(Some(a));
    agree_c(&b, &m);
    liq_attr_destroy(Some(b));
}

fn tiny() -> QuantizationResult {
    let a = Attributes::new();
    let px = [c(1, 2, 3, 255), c(200, 100, 50, 255), c(9, 9, 200, 128)];
    let mut img = ok(a.new_image(&px[..], 3, 1, 0.));
    ok(a.quantize(&mut img))
}
/// dithering level and output gamma: arbitrary floating-point bit patterns
pub fn set_result() {
    let mut r = tiny();
    let g0 = r.output_gamma();
    check(g0 == 0.45455, "default output gamma is sRGB");
    if bool_("capi") { return set_result_c(); }
    let valid_g = |v: f64| (v > 0.) & (v < 1.);
    let valid_d = |v: f32| (v >= 0.) & (v <= 1.);
    if bool_("which") {
        let v = f64_("gamma");
        if expect(r.set_output_gamma(v), valid_g(v)) { check(r.output_gamma().to_bits() == v.to_bits(), "gamma reads back"); cover("gamma ok"); }
        else { check(r.output_gamma() == g0, "a rejected gamma changes nothing"); cover("gamma rejected"); }
    } else {
        let v = f32_("dither");
        if expect(r.set_dithering_level(v), valid_d(v)) { cover("dither ok"); } else { cover("dither rejected"); }
        check(r.output_gamma() == g0, "dithering level does not change gamma");
    }
}
fn set_result_c() {
    static PX: [CRgba; 4] = [CRgba([1, 2, 3, 255]), CRgba([9, 99, 200, 255]), CRgba([0, 0, 0, 0]), CRgba([250, 2, 3, 128])];
    let mut a = some(liq_attr_create());
    let mut i = some(unsafe { liq_image_create_rgba(&a, PX.as_ptr().cast(), 2, 2, 0.) });
    let mut r = some(liq_quantize_image(&mut a, &mut i));
    let g0 = liq_get_output_gamma(&r);
    check(g0 == 0.45455, "C: default output gamma is sRGB");
    if bool_("which") {
        let v = f64_("gamma");
        if expect_c(liq_set_output_gamma(&mut r, v), (v > 0.) & (v < 1.)) { check(liq_get_output_gamma(&r).to_bits() == v.to_bits(), "C: gamma reads back"); cover("C gamma ok"); }
        else { check(liq_get_output_gamma(&r) == g0, "C: a rejected gamma changes nothing"); cover("C gamma rejected"); }
    } else {
        let v = f32_("dither");
        if expect_c(liq_set_dithering_level(&mut r, v), (v >= 0.) & (v <= 1.)) { cover("C dither ok"); } else { cover("C dither rejected"); }
        check(liq_get_output_gamma(&r) == g0, "C: dithering level does not change gamma");
    }
    liq_result_destroy(Some(r));
    liq_image_destroy(Some(i));
    liq_attr_destroy(Some(a));
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CRgba([u8; 4]);
/// the palette always reflects the current gamma, whatever was read or set before
pub fn set_gamma_palette() {
    const G: [f64; 6] = [0.45455, 0.1, 0.3, 0.57, 0.8, 0.999];
    let px = [c(u8_("r"), 2, 3, 255), c(200, 100, 50, 255), c(9, 9, 200, 128), c(0, 0, 0, 0)];
    let a = Attributes::new();
    let mut img = ok(a.new_image(&px[..], 4, 1, 0.));
    let mut r = ok(a.quantize(&mut img));
    let mut fresh = r.clone();
    let mut g = 0.45455;
    for _ in 0..param(0) {
        match choose(4, "op") {
            0 => { let _ = r.palette(); cover("read"); }
            1 => { g = G[choose(6, "gamma") as usize]; ok(r.set_output_gamma(g)); cover("set"); }
            2 => { check(r.set_output_gamma(1.5).is_err(), "bad gamma rejected"); }
            _ => { let _ = (r.palette_len(), r.quantization_quality(), r.output_gamma()); }
        }
    }
    ok(fresh.set_output_gamma(g));
    let p = r.palette();
    let q = fresh.palette();
    check(p.len() == q.len(), "palette length does not depend on the history");
    for i in 0..p.len() { check(eq(p[i], q[i]), "palette reflects the gamma that is set"); }
    obs_pal(p);
}
