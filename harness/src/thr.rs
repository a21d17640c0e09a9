//! The multi-threaded build: schedules are symbolic (harness/stubs/rayon). Params: 0..5 scene, 6 dithering, 7 kind; 13 processors, 14 symbolic scheduling decisions, 15 threads
use crate::com::*;
use crate::core::dither;
use crate::sym::*;
use imagequant::*;

fn schedule(symbolic: bool) { #[cfg(feature = "threads")] rayon::symbolic_schedule(symbolic); #[cfg(not(feature = "threads"))] let _ = symbolic; }

/// one result, remapped in order on one thread and under any schedule. 7: 0 result of an image, 1 result of a histogram
pub fn t_remap() {
    schedule(false);
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = if param(7) == 1 { let mut h = Histogram::new(&a); ok(h.add_image(&a, &mut img)); ok(h.quantize(&a)) } else { ok(a.quantize(&mut img)) };
    let d = dither(param(6));
    ok(r.set_dithering_level(d));
    let mut r2 = r.clone();
    let mut img2 = img.clone();
    let (p, ix) = ok(r.remapped(&mut img));
    schedule(true);
    let (p2, ix2) = ok(r2.remapped(&mut img2));
    schedule(false);
    check(p.len() == p2.len(), "palette length does not depend on the schedule");
    check(ix2.len() == s.px.len(), "one index per pixel under any schedule");
    for i in &ix2 { check((*i as usize) < p2.len(), "pixel index is inside the palette under any schedule"); }
    let m = Metric::new(0.45455);
    for (x, y) in p.iter().zip(&p2) {
        if param(7) == 1 { check(eq(*x, *y), "a histogram's palette does not depend on the schedule"); } else { check(near(*x, *y), "the palette does not depend on the schedule"); }
    }
    if param(7) == 1 || d == 0. {
        for (k, (x, y)) in ix.iter().zip(&ix2).enumerate() {
            check((x == y) | ((m.dist(s.px[k], p[*x as usize]) - m.dist(s.px[k], p2[*y as usize])).abs() < 1e-3), "pixels get the same colours under any schedule");
        }
    }
    errors(r.remapping_error(), r2.remapping_error());
    cover("done");
    obs_pal(&p2);
    obs_idx(&ix2);
}
fn near(x: RGBA, y: RGBA) -> bool { let d = |a: u8, b: u8| (i32::from(a) - i32::from(b)).abs() <= 1; ((x.a <= 1) & (y.a <= 1)) | (d(x.a, y.a) & d(x.r, y.r) & d(x.g, y.g) & d(x.b, y.b)) }

/// the same image quantized in order on one thread and under any schedule
pub fn t_quantize() {
    schedule(false);
    let s = scene();
    let mut a = attr(speed(param(4)), colors(param(5)));
    if bool_("limit") { ok(a.set_quality(0, 90)); }
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut img2 = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    schedule(true);
    let mut r2 = ok(a.quantize(&mut img2));
    schedule(false);
    check(r.palette_len() == r2.palette_len(), "palette length does not depend on the schedule");
    for (x, y) in r.palette().iter().zip(r2.palette()) { check(near(*x, *y), "the palette does not depend on the schedule"); }
    errors(r.quantization_error(), r2.quantization_error());
    cover("done");
    obs_pal(r2.palette());
}
fn errors(e: Option<f64>, e2: Option<f64>) {
    match (e, e2) { (Some(e), Some(e2)) => check((e - e2).abs() <= 1e-3 * e + 1e-3, "the reported error does not depend on the schedule"), (None, None) => {} _ => check(false, "whether the error is known does not depend on the schedule") }
}
