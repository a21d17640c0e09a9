//! Quantisation and remapping as a whole. Params: 0 width, 1 height, 2 alphabet, 3 symbolic pixels, 4 speeds, 5 max colours, 6.. per harness
use crate::com::*;
use crate::sym::*;
use imagequant::*;
use std::mem::MaybeUninit;

pub const DITHER: [f32; 4] = [0., 1., 0.5, 0.001];
pub fn dither(id: u64) -> f32 { match id { 0 => 0., 1 => DITHER[choose(2, "dither") as usize], 2 => DITHER[choose(4, "dither") as usize], _ => 1. } }

/// size of the palette and of the remapped image, range of its indices, nothing else written (6: dithering)
pub fn q_contract() {
    let s = scene();
    let n = colors(param(5));
    let a = attr(speed(param(4)), n);
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    let plen = r.palette_len();
    check((plen >= 1) & (plen <= n as usize), "palette has 1 to max-colours entries");
    check(r.palette().len() == plen, "announced palette length is the palette's length");
    ok(r.set_dithering_level(dither(param(6))));
    let area = s.w * s.h;
    // the buffer is too small by one, exact, or larger than needed
    let blen = area + choose(3, "buffer") as usize - 1;
    let guard = u8_("guard");
    let mut buf: Vec<MaybeUninit<u8>> = (0..area + 4).map(|_| MaybeUninit::new(guard)).collect();
    let res = r.remap_into(&mut img, &mut buf[..blen]);
    let got: Vec<u8> = buf.iter().map(|b| unsafe { b.assume_init() }).collect();
    let p = r.palette().to_vec();
    check((p.len() >= 1) & (p.len() <= n as usize), "palette has 1 to max-colours entries after remapping");
    check(p.len() == plen, "remapping keeps the palette length");
    if blen < area {
        check(matches!(res, Err(Error::BufferTooSmall)), "a too small buffer is refused");
        for g in &got { check(*g == guard, "a refused buffer is left alone"); }
        cover("too small");
    } else {
        check(res.is_ok(), "remapping into a large enough buffer succeeds");
        for (i, g) in got.iter().enumerate() { if i < area { check((*g as usize) < p.len(), "pixel index is inside the palette"); } else { check(*g == guard, "nothing is written past the image"); } }
        cover("written");
        obs_pal(&p);
        obs_idx(&got[..area]);
    }
}

/// a vector that already holds something is replaced by exactly one index per pixel
pub fn q_vec() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(dither(param(6))));
    let before = choose(4, "contents") as usize * (s.w * s.h) / 2;
    let mut v = vec![u8_("old"); before];
    let p = ok(r.remap_into_vec(&mut img, &mut v));
    check(v.len() == s.w * s.h, "the vector holds exactly one index per pixel");
    for i in &v { check((*i as usize) < p.len(), "pixel index is inside the returned palette"); }
    check(r.palette().len() == p.len(), "the returned palette is the result's palette");
    for (x, y) in p.iter().zip(r.palette()) { check(eq(*x, *y), "the returned palette is the result's palette"); }
    cover("done");
    obs_pal(&p);
    obs_idx(&v);
}

/// the first n different colours are the ones that must be kept
fn distinct(f: &[RGBA], n: usize) -> Vec<(RGBA, bool)> {
    let mut seen = 0usize;
    f.iter().enumerate().map(|(i, x)| { let mut dup = false; for y in &f[..i] { dup |= same(*x, *y); } seen += usize::from(!dup); (*x, (seen <= n) & !dup) }).collect()
}
/// fixed colours survive. 6: number of fixed colours, 7: dithering, 8: target quality list
pub fn q_fixed() {
    let s = scene();
    let n = colors(param(5));
    let mut a = attr(speed(param(4)), n);
    let q = [100u8, 80, 30, 2][choose(param(8), "target") as usize];
    if q < 100 { ok(a.set_quality(0, q)); }
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let k = param(6) as usize;
    // 9: the fixed colours' alphabet, when not the usual one
    let al = alphabet(if param(9) == 0 { 5 } else { param(9) });
    let fixed: Vec<RGBA> = (0..k).map(|_| al[pick(8, "fixed")]).collect();
    for f in &fixed { ok(img.add_fixed_color(*f)); }
    let mut r = ok(a.quantize(&mut img));
    let kept = distinct(&fixed, n as usize);
    for (f, keep) in &kept { let mut found = !keep; for p in r.palette() { found |= same(*p, *f); } check(found, "every fixed colour is in the palette"); }
    ok(r.set_dithering_level(dither(param(7))));
    let (p, ix) = ok(r.remapped(&mut img));
    for (f, keep) in &kept { let mut found = !keep; for p in &p { found |= same(*p, *f); } check(found, "every fixed colour is still in the palette after remapping"); }
    check((p.len() >= 1) & (p.len() <= n as usize), "fixed colours do not enlarge the palette past its maximum");
    for i in &ix { check((*i as usize) < p.len(), "pixel index is inside the palette"); }
    cover("done");
    obs_pal(&p);
}

/// fixed colours given to a histogram, next to image or listed colours. 6: fixed, 7: target quality list, 8: kinds of other content
pub fn h_fixed() {
    let n = colors(param(5));
    let mut a = attr(speed(param(4)), n);
    let q = [100u8, 80, 30][choose(param(7), "target") as usize];
    if q < 100 { ok(a.set_quality(0, q)); }
    let mut hist = Histogram::new(&a);
    let k = param(6) as usize;
    let al = alphabet(5);
    let fixed: Vec<RGBA> = (0..k).map(|_| al[pick(8, "fixed")]).collect();
    let kind = choose(param(8), "content");
    let s = if kind == 0 { None } else { Some(scene()) };
    if let Some(s) = &s { if kind == 1 { let e: Vec<HistogramEntry> = s.px.iter().map(|p| HistogramEntry { color: *p, count: 3 }).collect(); ok(hist.add_colors(&e, 0.)); } else { ok(hist.add_image(&a, &mut ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.)))); } }
    for f in &fixed { ok(hist.add_fixed_color(*f, 0.)); }
    let mut r = ok(hist.quantize(&a));
    let kept = distinct(&fixed, n as usize);
    for (f, keep) in &kept { let mut found = !keep; for p in r.palette() { found |= same(*p, *f); } check(found, "every fixed colour of the histogram is in the palette"); }
    let len = r.palette().len();
    check((len >= 1) & (len <= n as usize), "palette has 1 to max-colours entries");
    check(r.palette_len() == len, "announced palette length is the palette's length");
    cover("done");
    obs_pal(r.palette());
}

/// few enough colours: nothing is lost. 6: dithering list, 7: gamma list
pub fn q_lossless() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    lossless(&a, &s.px, s.w, s.h);
}
fn lossless(a: &Attributes, px: &[RGBA], w: usize, h: usize) {
    let gamma = [0., 0.45455, 0.2, 1.0, 0.7][choose(param(7), "gamma") as usize];
    let mut img = ok(a.new_image_borrowed(px, w, h, gamma));
    let mut r = ok(a.quantize(&mut img));
    check(r.quantization_quality() == Some(100), "a lossless palette is reported as quality 100");
    check(r.quantization_error() == Some(0.), "a lossless palette is reported as error-free");
    ok(r.set_dithering_level(dither(param(6))));
    let (p, ix) = ok(r.remapped(&mut img));
    check(ix.len() == px.len(), "one index per pixel");
    for (i, x) in ix.iter().enumerate() { check(same(p[*x as usize], px[i]), "every pixel keeps its exact colour"); }
    cover("done");
    obs_idx(&ix);
}
/// the same with room for exactly the colours there are (at least 2). 4 speeds, 6 dithering, 7 gamma
pub fn q_lossless_fit() {
    let s = scene();
    let mut n = 0u32;
    for (i, p) in s.px.iter().enumerate() {
        let mut seen = false;
        for q in &s.px[..i] { seen |= same(*p, *q); }
        n += !seen as u32;
    }
    let n = n.max(2);
    for k in 2..=s.px.len() as u32 { if n == k { lossless(&attr(speed(param(4)), k), &s.px, s.w, s.h); } }
}
/// the same with one pixel's channels arbitrary. 0: which pair of channels, 4 speeds, 6 dithering, 7 gamma
pub fn q_lossless_bytes() {
    let (x, y) = (u8_("x"), u8_("y"));
    let odd = match param(0) { 0 => c(x, y, 77, 255), 1 => c(40, x, 7, y), 2 => c(9, y, x, 255), _ => c(x, 100, 200, y) };
    let px = [c(1, 2, 3, 255), odd, c(200, 200, 100, 255), odd, c(0, 0, 0, 0), c(128, 0, 255, 130)];
    lossless(&attr(speed(param(4)), 8), &px, 3, 2);
}

/// minimum quality is met or the call fails. 6: qualities
pub fn q_quality() {
    let s = scene();
    let n = colors(param(5));
    let sp = speed(param(4));
    let mut a = attr(sp, n);
    const Q: [(u8, u8); 12] = [(0, 100), (0, 0), (0, 50), (1, 1), (30, 60), (50, 50), (60, 100), (70, 80), (80, 90), (95, 99), (99, 100), (100, 100)];
    let (lo, hi) = Q[choose(param(6), "quality") as usize];
    ok(a.set_quality(lo, hi));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    match a.quantize(&mut img) {
        Ok(mut r) => {
            let q = some(r.quantization_quality());
            check((q >= lo) & (q <= 100), "a result is at least as good as the minimum quality");
            let e = some(r.quantization_error());
            check(e.is_finite() & (e >= 0.), "reported error is a non-negative number");
            check(r.palette().len() <= n as usize, "palette is limited");
            cover("met");
            observe(q.into());
        }
        Err(e) => {
            check(e == Error::QualityTooLow, "failure to reach the quality is reported as such");
            check(lo > 0, "without a minimum quality quantization never fails");
            check(!(sp <= 7 && hi == 100 && s.px.len() <= n as usize), "an image with few colours always reaches any quality");
            cover("too low");
        }
    }
}

/// minimum qualities just above what is reached without one are met or refused. 6: how far above
pub fn q_quality_edge() {
    let s = scene();
    let (n, sp) = (colors(param(5)), speed(param(4)));
    let mut a = attr(sp, n);
    let hi = [100u8, 60][choose(2, "target") as usize];
    ok(a.set_quality(0, hi));
    let q = some(ok(a.quantize(&mut ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.)))).quantization_quality());
    let lo = q + 1 + choose(param(6), "above") as u8;
    if lo > hi { return; }
    ok(a.set_quality(lo, hi));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    match a.quantize(&mut img) {
        Ok(r) => { check(some(r.quantization_quality()) >= lo, "a result is at least as good as the minimum quality"); cover("met"); }
        Err(e) => { check(e == Error::QualityTooLow, "failure to reach the quality is reported as such"); cover("too low"); }
    }
}

/// default order, and last-transparent order
pub fn q_order() {
    let s = scene();
    let mut a = attr(speed(param(4)), colors(param(5)));
    let last = bool_("last");
    a.set_last_index_transparent(last);
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    for _ in 0..param(6) { ok(img.add_fixed_color(MIX8[pick(8, "fixed")])); }
    let mut r = ok(a.quantize(&mut img));
    let p = r.palette();
    let mut min = 255u8;
    for x in p { if x.a < min { min = x.a; } }
    if last { check(p[p.len() - 1].a == min, "the most transparent colour is last when asked to be"); cover("last"); }
    else { let mut ordered = true; for w in p.windows(2) { ordered &= !((w[0].a == 255) & (w[1].a < 255)); } check(ordered, "colours with transparency come before opaque ones"); cover("first"); }
    if min < 255 && p[0].a != p[p.len() - 1].a { cover("mixed"); }
    obs_pal(p);
}

/// posterization limits channel values. 6: list of bits, 7 dithering
pub fn q_poster() {
    let s = scene();
    let bits = choose(param(6), "bits") as u8;
    let mut a = attr(speed(param(4)), colors(param(5)));
    ok(a.set_min_posterization(bits));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    if bool_("remap") { ok(r.set_dithering_level(dither(param(7)))); ok(r.remapped(&mut img)); cover("remapped"); }
    let p = r.palette();
    poster_ok(p, bits);
    obs_pal(p);
}
fn poster_ok(p: &[RGBA], bits: u8) {
    for x in p {
        let lvl = |v: u8| bits == 0 || v == (v >> bits << bits) | v >> (8 - bits);
        check(lvl(x.a), "palette alpha is one of the posterized levels");
        check((x.a == 0) | (lvl(x.r) & lvl(x.g) & lvl(x.b)), "palette channels are posterized levels");
    }
    cover("done");
}
/// the same with arbitrary channel bytes, through a histogram. 0: which pair of channels, 1: highest bits+1
pub fn q_poster_bytes() {
    let bits = choose(param(1), "bits") as u8;
    let (x, y) = (u8_("x"), u8_("y"));
    let mut a = Attributes::new();
    ok(a.set_min_posterization(bits));
    let mut h = Histogram::new(&a);
    let col = match param(0) { 0 => c(x, y, 77, 255), 1 => c(40, x, 7, y), _ => c(y, 50, x, 255) };
    ok(h.add_colors(&[HistogramEntry { color: col, count: 1 }], 0.));
    let mut r = ok(h.quantize(&a));
    poster_ok(r.palette(), bits);
    obs_pal(r.palette());
}

/// the palette stays inside the range of the input. 6: dithering
pub fn q_gamut() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    if bool_("remap") { ok(r.set_dithering_level(dither(param(6)))); ok(r.remapped(&mut img)); cover("remapped"); }
    let (mut lo, mut hi) = (s.px[0], s.px[0]);
    for p in &s.px { lo = c(lo.r.min(p.r), lo.g.min(p.g), lo.b.min(p.b), lo.a.min(p.a)); hi = c(hi.r.max(p.r), hi.g.max(p.g), hi.b.max(p.b), hi.a.max(p.a)); }
    for p in r.palette() {
        check((p.a >= lo.a) & (p.a <= hi.a), "palette opacity stays within the input's range");
        if s.opaque { check((p.r >= lo.r) & (p.r <= hi.r) & (p.g >= lo.g) & (p.g <= hi.g) & (p.b >= lo.b) & (p.b <= hi.b), "palette channels stay within the input's range"); }
    }
    cover("done");
    obs_pal(r.palette());
}

/// the same input gives the same output; undithered remapping is repeatable. 6: dithering
pub fn q_repeat() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let d = dither(param(6));
    let run = |a: &Attributes| {
        let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
        let mut r = ok(a.quantize(&mut img));
        ok(r.set_dithering_level(d));
        let o = ok(r.remapped(&mut img));
        (img, r, o.0, o.1)
    };
    let (mut img, mut r, p1, i1) = run(&a);
    // a second object with the same settings, used after the first
    let (_i2, r2, p2, i2) = run(&a.clone());
    check(p1.len() == p2.len(), "same input, same palette size");
    for i in 0..p1.len() { check(eq(p1[i], p2[i]), "same input, same palette"); }
    for i in 0..i1.len() { check(i1[i] == i2[i], "same input, same indices"); }
    check(r.remapping_error().map(f64::to_bits) == r2.remapping_error().map(f64::to_bits), "same input, same reported error");
    if d == 0. {
        let (p3, i3) = ok(r.remapped(&mut img));
        check(p3.len() == p1.len(), "remapping again keeps the palette size");
        for i in 0..p1.len() { check(eq(p1[i], p3[i]), "remapping again gives the same palette"); }
        for i in 0..i1.len() { check(i1[i] == i3[i], "remapping again gives the same indices"); }
        // and a copy of the result behaves like the original
        let (p4, i4) = ok(r.clone().remapped(&mut img));
        for i in 0..p1.len() { check(eq(p1[i], p4[i]), "a copied result gives the same palette"); }
        for i in 0..i1.len() { check(i1[i] == i4[i], "a copied result gives the same indices"); }
        cover("again");
    }
    cover("done");
    obs_pal(&p1);
    obs_idx(&i1);
}

/// reported errors are numbers, agree with the reported quality and with what the remapping did. 6: dithering
pub fn q_errors() {
    let s = scene();
    let mut a = attr(speed(param(4)), colors(param(5)));
    if bool_("limit") { ok(a.set_quality(0, 90)); }
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut r = ok(a.quantize(&mut img));
    sane(r.quantization_error(), r.quantization_quality());
    check(r.remapping_error().map(f64::to_bits) == r.quantization_error().map(f64::to_bits), "before remapping the palette error is reported");
    check(r.remapping_quality() == r.quantization_quality(), "before remapping the palette quality is reported");
    let q0 = r.quantization_error().map(f64::to_bits);
    let d = dither(param(6));
    ok(r.set_dithering_level(d));
    let (p, ix) = ok(r.remapped(&mut img));
    check(r.quantization_error().map(f64::to_bits) == q0, "remapping does not change the quantization error");
    sane(r.remapping_error(), r.remapping_quality());
    if d == 0. {
        let m = Metric::new(0.45455);
        let mut sum = 0f64;
        for (i, x) in ix.iter().enumerate() { sum += f64::from(m.dist(s.px[i], p[*x as usize])); }
        let want = sum / s.px.len() as f64 * 65536. / 6. / 0.45;
        let got = some(r.remapping_error());
        check((got - want).abs() <= 1e-5 * want + 1e-5, "undithered remapping reports the error it made");
        cover("exact");
    }
    // changing the settings discards what was known about the old remapping
    ok(r.set_dithering_level(1.));
    check(r.remapping_error().map(f64::to_bits) == q0, "the error of a discarded remapping is not reported");
    check(r.remapping_quality() == r.quantization_quality(), "the quality of a discarded remapping is not reported");
    observe(q0.unwrap_or(1));
    cover("done");
}
fn quality_limit(q: u8) -> f64 {
    if q == 0 { return f64::MAX; }
    if q >= 100 { return 0.; }
    let q = f64::from(q);
    0.45 * ((0.016 / (0.001 + q) - 0.001).max(0.) + 2.5 / (210. + q).powf(1.2) * (100.1 - q) / 100.)
}
fn sane(e: Option<f64>, q: Option<u8>) {
    check(e.is_some() == q.is_some(), "error and quality are known together");
    if let (Some(e), Some(q)) = (e, q) {
        check(e.is_finite() & (e >= 0.), "reported error is a non-negative number");
        check(q <= 100, "quality is at most 100");
        check((e > 0.) | (q == 100), "no error means quality 100");
        // the scale of set_quality: the best quality whose error limit admits this error
        let mse = e * 0.45 * 6. / 65536.;
        check(mse <= quality_limit(q) * 1.0001 + 2e-6, "the reported quality does not promise more than the reported error");
        check((q == 100) | (mse >= quality_limit(q + 1) * 0.9999), "the reported quality is as good as the reported error allows");
        cover("error known");
    }
}

/// number of palette entries. 6: 1 + number of fixed colours
pub fn q_size() {
    let s = scene();
    let n = colors(param(5));
    let mut a = attr(speed(param(4)), n);
    // one setting at a time, then all together
    let extra = choose(6, "extra");
    ok(a.set_quality(0, match extra { 1 | 5 => 70, 2 => 10, _ => 100 }));
    if extra == 3 || extra == 5 { ok(a.set_min_posterization(2)); }
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let k = choose(param(6), "fixed colours");
    for _ in 0..k { ok(img.add_fixed_color(MIX8[pick(8, "fixed")])); }
    let mut r = if extra >= 4 { let mut h = Histogram::new(&a); ok(h.add_image(&a, &mut img)); ok(h.quantize(&a)) } else { ok(a.quantize(&mut img)) };
    let len = r.palette_len();
    check((len >= 1) & (len <= n as usize), "palette has 1 to max-colours entries");
    check(r.palette().len() == len, "announced palette length is the palette's length");
    ok(r.set_dithering_level(0.));
    let (p, _) = ok(r.remapped(&mut img));
    check(p.len() == len, "remapping keeps the palette length");
    check(r.palette_len() == len, "remapping keeps the announced length");
    check(r.palette().len() == len, "the palette keeps its length after remapping");
    if len == n as usize { cover("full"); }
    cover("done");
    obs_pal(&p);
}
/// reported quality is never better for a larger error limit: the scale is ordered, and every limit reads back
pub fn q_quality_scale() {
    let (x, y) = (u8_("x"), u8_("y"));
    assume((x <= y) & (y <= 100));
    let (mut a, mut b) = (Attributes::new(), Attributes::new());
    ok(a.set_quality(x, x));
    ok(b.set_quality(y, y));
    let (qa, qb) = (a.quality(), b.quality());
    check((qa.0 == x) & (qa.1 == x) & (qb.0 == y) & (qb.1 == y), "every quality reads back");
    cover("done");
}

/// the palette is worth its colours. 6: 1: also compare with fewer colours
pub fn q_worth() {
    let s = scene();
    let (sp, n) = (speed(param(4)), colors(param(5)));
    let m = Metric::new(0.45455);
    let run = |n: u32| {
        let a = attr(sp, n);
        let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
        let mut r = ok(a.quantize(&mut img));
        ok(r.set_dithering_level(0.));
        let (p, ix) = ok(r.remapped(&mut img));
        let mut sum = 0f64;
        for (i, x) in ix.iter().enumerate() { sum += f64::from(m.dist(s.px[i], p[*x as usize])); }
        sum
    };
    let got = run(n);
    // the average colour of the image
    let mut avg = [0f64; 4];
    for p in &s.px { let f = m.f(*p); for k in 0..4 { avg[k] += f64::from(f[k]); } }
    let avg = avg.map(|x| (x / s.px.len() as f64) as f32);
    let mut one = 0f64;
    for p in &s.px { one += f64::from(Metric::dist_f(m.f(*p), avg)); }
    let k = param(7) as f64 / 100.;
    check(got <= one * k + 1e-3, "a palette approximates the image better than its average colour");
    if one > 0.01 { cover("varied"); }
    if param(6) == 1 {
        let less = run(2);
        check(got <= less + 1e-4, "more colours are not worse than two");
        if less > 0.01 { cover("two"); }
    }
    cover("done");
}
