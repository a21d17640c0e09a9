//! Remapping to a palette that is known beforehand: nearest colour, backgrounds, importance, frozen palettes.
use crate::com::*;
use crate::sym::*;
use imagequant::*;

/// n different colours: a few special ones, then a spread
pub fn known(n: usize, i: usize) -> RGBA {
    match i { 0 => c(0, 0, 0, 255), 1 => c(255, 255, 255, 255), 2 => c(255, 0, 0, 128), 3 => c(0, 0, 0, 0), 4 => c(10, 200, 90, 255),
        _ => { let k = i as u32 * 0x9e37_79b1; c((k >> 24) as u8, (k >> 16) as u8, (k >> 8) as u8, if i % 5 == 0 { (k >> 3) as u8 | 1 } else { 255 }) } }
    .clone_for(n)
}
trait CloneFor { fn clone_for(self, n: usize) -> Self; }
impl CloneFor for RGBA { fn clone_for(self, _: usize) -> Self { self } }
/// a result whose palette is exactly the n known colours, from `from` on
fn known_result(a: &Attributes, from: usize, n: usize) -> QuantizationResult {
    let mut h = Histogram::new(a);
    for i in 0..n { ok(h.add_fixed_color(known(n, from + i), 0.)); }
    let r = ok(h.quantize(a));
    r
}
const SIZES: [usize; 8] = [2, 1, 7, 8, 9, 20, 64, 256];
fn two_bytes(k: u64) -> RGBA { let (x, y) = (u8_("x"), u8_("y")); match k { 0 => c(x, y, 30, 255), 1 => c(200, x, y, 255), 2 => c(x, 128, 255, y), 3 => c(x, x, y, 255), _ => c(250, 5, x, y) } }

fn nearest_ok(m: &Metric, p: &[RGBA], px: RGBA, i: u8) {
    let d = m.dist(px, p[i as usize]);
    let mut best = f32::MAX;
    for q in p { let e = m.dist(px, *q); best = if e < best { e } else { best }; }
    check(d <= best * 1.0001 + 1e-6, "without dithering every pixel gets the nearest palette colour");
}
/// 0: palette sizes, 1: which channels are arbitrary, 2: palette offset
pub fn m_nearest() {
    let a = Attributes::new();
    let n = SIZES[choose(param(0), "size") as usize];
    let from = param(2) as usize;
    let mut r = known_result(&a, from, n);
    ok(r.set_dithering_level(0.));
    let px = [two_bytes(param(1))];
    let mut img = ok(a.new_image_borrowed(&px, 1, 1, 0.));
    let (p, ix) = ok(r.remapped(&mut img));
    check(p.len() == n, "palette holds the known colours");
    nearest_ok(&Metric::new(0.45455), &p, px[0], ix[0]);
    cover("done");
    obs_idx(&ix);
}
/// sequences of pixels: the search starts from the previous answer. 0: palette sizes, 1: pixels, 2: palette offset
pub fn m_nearest_seq() {
    let a = Attributes::new();
    let n = SIZES[choose(param(0), "size") as usize];
    let mut r = known_result(&a, param(2) as usize, n);
    ok(r.set_dithering_level(0.));
    let px: Vec<RGBA> = (0..param(1)).map(|_| ALPHA16[pick(16, "px")]).collect();
    let mut img = ok(a.new_image_borrowed(&px, px.len(), 1, 0.));
    let (p, ix) = ok(r.remapped(&mut img));
    let m = Metric::new(0.45455);
    for i in 0..px.len() { nearest_ok(&m, &p, px[i], ix[i]); }
    cover("done");
    obs_idx(&ix);
}
/// an arbitrary pixel after a known one. 0: palette sizes, 1: which channels are arbitrary, 2: palette offset
pub fn m_nearest_pair() {
    let a = Attributes::new();
    let n = SIZES[choose(param(0), "size") as usize];
    let mut r = known_result(&a, param(2) as usize, n);
    ok(r.set_dithering_level(0.));
    let px = [ALPHA16[choose(16, "first") as usize], two_bytes(param(1)), ALPHA16[3]];
    let mut img = ok(a.new_image_borrowed(&px, 3, 1, 0.));
    let (p, ix) = ok(r.remapped(&mut img));
    let m = Metric::new(0.45455);
    for i in 0..px.len() { nearest_ok(&m, &p, px[i], ix[i]); }
    cover("done");
    obs_idx(&ix);
}
/// the whole pipeline: palette made from the image itself. params as in core
pub fn m_nearest_own() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let gamma = [0., 0.7, 0.2][choose(param(6), "gamma") as usize];
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, gamma));
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(0.));
    let (p, ix) = ok(r.remapped(&mut img));
    let m = Metric::new(if gamma > 0. { gamma } else { 0.45455 });
    for i in 0..s.px.len() { nearest_ok(&m, &p, s.px[i], ix[i]); }
    cover("done");
    obs_pal(&p);
    obs_idx(&ix);
}

/// a histogram's palette does not change while images are remapped with it. 0 w, 1 h, 2 alphabet, 3 symbolic, 6: fixed colours
pub fn m_frozen() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let mut h = Histogram::new(&a);
    // from an image, or a list with even or very uneven counts
    let kind = choose(3, "from");
    if kind == 0 { ok(h.add_image(&a, &mut ok(a.new_image(&s.px[..], s.w, s.h, 0.)))); }
    else { let e: Vec<HistogramEntry> = s.px.iter().enumerate().map(|(i, p)| HistogramEntry { color: *p, count: if kind == 1 { 3 } else if i % 2 == 0 { 1 } else { 100_000 } }).collect(); ok(h.add_colors(&e, 0.)); }
    for _ in 0..param(6) { ok(h.add_fixed_color(MIX8[pick(8, "fixed")], 0.)); }
    let mut r = ok(h.quantize(&a));
    let p0 = if bool_("read first") { r.palette().to_vec() } else { r.clone().palette().to_vec() };
    // remap other images too, with and without dithering
    let other: Vec<RGBA> = (0..s.w * s.h).map(|i| fill(i + 3)).collect();
    for step in 0..2 {
        let dith = choose(2, "dither");
        ok(r.set_dithering_level(dith as f32));
        let src = if step == 0 { &other } else { &s.px };
        let mut img = ok(a.new_image_borrowed(src, s.w, s.h, 0.));
        let (p, ix) = ok(r.remapped(&mut img));
        check(p.len() == p0.len(), "a shared palette keeps its size");
        for i in 0..p.len() { check(eq(p[i], p0[i]), "a shared palette does not change when images are remapped"); }
        for i in &ix { check((*i as usize) < p.len(), "pixel index is inside the palette"); }
        obs_idx(&ix);
    }
    obs_pal(&p0);
    cover("done");
}

/// backgrounds without dithering. 0: number of pixels, 1: palette: 0 with transparency, 1 opaque only, 2 semi-transparent only
pub fn m_background() {
    let a = Attributes::new();
    let mut h = Histogram::new(&a);
    let pal: &[RGBA] = match param(1) { 0 => &[c(0, 0, 0, 0), c(0, 0, 0, 255), c(250, 128, 3, 255), c(200, 255, 255, 255)], 1 => &[c(0, 0, 0, 255), c(250, 128, 3, 255)], _ => &[c(10, 90, 250, 100), c(0, 0, 0, 255), c(250, 128, 3, 255)] };
    for p in pal { ok(h.add_fixed_color(*p, 0.)); }
    let mut r = ok(h.quantize(&a));
    ok(r.set_dithering_level(0.));
    let n = param(0) as usize;
    let px: Vec<RGBA> = (0..n).map(|_| MIX8[pick(8, "px")]).collect();
    let bg: Vec<RGBA> = (0..n).map(|_| MIX8[pick(8, "bg")]).collect();
    let mut img = ok(a.new_image_borrowed(&px, n, 1, 0.));
    let (_, plain) = ok(r.clone().remapped(&mut ok(a.new_image_borrowed(&px, n, 1, 0.))));
    ok(img.set_background(ok(a.new_image_borrowed(&bg, n, 1, 0.))));
    let (p, ix) = ok(r.remapped(&mut img));
    let m = Metric::new(0.45455);
    for i in 0..n {
        let got = p[ix[i] as usize];
        if param(1) == 0 {
            if eq(px[i], bg[i]) { check(got.a == 0, "a pixel equal to the background becomes transparent"); cover("equal"); }
            // otherwise it may show the background only when that is at least as good as the best colour
            let best = m.dist(px[i], p[plain[i] as usize]);
            let over = m.dist(px[i], bg[i]);
            if got.a == 0 { check((over <= best * 1.0001 + 1e-6) | (ix[i] == plain[i]), "the background shows only where it is the best match"); }
            else { check(ix[i] == plain[i], "other pixels get the colour they would get without a background"); check(over * 1.0001 + 1e-6 >= best, "a background that matches better is used"); cover("kept"); }
        } else { check(ix[i] == plain[i], "without a transparent colour the background is ignored"); cover("ignored"); }
    }
    // the error that is reported counts what is seen: the background where it shows
    let mut sum = 0f64;
    for i in 0..n {
        let best = m.dist(px[i], p[plain[i] as usize]);
        let over = m.dist(px[i], bg[i]);
        sum += f64::from(if (param(1) == 0) & (over < best) { over } else { best });
    }
    let want = sum / n as f64 * 65536. / 6. / 0.45;
    let got = some(r.remapping_error());
    check((got - want).abs() <= 1e-4 * want + 1e-4, "remapping over a background reports the error it made");
    cover("done");
    obs_idx(&ix);
}
/// backgrounds with dithering, on a palette that contains every colour of the image. 0: width, 1: height, 2: pixels that are symbolic (0: all), 3: speeds
pub fn m_background_dither() { background_dither(false); }
/// the same after the image was prepared for dithering, before or after its background was set
pub fn m_background_prepare() { background_dither(true); cover("done"); }
fn background_dither(prepare: bool) {
    let mut a = Attributes::new();
    ok(a.set_speed(speed(param(3))));
    let (w, hh) = (param(0) as usize, param(1) as usize);
    let n = w * hh;
    let ns = param(2) as usize;
    let is_sym = |i: usize| ns == 0 || (i % (n / ns).max(1) == 0);
    let mut h = Histogram::new(&a);
    for p in [c(0, 0, 0, 0)].iter().chain(&MIX4[..2]) { ok(h.add_fixed_color(*p, 0.)); }
    let mut r = ok(h.quantize(&a));
    ok(r.set_dithering_level(1.));
    let px: Vec<RGBA> = (0..n).map(|i| MIX4[if is_sym(i) { pick(2, "px") } else { i / 3 % 2 }]).collect();
    let bg: Vec<RGBA> = (0..n).map(|i| MIX4[if is_sym(i) { pick(4, "bg") } else { i % 3 }]).collect();
    let mut img = ok(a.new_image_borrowed(&px, w, hh, 0.));
    let when = if prepare { choose(2, "when") } else { 9 };
    let mut tmp = vec![std::mem::MaybeUninit::new(0u8); n];
    if when == 0 { ok(r.optionally_prepare_for_dithering_with_background_set(&mut img, &mut tmp)); }
    ok(img.set_background(ok(a.new_image_borrowed(&bg, w, hh, 0.))));
    if when == 1 { ok(r.optionally_prepare_for_dithering_with_background_set(&mut img, &mut tmp)); }
    let (p, ix) = ok(r.remapped(&mut img));
    for i in 0..n {
        let got = p[ix[i] as usize];
        if eq(px[i], bg[i]) { check(got.a == 0, "a pixel equal to the background becomes transparent, dithering included"); cover("equal"); }
        else { check(eq(got, px[i]), "a pixel whose exact colour is available keeps it"); cover("differs"); }
    }
    obs_idx(&ix);
}
/// which backgrounds are refused
pub fn m_background_args() {
    let a = Attributes::new();
    let px = [c(1, 2, 3, 255); 16];
    let d = |n| 1 + choose(3, n) as usize;
    let (w, h, bw, bh) = (d("w"), d("h"), d("bw"), d("bh"));
    let mut img = ok(a.new_image_borrowed(&px[..w * h], w, h, 0.));
    let mut bg = ok(a.new_image_borrowed(&px[..bw * bh], bw, bh, 0.));
    let nested = bool_("nested");
    if nested { ok(bg.set_background(ok(a.new_image_borrowed(&px[..bw * bh], bw, bh, 0.)))); }
    match img.set_background(bg) {
        Ok(()) => { check((w == bw) & (h == bh) & !nested, "a background of another size, or with its own background, is refused"); cover("accepted"); }
        Err(e) => { check(!((w == bw) & (h == bh) & !nested), "a matching background is accepted"); check(e == if nested { Error::Unsupported } else { Error::BufferTooSmall }, "refusal names the reason"); cover("refused"); }
    }
    // either way the image still works
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(0.));
    let (p, ix) = ok(r.remapped(&mut img));
    check(ix.len() == w * h, "one index per pixel");
    check(p.len() >= 1, "palette is there");
}

/// importance: length check; pixels of no importance do not influence the palette. params as core; 6: dithering
pub fn m_importance() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let n = s.w * s.h;
    // one pixel has arbitrary colour but no importance
    let at = [0, n - 1, n / 2, s.w.min(n - 1)][choose(4, "at") as usize];
    let mut px2 = s.px.clone();
    px2[at] = ALPHA16[pick(16, "other")];
    let mut map = vec![200u8; n];
    if param(6) > 0 { map[(at + 1) % n] = 10; }
    map[at] = 0;
    let run = |px: &[RGBA]| {
        let mut img = ok(a.new_image_borrowed(px, s.w, s.h, 0.));
        ok(img.set_importance_map(&map[..]));
        ok(a.quantize(&mut img)).palette().to_vec()
    };
    let (p, q) = (run(&s.px), run(&px2));
    check(p.len() == q.len(), "a pixel of no importance does not affect the palette size");
    for i in 0..p.len().min(q.len()) { check(eq(p[i], q[i]), "a pixel of no importance does not affect the palette"); }
    cover("done");
    obs_pal(&p);
}
/// the importance map stays in force for every later remapping. params as m_importance, 6: remappings
pub fn m_importance_remap() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let n = s.w * s.h;
    let at = [0, n - 1, n / 2, s.w.min(n - 1)][choose(4, "at") as usize];
    let mut px2 = s.px.clone();
    px2[at] = ALPHA16[pick(16, "other")];
    let mut map = vec![200u8; n];
    map[at] = 0;
    let steps: Vec<u64> = (0..param(6)).map(|_| choose(2, "dither")).collect();
    let run = |px: &[RGBA]| {
        let mut img = ok(a.new_image_borrowed(px, s.w, s.h, 0.));
        ok(img.set_importance_map(&map[..]));
        let mut r = ok(a.quantize(&mut img));
        let mut p = vec![];
        for d in &steps { ok(r.set_dithering_level(*d as f32)); p = ok(r.remapped(&mut img)).0; }
        p
    };
    let (p, q) = (run(&s.px), run(&px2));
    check(p.len() == q.len(), "a pixel of no importance does not affect the palette size of a remapped image");
    for i in 0..p.len().min(q.len()) { check(eq(p[i], q[i]), "a pixel of no importance does not affect the palette of a remapped image"); }
    cover("done");
    obs_pal(&p);
}
/// an image that was remapped can be quantized again (while its pixels are kept), with the same importance. params as m_importance
pub fn m_importance_again() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let n = s.w * s.h;
    let at = [0, n - 1, n / 2, s.w.min(n - 1)][choose(4, "at") as usize];
    let mut px2 = s.px.clone();
    px2[at] = ALPHA16[pick(16, "other")];
    let mut map = vec![200u8; n];
    map[at] = 0;
    let dith = choose(2, "dither") as f32;
    let run = |px: &[RGBA]| {
        let mut img = ok(a.new_image_borrowed(px, s.w, s.h, 0.));
        ok(img.set_importance_map(&map[..]));
        let mut r = ok(a.quantize(&mut img));
        let p0 = r.palette().to_vec();
        ok(r.set_dithering_level(dith));
        ok(r.remapped(&mut img));
        (p0, a.quantize(&mut img).ok().map(|mut r| r.palette().to_vec()))
    };
    let (p, q) = (run(&s.px), run(&px2));
    check(p.1.is_some() == q.1.is_some(), "a pixel of no importance does not affect whether an image can be quantized again");
    for (p0, o) in [&p, &q] { if let Some(o) = o {
        check(p0.len() == o.len(), "quantizing an image again after remapping gives the same palette size");
        for i in 0..o.len().min(p0.len()) { check(eq(p0[i], o[i]), "quantizing an image again after remapping gives the same palette"); }
        cover("again");
    } }
    if let (Some(p), Some(q)) = (&p.1, &q.1) {
        check(p.len() == q.len(), "a pixel of no importance does not affect the palette size of an image quantized again");
        for i in 0..p.len().min(q.len()) { check(eq(p[i], q[i]), "a pixel of no importance does not affect the palette of an image quantized again"); }
    }
    cover("done");
}
/// importance map lengths
pub fn m_importance_len() {
    let a = Attributes::new();
    let px = [c(1, 2, 3, 255); 16];
    let (w, h) = (1 + choose(4, "w") as usize, 1 + choose(4, "h") as usize);
    let len = choose(19, "len") as usize;
    let mut img = ok(a.new_image_borrowed(&px[..w * h], w, h, 0.));
    match img.set_importance_map(&[u8_("v"); 19][..len]) {
        Ok(()) => { check(len == w * h, "an importance map of another size is refused"); cover("accepted"); }
        Err(e) => { check(len != w * h, "a matching importance map is accepted"); check(e == Error::BufferTooSmall, "refusal names the size"); cover("refused"); }
    }
}

/// remapping with converted pixels kept (after a quantization) or made row by row (large images). 6: background
pub fn m_stream() {
    let s = scene();
    let a = attr(4, 256);
    let mut h = Histogram::new(&a);
    for p in &MIX8 { ok(h.add_fixed_color(*p, 0.)); }
    let mut r = ok(h.quantize(&a));
    ok(r.set_dithering_level(0.));
    let make = |cb: bool| if cb { let px = s.px.clone(); let w = s.w; ok(unsafe { Image::new_fn(&a, move |row, y| { for (o, i) in row.iter_mut().zip(&px[y * w..]) { o.write(*i); } }, s.w, s.h, 0.) }) } else { ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.)) };
    let bg: Vec<RGBA> = (0..s.px.len()).map(|i| MIX8[(i * 5 + 2) % 8]).collect();
    let mut one = make(bool_("callback"));
    let mut two = make(bool_("other callback"));
    let with_bg = param(6) == 1 && bool_("background");
    let kept = ok(a.quantize(&mut two)); // keeps converted pixels for the contrast maps
    if with_bg { for i in [&mut one, &mut two] { ok(i.set_background(ok(a.new_image_borrowed(&bg, s.w, s.h, 0.)))); } }
    let (p, x) = ok(r.clone().remapped(&mut one));
    let (q, y) = ok(r.remapped(&mut two));
    check(p.len() == q.len(), "the palette stays the same");
    let m = Metric::new(0.45455);
    for i in 0..x.len() {
        check(x[i] == y[i], "a pixel gets the same colour whether or not converted pixels are kept");
        let mut best = f32::MAX;
        for c in &p { let d = m.dist(s.px[i], *c); if d < best { best = d; } }
        if !with_bg { check(m.dist(s.px[i], p[x[i] as usize]) <= best * 1.001 + 1e-6, "each pixel gets the nearest colour"); }
    }
    drop(kept);
    cover("done");
    obs_idx(&x);
}

/// dithering a flat area keeps its average. 0,1: width, height; 2: lower grey, 3: upper grey, 4: speeds, 5: 100 * allowed part of the undithered error, 6: what varies (0 all colour channels, 1 red, 2 green, 3 blue, 4 opacity), 7: and this percentage of the gap
pub fn m_dither_flat() {
    let (w, h) = (param(0) as usize, param(1) as usize);
    let (lo, hi) = (param(2) as u8, param(3) as u8);
    let g = u8_("level");
    let col = |v: u8| match param(6) { 0 => c(v, v, v, 255), 1 => c(v, 110, 90, 255), 2 => c(110, v, 90, 255), 3 => c(110, 90, v, 255), _ => c(120, 110, 90, v) };
    let ch = [2, 1, 2, 3, 0][param(6) as usize];
    assume((g >= lo) & (g <= hi));
    let m = Metric::new(0.45455);
    let a = attr(speed(param(4)), 4);
    let mut hist = Histogram::new(&a);
    ok(hist.add_colors(&[HistogramEntry { color: col(lo), count: 10 }, HistogramEntry { color: col(hi), count: 10 }], 0.));
    let mut r = ok(hist.quantize(&a));
    let px = vec![col(g); w * h];
    let mut run = |d: f32| {
        let mut img = ok(a.new_image_borrowed(&px, w, h, 0.));
        ok(r.set_dithering_level(d));
        let (p, ix) = ok(r.remapped(&mut img));
        let mut sum = 0f64;
        for x in &ix { sum += f64::from(m.f(p[*x as usize])[ch]); }
        sum / (w * h) as f64
    };
    let (with, without) = (run(1.), run(0.));
    let want = f64::from(m.f(col(g))[ch]);
    check((with - want).abs() <= (without - want).abs() * (param(5) as f64 / 100.) + f64::from(m.f(col(hi))[ch] - m.f(col(lo))[ch]).abs() * (param(7) as f64 / 100.), "dithering brings a flat area closer to its colour on average");
    cover("done");
}
