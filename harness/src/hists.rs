//! Histograms: what is counted.
use crate::com::*;
use crate::sym::*;
use crate::sym::bits as bits_;
use imagequant::*;

fn e(color: RGBA, count: u32) -> HistogramEntry { HistogramEntry { color, count } }
fn same_pal(p: &[RGBA], q: &[RGBA], m: &'static str) { check(p.len() == q.len(), m); for i in 0..p.len().min(q.len()) { check(eq(p[i], q[i]), m); } }
fn base_color(i: u8) -> RGBA { c(20 + 16 * i, 255 - 16 * i, 3 * i, 255) }
/// background colours, so that one colour's weight is not capped. Their counts are odd and differ, so that nothing depends on how ties are broken
fn base(h: &mut Histogram) { let v: Vec<HistogramEntry> = (0..14).map(|i| e(base_color(i), 101 + 2 * u32::from(i))).collect(); ok(h.add_colors(&v, 0.)); }
fn rank(p: &[RGBA], x: RGBA) -> usize { let mut at = 999; for (i, q) in p.iter().enumerate() { if same(*q, x) { at = i; } } at }

/// counts add up however they are split; zero counts do not matter; order of calls does not matter.
/// 0: speeds, 1: alphabet
pub fn h_counts() {
    let a = attr(speed(param(0)), 256);
    let al = alphabet(param(1));
    let col = al[pick(al.len() as u64, "color")];
    let total = 2 + bits(4, "total") as u32 * 10;
    let part = bits(4, "part") as u32 * 10;
    assume(part <= total);
    let other = c(222, 7, 99, 255);
    let mut h1 = Histogram::new(&a);
    base(&mut h1);
    ok(h1.add_colors(&[e(other, 51), e(col, total)], 0.));
    let mut h2 = Histogram::new(&a);
    match choose(4, "how") {
        0 => { base(&mut h2); ok(h2.add_colors(&[e(other, 51), e(col, part), e(col, total - part)], 0.)); }
        1 => { base(&mut h2); ok(h2.add_colors(&[e(other, 51)], 0.)); ok(h2.add_colors(&[e(col, part)], 0.)); ok(h2.add_colors(&[e(col, total - part)], 0.)); }
        2 => { ok(h2.add_colors(&[e(other, 20), e(col, total), e(other, 31), e(c(9, 99, 199, 255), 0)], 0.)); base(&mut h2); }
        _ => { ok(h2.add_colors(&[e(col, total - part)], 0.)); base(&mut h2); ok(h2.add_colors(&[e(col, part), e(other, 51)], 0.)); }
    }
    // no ties, so the order by frequency is unique
    let mut r1 = ok(h1.quantize(&a));
    let mut r2 = ok(h2.quantize(&a));
    same_pal(r1.palette(), r2.palette(), "counts of a colour add up however they are supplied");
    check(r1.palette().len() == 16, "exactly the colours counted are in the palette");
    cover("done");
    obs_pal(r1.palette());
}
/// with few colours and no loss, the palette is the set of colours counted, most frequent first
pub fn h_popular() {
    let a = attr(speed(param(0)), 256);
    let mut h = Histogram::new(&a);
    base(&mut h);
    let big = c(1, 1, 1, 255);
    let b = bits(8, "count") as u32;
    let n = match choose(4, "scale") { 0 => b, 1 => b << 20, 2 => (1 << 31) + b, _ => u32::MAX - b };
    let (mut x, k) = (0u32, choose(3, "repeats") + 1);
    for _ in 0..k { ok(h.add_colors(&[e(big, n)], 0.)); x = x.saturating_add(n); }
    let mut r = ok(h.quantize(&a));
    let p = r.palette();
    check(p.len() == if n == 0 { 14 } else { 15 }, "exactly the colours counted are in the palette");
    if x > 127 { check(eq(p[0], big), "the most frequent colour comes first"); cover("most"); }
    if (x > 0) & (x < 101) { check(eq(p[14], big), "the least frequent colour comes last"); cover("least"); }
    cover("done");
}
/// every pixel of an image is counted once. 14 colours have 4 pixels each, the others are one of two colours, symbolically; 0: speeds, 1: pieces, 2: symbolic pixels
pub fn h_image() {
    let a = attr(speed(param(0)), 256);
    let (x, y) = (c(1, 3, 99, 255), c(251, 1, 129, 128));
    let n = param(2) as usize;
    let mut px = vec![];
    for i in 0..14 { for _ in 0..4 { px.push(base_color(i)); } }
    let mut cx = 0u32;
    for k in 0..8 { let b = if k < n { bool_("first") } else { k & 1 == 0 }; if b { cx += 1; } px.push(if b { x } else { y }); }
    // spread them over the image
    let perm: Vec<RGBA> = (0..64).map(|i| px[(i * 29 + 5) % 64]).collect();
    let mut h = Histogram::new(&a);
    match choose(param(1), "pieces") {
        0 => { ok(h.add_image(&a, &mut ok(a.new_image_borrowed(&perm, 32, 2, 0.)))); }
        1 => { for half in perm.chunks(32) { ok(h.add_image(&a, &mut ok(a.new_image_borrowed(half, 16, 2, 0.)))); } }
        2 => { for row in perm.chunks(8) { ok(h.add_image(&a, &mut ok(a.new_image_borrowed(row, 1, 8, 0.)))); } }
        // part image, part list: a pixel weighs 255
        _ => { let (i, l) = perm.split_at(21); ok(h.add_image(&a, &mut ok(a.new_image_borrowed(i, 7, 3, 0.)))); let l: Vec<HistogramEntry> = l.iter().map(|p| e(*p, 255)).collect(); ok(h.add_colors(&l, 0.)); }
    }
    let mut r = ok(h.quantize(&a));
    let p = r.palette();
    check(p.len() == 14 + usize::from(cx > 0) + usize::from(cx < 8), "exactly the image's colours are in the palette");
    for i in 0..14 { check(rank(p, base_color(i)) < 16, "every colour of the image is counted"); }
    if cx > 4 { check(rank_opaque_first(p, x), "the colour with most pixels is the most popular one"); cover("most"); }
    if (cx > 0) & (cx < 4) { check(eq(p[p.len() - 1], x), "the colour with fewest pixels is the least popular one"); cover("least"); }
    cover("done");
    obs_pal(p);
}
/// x is the first of the opaque colours
fn rank_opaque_first(p: &[RGBA], x: RGBA) -> bool { let mut seen = false; let mut good = false; for q in p { if q.a == 255 { if !seen { good = eq(*q, x); } seen = true; } } good }
/// importance counts as weight: 4 pixels each of 15 colours, one colour's importance is arbitrary. 0: speeds
pub fn h_importance() {
    let a = attr(speed(param(0)), 256);
    let v = u8_("importance");
    let x = c(1, 3, 99, 255);
    let mut px = vec![];
    let mut imp = vec![];
    for i in 0..60usize { let k = (i * 7) % 15; px.push(if k == 14 { x } else { base_color(k as u8) }); imp.push(if k == 14 { v } else { 100 + k as u8 }); }
    let mut img = ok(a.new_image_borrowed(&px, 20, 3, 0.));
    ok(img.set_importance_map(&imp[..]));
    let mut r = if bool_("histogram") { let mut h = Histogram::new(&a); ok(h.add_image(&a, &mut img)); ok(h.quantize(&a)) } else { ok(a.quantize(&mut img)) };
    let p = r.palette();
    check(p.len() == if v == 0 { 14 } else { 15 }, "colours of no importance at all are not counted, others are");
    if v > 113 { check(eq(p[0], x), "importance is the weight a pixel is counted with"); cover("most"); }
    if (v > 0) & (v < 100) { check(eq(p[14], x), "importance is the weight a pixel is counted with"); cover("least"); }
    if (v > 100) & (v < 113) { let i = 113 - v as usize; check(eq(p[i], x) | eq(p[i + 1], x), "importance is the weight a pixel is counted with"); cover("between"); }
    cover("done");
}
/// colours merged by coarse speeds keep their total weight
pub fn h_merge() {
    let fast = attr(10, 256);
    let slow = attr(4, 256);
    // counted exactly first, then an image processed at a fast speed makes the histogram drop the lowest bit
    let x = u8_("x");
    let lo = c(x & !1, 40, 60, 255);
    let hi = c(x | 1, 40, 60, 255);
    let (n1, n2) = (1 + choose(4, "n1") as u32 * 40, 1 + choose(4, "n2") as u32 * 40);
    let mut h = Histogram::new(&slow);
    let v: Vec<HistogramEntry> = (0..14u8).map(|i| e(c(20 + 16 * i, 254 - 16 * i, 4 * i, 255), 150)).collect();
    ok(h.add_colors(&v, 0.));
    ok(h.add_colors(&[e(lo, n1), e(hi, n2)], 0.));
    let dot = [c(20, 254, 0, 255)];
    ok(h.add_image(&fast, &mut ok(fast.new_image_borrowed(&dot, 1, 1, 0.))));
    let mut r = ok(h.quantize(&slow));
    let p = r.palette();
    check(p.len() == 15, "colours that differ in the ignored bit become one colour");
    // the merged colour's rank tells its weight
    let mut at = 99;
    for (i, q) in p.iter().enumerate() { if eq(*q, lo) | eq(*q, hi) { at = i; } }
    check(at < 15, "the merged colour is in the palette");
    if n1 + n2 > 150 { check(at <= 1, "merged colours keep their total weight"); cover("heavy"); } else { check(at == 14, "merged colours keep their total weight"); cover("light"); }
}
/// arguments of histogram calls. 0: gamma bits kept
pub fn h_args() {
    let a = Attributes::new();
    let mut h = Histogram::new(&a);
    let g = f64_("gamma");
    match choose(3, "call") {
        0 => {
            let n = choose(3, "entries") as usize;
            let v = [e(c(1, 2, 3, 255), 1), e(c(9, 9, 9, 255), 2)];
            let valid = (n > 0) & (g >= 0.) & (g < 1.);
            match h.add_colors(&v[..n], g) { Ok(()) => { check(valid, "bad histogram arguments are refused"); cover("colors ok"); } Err(er) => { check(!valid, "good histogram arguments are accepted"); check(er == Error::ValueOutOfRange, "refused as out of range"); cover("colors refused"); } }
            if !valid { check(h.quantize(&a).is_err(), "nothing is counted by a refused call"); }
        }
        1 => {
            let valid = (g >= 0.) & (g < 1.);
            match h.add_fixed_color(c(1, 2, 3, 255), g) { Ok(()) => { check(valid, "a bad gamma is refused for fixed colours"); cover("fixed ok"); } Err(er) => { check(!valid, "a good gamma is accepted for fixed colours"); check(er == Error::ValueOutOfRange, "refused as out of range"); cover("fixed refused"); } }
        }
        _ => { check(matches!(h.quantize(&a), Err(Error::Unsupported)), "an empty histogram cannot be quantized"); cover("empty"); }
    }
}
/// at most 256 fixed colours; the 257th is refused. 0: how many before
pub fn h_fixed_limit() {
    let a = Attributes::new();
    let px = [c(1, 2, 3, 255)];
    let n = [0usize, 1, 255, 256][choose(4, "n") as usize];
    let x = u8_("x");
    let col = |i: usize| c(i as u8, (i >> 8) as u8, 7, 255);
    let mut img = ok(a.new_image_borrowed(&px, 1, 1, 0.));
    let mut h = Histogram::new(&a);
    let extra = c(x, 1, 1, 255);
    match choose(3, "where") {
        0 => { for i in 0..n { ok(img.add_fixed_color(col(i))); } let r = img.add_fixed_color(extra); check(r.is_ok() == (n < 256), "an image takes exactly 256 fixed colours"); cover("image"); }
        1 => { for i in 0..n { ok(h.add_fixed_color(col(i), 0.)); } let r = h.add_fixed_color(extra, 0.); check(r.is_ok() == (n < 256), "a histogram takes exactly 256 fixed colours"); cover("histogram"); }
        _ => { for i in 0..n { ok(h.add_fixed_color(col(i), 0.)); } ok(img.add_fixed_color(extra)); let r = h.add_image(&a, &mut img); check(r.is_ok() == (n < 256), "fixed colours of added images count towards the limit"); if let Err(er) = r { check(er == Error::BufferTooSmall, "too many fixed colours are reported as documented"); } cover("added"); }
    }
}
/// many listed colours, some of which may have no count or appear twice: the palette is the set of counted ones. 0: speeds
pub fn h_total() {
    let a = attr(speed(param(0)), 256);
    let col = |i: usize| c((i * 2) as u8, (i * 58) as u8, (i / 8 * 2) as u8, if i % 9 == 0 { 128 } else { 255 });
    let n = 250;
    let mut v: Vec<HistogramEntry> = (0..n).map(|i| e(col(i), 1 + (i as u32 * 7) % 50)).collect();
    let mut there = [true; 250];
    for k in 0..4 { let at = [0, 60, 128, 249][k]; let z = bool_("zero"); v[at].count = if z { 0 } else { 9 }; there[at] = !z; }
    let twice = [0usize, 5, 128, 200][pick(4, "twice")];
    v.push(e(col(twice), 3));
    for (k, at) in [0usize, 5, 128, 200].iter().enumerate() { let _ = k; there[*at] |= twice == *at; }
    let mut h = Histogram::new(&a);
    if bool_("two calls") { ok(h.add_colors(&v[..100], 0.)); ok(h.add_colors(&v[100..], 0.)); } else { ok(h.add_colors(&v, 0.)); }
    let mut r = ok(h.quantize(&a));
    let p = r.palette();
    let mut want = 0;
    for i in 0..n { want += usize::from(there[i]); }
    check(p.len() == want, "the palette has exactly the colours that were counted");
    for i in (0..n).step_by(7).chain([0, 5, 60, 128, 200, 249]) { check((rank(p, col(i)) < 999) == there[i], "a colour is in the palette exactly when it was counted"); }
    cover("done");
}
/// colours that the posterization does not tell apart are counted together. 0: speeds, 1: number of settings, 2: arbitrary byte
pub fn h_coarse() {
    let bits = choose(param(1), "bits") as u8;
    let mut a = attr(speed(param(0)), 256);
    ok(a.set_min_posterization(bits));
    let m = 255u8 << bits;
    let x = if param(2) > 0 { u8_("x") } else { (bits_(3, "x") as u8) << 5 | 0x13 };
    let low = bits_(u32::from(bits.max(1)), "low") as u8 & !m;
    let (n1, n2) = (1 + choose(3, "n1") as u32 * 60, 1 + choose(3, "n2") as u32 * 60);
    let (p1, p2) = (c(x & m, 40, 60, 255), c(x & m | low, 40, 60, 255));
    let mut h = Histogram::new(&a);
    if bool_("first") { base(&mut h); ok(h.add_colors(&[e(p1, n1), e(p2, n2)], 0.)); } else { ok(h.add_colors(&[e(p2, n2)], 0.)); base(&mut h); ok(h.add_colors(&[e(p1, n1)], 0.)); }
    let mut r = ok(h.quantize(&a));
    let p = r.palette();
    check(p.len() == 15, "colours that posterization does not tell apart become one colour");
    let mut at = 99;
    for (i, q) in p.iter().enumerate() { if (q.r & m == x & m) & (q.g & m == 40 & m) & (q.b & m == 60 & m) { at = i; } }
    check(at < 15, "the merged colour is in the palette");
    if n1 + n2 > 127 { check(at == 0, "merged colours keep their total weight"); cover("heavy"); }
    else if n1 + n2 < 101 { check(at == 14, "merged colours keep their total weight"); cover("light"); }
    cover("done");
}
/// the same histogram gives the same palette again. params as core, 6: fixed colours
pub fn h_repeat() {
    let s = scene();
    let mut a = attr(speed(param(4)), colors(param(5)));
    if bool_("target") { ok(a.set_quality(0, 70)); }
    let mut h = Histogram::new(&a);
    if bool_("from image") { ok(h.add_image(&a, &mut ok(a.new_image(&s.px[..], s.w, s.h, 0.)))); }
    else { let v: Vec<HistogramEntry> = s.px.iter().map(|p| e(*p, 3)).collect(); ok(h.add_colors(&v, 0.)); }
    for _ in 0..param(6) { ok(h.add_fixed_color(MIX8[pick(8, "fixed")], 0.)); }
    let mut r1 = ok(h.quantize(&a));
    let mut r2 = ok(h.quantize(&a));
    same_pal(r1.palette(), r2.palette(), "a histogram gives the same palette again");
    check(r1.quantization_error().map(f64::to_bits) == r2.quantization_error().map(f64::to_bits), "a histogram gives the same error again");
    cover("done");
    obs_pal(r1.palette());
}
