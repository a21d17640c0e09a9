//! Copies of objects, progress callbacks, histories of calls.
use crate::com::*;
use crate::core::dither;
use crate::sym::*;
use imagequant::*;
use std::sync::atomic::{AtomicU32, AtomicBool, Ordering::Relaxed};
use std::sync::Arc;

pub fn result_of(a: &Attributes, img: &mut Image<'_>, d: f32) -> (Vec<RGBA>, Vec<u8>) { let mut r = ok(a.quantize(img)); ok(r.set_dithering_level(d)); ok(r.remapped(img)) }
pub fn same_out(x: &(Vec<RGBA>, Vec<u8>), y: &(Vec<RGBA>, Vec<u8>), m: &'static str) {
    check((x.0.len() == y.0.len()) & (x.1.len() == y.1.len()), m);
    for i in 0..x.0.len().min(y.0.len()) { check(eq(x.0[i], y.0[i]), m); }
    for i in 0..x.1.len().min(y.1.len()) { check(x.1[i] == y.1[i], m); }
}

/// copies of images. 0..3 scene, 4 speeds, 5 colours, 6 dithering
pub fn cl_image() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let d = dither(param(6));
    let (extra, source, late) = (choose(4, "extra"), choose(4, "source"), choose(3, "late"));
    let imp: Vec<u8> = (0..s.px.len()).map(|i| 255u8.wrapping_sub((i as u8).wrapping_mul(40))).collect();
    let stride = s.w + 1;
    let wide: Vec<RGBA> = s.px.chunks(s.w).flat_map(|r| r.iter().copied().chain(Some(c(9, 8, 7, 255)))).collect();
    let row = |out: &mut [std::mem::MaybeUninit<RGBA>], y: usize| for (x, o) in out.iter_mut().enumerate() { o.write(s.px[y * s.w + x]); };
    let make = || {
        let mut i = match source {
            0 => ok(a.new_image(&s.px[..], s.w, s.h, 0.)),
            1 => ok(a.new_image_stride(&wide[..], s.w, s.h, stride, 0.7)),
            2 => ok(unsafe { Image::new_fn(&a, row, s.w, s.h, 0.7) }),
            _ => ok(Image::new_stride_borrowed(&a, &wide[..], s.w, s.h, stride, 0.)),
        };
        match extra {
            1 => ok(i.set_importance_map(&imp[..])),
            2 => ok(i.add_fixed_color(c(1, 250, 120, 255))),
            3 => { let bg: Vec<RGBA> = s.px.iter().rev().copied().collect(); ok(i.add_fixed_color(c(0, 0, 0, 0))); ok(i.set_background(ok(a.new_image(&bg[..], s.w, s.h, 0.)))) }
            _ => {}
        }
        i
    };
    // copied before or after use
    let prepare = |i: &mut Image<'_>| match late {
        0 => None,
        1 => Some(ok(a.quantize(i))),
        _ => { let mut r = ok(a.quantize(i)); ok(r.set_dithering_level(d)); ok(r.remapped(i)); Some(r) }
    };
    let finish = |r: Option<QuantizationResult>, i: &mut Image<'_>| if let Some(mut r) = r { ok(r.set_dithering_level(d)); ok(r.remapped(i)) } else { result_of(&a, i, d) };
    // what happens when nothing is copied
    let want = { let mut i = make(); let r = prepare(&mut i); finish(r, &mut i) };
    let mut orig = make();
    let used = prepare(&mut orig);
    let mut copy = orig.clone();
    check((copy.width() == s.w) & (copy.height() == s.h), "a copy has the same size");
    if bool_("copy survives") {
        drop(orig);
        let got = finish(used, &mut copy);
        same_out(&want, &got, "a copied image gives the same result, even when the original is gone");
        cover("copy");
    } else {
        // whatever is done to the copy does not show in the original
        match choose(4, "do") {
            0 => { ok(copy.add_fixed_color(c(77, 0, 99, 255))); }
            1 => { let _ = copy.set_importance_map(vec![0; s.px.len()]); }
            2 => { ok(copy.set_background(ok(a.new_image(&s.px[..], s.w, s.h, 0.)))); }
            _ => { let b = attr(10, 2); if let Ok(mut r) = b.quantize(&mut copy) { let _ = r.remapped(&mut copy); } }
        }
        drop(copy);
        let got = finish(used, &mut orig);
        same_out(&want, &got, "changing a copied image does not change the original");
        cover("original");
    }
    obs_pal(&want.0);
    obs_idx(&want.1);
}
/// copies of results. params as cl_image
pub fn cl_result() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let d = dither(param(6));
    let mk = || ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut img = mk();
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(d));
    // what happened to the result before it was copied
    let before = choose(5, "before");
    let gamma = if before == 2 { 0.8 } else { 0. };
    match before {
        1 => { let _ = r.palette(); }
        2 => { ok(r.set_output_gamma(gamma)); let _ = r.palette(); }
        3 => { ok(r.remapped(&mut mk())); }
        4 => { let mut i = mk(); ok(r.remapped(&mut i)); let _ = r.palette(); ok(r.remapped(&mut i)); }
        _ => {}
    }
    let want = { let mut i = mk(); let mut r2 = ok(a.quantize(&mut i)); ok(r2.set_dithering_level(d)); if before == 2 { ok(r2.set_output_gamma(gamma)); } ok(r2.remapped(&mut i)) };
    let mut copy = r.clone();
    check((copy.remapping_error().map(f64::to_bits) == r.remapping_error().map(f64::to_bits)) & (copy.remapping_quality() == r.remapping_quality()) & (copy.quantization_quality() == r.quantization_quality()), "a copied result reports the same error");
    check(copy.palette().len() == r.palette().len(), "a copied result has the same palette");
    for (x, y) in copy.palette().iter().zip(r.palette()) { check(eq(*x, *y), "a copied result has the same palette"); }
    check(copy.palette_len() == r.palette_len(), "a copied result has the same palette size");
    check((copy.quantization_error().map(f64::to_bits) == r.quantization_error().map(f64::to_bits)) & (copy.output_gamma() == r.output_gamma()), "a copied result has the same properties");
    let (one, two) = if bool_("use copy") { cover("copy"); (&mut copy, &mut r) } else { cover("original"); (&mut r, &mut copy) };
    match choose(4, "do") {
        0 => { ok(two.set_dithering_level(0.5)); }
        1 => { ok(two.set_output_gamma(0.9)); let _ = two.palette(); }
        2 => { ok(two.remapped(&mut mk())); }
        _ => { two.set_progress_callback(|_| ControlFlow::Break); }
    }
    let got = ok(one.remapped(&mut img));
    same_out(&want, &got, "a copied result and its original do not affect each other");
    obs_pal(&want.0);
}
/// copies of attributes: settings of one do not show in the other; callbacks belong to both. 0: speeds
pub fn cl_attr() {
    let mut a = attr(speed(param(0)), 2 + bits(4, "colors") as u32);
    ok(a.set_quality(bits(5, "qmin") as u8, 31 + bits(6, "qmax") as u8));
    ok(a.set_min_posterization(bits(2, "post") as u8));
    let snap = |a: &Attributes| (a.max_colors(), a.speed(), a.quality(), a.min_posterization());
    let s0 = snap(&a);
    let mut b = a.clone();
    check(snap(&b) == s0, "a copy has the same settings");
    let first = bool_("which");
    { let x = if first { &mut a } else { &mut b };
      ok(x.set_max_colors(200)); ok(x.set_speed(10)); ok(x.set_quality(1, 30)); ok(x.set_min_posterization(4)); }
    let y = if first { &b } else { &a };
    check(snap(y) == s0, "changing one copy does not change the other");
    cover("done");
}

/// what a copy of settings does. 0: speeds
pub fn cl_attr_use() {
    let set = |a: &mut Attributes, s: i32, n: u32, q: (u8, u8), p: u8, l: bool| { ok(a.set_speed(s)); ok(a.set_max_colors(n)); ok(a.set_quality(q.0, q.1)); ok(a.set_min_posterization(p)); a.set_last_index_transparent(l); };
    let (s, n, q, p, last) = (speed(param(0)), [2u32, 3, 256][choose(3, "colors") as usize], [(0u8, 100u8), (30, 60), (99, 100)][choose(3, "quality") as usize], choose(2, "post") as u8 * 2, bool_("last"));
    let mut a = Attributes::new();
    set(&mut a, s, n, q, p, last);
    let mut b = a.clone();
    let first = bool_("which");
    set(if first { &mut a } else { &mut b }, 10, 200, (1, 30), 4, !last);
    let y = if first { &b } else { &a };
    let mut z = Attributes::new();
    set(&mut z, s, n, q, p, last);
    let px = [c(250, 4, 9, 255), c(0, 0, 0, 0), c(9, 200, 9, 255), c(250, 4, 9, 255), c(9, 200, 9, 128), c(1, 2, 3, 255)];
    let run = |a: &Attributes| a.quantize(&mut ok(a.new_image_borrowed(&px[..], 3, 2, 0.)));
    match (run(y), run(&z)) {
        (Ok(mut p), Ok(mut q)) => { check(p.palette().len() == q.palette().len(), "a copy of settings does what the original would do"); for (x, y) in p.palette().iter().zip(q.palette()) { check(eq(*x, *y), "a copy of settings does what the original would do"); } }
        (p, q) => check(p.is_err() == q.is_err(), "a copy of settings does what the original would do"),
    }
    cover("done");
}

/// quantization is aborted exactly when a callback says so. 0..3 scene, 4 speeds, 5 colours, 6: calls considered, 7: qualities
pub fn pr_quantize() {
    let s = scene();
    let n = colors(param(5));
    let mut a = attr(speed(param(4)), n);
    let q = [100u8, 70][choose(param(7).max(1), "target") as usize];
    ok(a.set_quality(0, q));
    let via_hist = bool_("histogram");
    let run = |a: &Attributes, img: &mut Image<'_>| if via_hist { let mut h = Histogram::new(a); match h.add_image(a, img) { Ok(()) => h.quantize(a), Err(e) => Err(e) } } else { a.quantize(img) };
    let plain = ok(run(&a, &mut ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.)))).palette().to_vec();
    let clean = a.clone();
    // the callback says "abort" once (or from then on), at the stop-th call
    let stop = choose(param(6), "stop") as u32;
    let sticky = bool_("sticky");
    let calls = Arc::new(AtomicU32::new(0));
    let bad = Arc::new(AtomicBool::new(false));
    let broke = Arc::new(AtomicBool::new(false));
    let (c2, b2, k2) = (calls.clone(), bad.clone(), broke.clone());
    a.set_progress_callback(move |p| {
        if !((p >= 0.) & (p <= 100.)) { b2.store(true, Relaxed); }
        let i = c2.load(Relaxed);
        c2.store(i + 1, Relaxed);
        if (i == stop) | (sticky & (i > stop)) { k2.store(true, Relaxed); ControlFlow::Break } else { ControlFlow::Continue }
    });
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let res = run(&a, &mut img);
    check(!bad.load(Relaxed), "progress is between 0 and 100");
    match res {
        Ok(mut r) => {
            check(calls.load(Relaxed) >= 2, "progress is reported");
            check(!broke.load(Relaxed), "a callback that aborts makes the operation fail");
            check(r.palette().len() == plain.len(), "watching progress does not change the result");
            for i in 0..plain.len() { check(eq(r.palette()[i], plain[i]), "watching progress does not change the result"); }
            cover("finished");
        }
        Err(e) => { check(e == Error::Aborted, "abort is reported as such"); check(broke.load(Relaxed), "nothing is aborted unless the callback asks"); check(calls.load(Relaxed) == stop + 1, "nothing is reported after an abort"); cover("aborted"); }
    }
    // the objects are as good as before
    let mut r = ok(run(&clean, &mut img));
    check(r.palette().len() == plain.len(), "an image can be used after an abort");
    for i in 0..plain.len() { check(eq(r.palette()[i], plain[i]), "an image can be used after an abort"); }
    observe(u64::from(calls.load(Relaxed)));
}
/// remapping. 0..3 scene, 4 speeds, 5 colours, 6: calls considered, 7: dithering
pub fn pr_remap() {
    let s = scene();
    let a = attr(speed(param(4)), colors(param(5)));
    let mk = || ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let d = dither(param(7));
    let plain = result_of(&a, &mut mk(), d);
    let mut img = mk();
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(d));
    let p0 = r.clone().palette().to_vec();
    let stop = choose(param(6), "stop") as u32;
    let calls = Arc::new(AtomicU32::new(0));
    let bad = Arc::new(AtomicBool::new(false));
    let (c2, b2) = (calls.clone(), bad.clone());
    r.set_progress_callback(move |p| {
        if !((p >= 0.) & (p <= 100.)) { b2.store(true, Relaxed); }
        let i = c2.load(Relaxed);
        c2.store(i + 1, Relaxed);
        if i == stop { ControlFlow::Break } else { ControlFlow::Continue }
    });
    let mut buf = vec![];
    let res = r.remap_into_vec(&mut img, &mut buf);
    check(!bad.load(Relaxed), "remapping progress is between 0 and 100");
    check(calls.load(Relaxed) >= 1, "remapping progress is reported");
    let broke = calls.load(Relaxed) > stop;
    match res {
        Ok(p) => { check(!broke, "a callback that aborts makes remapping fail"); same_out(&plain, &(p, buf), "watching progress does not change remapping"); cover("finished"); }
        Err(e) => {
            check((e == Error::Aborted) & broke, "remapping is aborted only on request");
            check(calls.load(Relaxed) == stop + 1, "nothing is reported after an abort");
            check(r.palette().len() == p0.len(), "an aborted remapping leaves the result's palette alone");
            for i in 0..p0.len() { check(eq(r.palette()[i], p0[i]), "an aborted remapping leaves the result's palette alone"); }
            // the second attempt is not interrupted
            let (p, ix) = ok(r.remapped(&mut img));
            check(ix.len() == s.px.len(), "remapping can be repeated after an abort");
            for i in &ix { check((*i as usize) < p.len(), "pixel index is inside the palette"); }
            cover("aborted");
        }
    }
    observe(u64::from(calls.load(Relaxed)));
}

/// any history of calls on valid objects ends in a value or an error. 0 w 1 h 2 alphabet 3 symbolic pixels 4 speeds 5 colours 6 calls
pub fn n_history() {
    let s = scene();
    let mut a = attr(speed(param(4)), colors(param(5)));
    let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
    let mut hist = Histogram::new(&a);
    let mut res: Option<QuantizationResult> = if param(7) > 0 { Some(ok(a.quantize(&mut img))) } else { None };
    for _ in 0..param(6) {
        match choose(14, "call") {
            0 => { let _ = img.add_fixed_color(MIX8[3 + choose(2, "fixed") as usize * 4]); }
            1 => { let _ = img.set_importance_map((0..s.px.len()).map(|i| [0u8, 255, 1, 7][i % 4]).collect::<Vec<_>>()); }
            2 => { let _ = img.set_background(ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.))); }
            3 => { let _ = a.set_min_posterization(1 + 3 * choose(2, "bits") as u8); }
            4 => { let q = [(0, 0), (1, 60), (100, 100)][choose(3, "quality") as usize]; let _ = a.set_quality(q.0, q.1); }
            5 => { res = match a.quantize(&mut img) { Ok(r) => Some(r), Err(e) => { check((e == Error::QualityTooLow) | (e == Error::Unsupported), "quantization fails only for quality, or because the image's pixels are gone"); res } }; }
            6 => { if let Err(e) = hist.add_image(&a, &mut img) { check(e == Error::Unsupported, "adding an image fails only if its pixels are gone"); } }
            7 => { ok(hist.add_colors(&[HistogramEntry { color: MIX8[4], count: [1, u32::MAX][choose(2, "count") as usize] }], 0.)); }
            8 => { ok(hist.add_fixed_color(MIX8[3 + choose(2, "hfixed") as usize * 4], 0.)); }
            9 => { res = match hist.quantize(&a) { Ok(r) => Some(r), Err(e) => { check((e == Error::QualityTooLow) | (e == Error::Unsupported), "quantization fails only for quality or an empty histogram"); res } }; }
            10 => { if let Some(r) = &mut res { let _ = r.set_dithering_level([0., 0.3][choose(2, "level") as usize]); } }
            11 => { if let Some(r) = &mut res { let _ = r.set_output_gamma([0.0001, 0.99][choose(2, "gamma") as usize]); check(!r.palette().is_empty(), "palette is never empty"); } }
            12 => { img = img.clone(); res = res.clone(); a = a.clone(); }
            _ => { if let Some(r) = &mut res { match r.remapped(&mut img) { Ok((p, ix)) => { check(ix.len() == s.px.len(), "one index per pixel"); for i in &ix { check((*i as usize) < p.len(), "pixel index is inside the palette"); } cover("remapped"); } Err(_) => check(false, "remapping a valid image works") } } }
        }
    }
    if let Some(r) = &mut res { check(!r.palette().is_empty() & (r.palette().len() <= 256), "palette size is within limits"); cover("result"); }
}
