//! memory that cannot be allocated
use crate::com::*;
use crate::core::dither;
use crate::sym::*;
use imagequant::*;

/// 4: speeds, 5: colours, 6: dithering levels, 7: how many blocks may be the one that fails, 8: smallest block that may fail, 9: 1: background, 2: importance map, 4: through a histogram
pub fn oom_rust() {
    let s = scene();
    let (sp, n, d) = (speed(param(4)), colors(param(5)), dither(param(6)));
    let (at, later, how) = (choose(param(7), "which"), bool_("later ones too"), choose(3, "source"));
    let min = param(8) as usize;
    let a = attr(sp, n);
    let map = vec![200u8; s.w * s.h];
    let make = || match how { 0 => a.new_image_borrowed(&s.px, s.w, s.h, 0.), 1 => Image::new_stride_borrowed(&a, &s.px, s.w, s.h, s.w, 0.), _ => {
        let px = &s.px[..]; let w = s.w;
        unsafe { Image::new_fn(&a, move |row: &mut [std::mem::MaybeUninit<RGBA>], y| for (x, o) in row.iter_mut().enumerate() { o.write(px[y * w + x]); }, s.w, s.h, 0.) }
    } };
    let with = param(9);
    let make = || match make() { Ok(mut i) => {
        if with & 1 != 0 { ok(i.set_background(ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.)))); ok(i.add_fixed_color(c(0, 0, 0, 0))); }
        if with & 2 != 0 { ok(i.set_importance_map(&map[..])); }
        Ok(i)
    }, e => e };
    let quantize = |img: &mut Image<'_>| if with & 4 != 0 {
        let mut h = Histogram::new(&a);
        match h.add_image(&a, img) { Ok(()) => h.quantize(&a), Err(e) => {
            check((e == Error::OutOfMemory) & (failed() > 0), "what is missing is memory"); cover("no histogram"); Err(e)
        } }
    } else { a.quantize(img) };
    let want = { let mut img = ok(make()); let mut r = ok(quantize(&mut img)); ok(r.set_dithering_level(d)); ok(r.remapped(&mut img)) };
    let live = heap_live();
    {
        let mut img = ok(make());
        arm(min, at, later);
        let r = quantize(&mut img);
        let lost = failed();
        let mut spoiled = lost > 0 && r.is_ok();
        let mut r = match r {
            Ok(r) => r,
            Err(e) => { check(e == Error::OutOfMemory, "what is missing is memory"); check(lost > 0, "there was enough memory"); disarm(); cover("no palette"); ok(quantize(&mut img)) },
        };
        ok(r.set_dithering_level(d));
        let out = r.remapped(&mut img);
        let now = disarm();
        spoiled |= now > lost && out.is_ok();
        let out = match out {
            Ok(o) => o,
            Err(e) => { check(e == Error::OutOfMemory, "what is missing is memory"); check(now > lost, "there was enough memory"); spoiled |= d != 0.; /* the image keeps its dithering map */ cover("no remapping"); ok(r.remapped(&mut img)) },
        };
        check(out.1.len() == s.px.len(), "every pixel is remapped");
        for i in &out.1 { check((*i as usize) < out.0.len(), "indices are inside the palette"); }
        if !spoiled {
            check(out.0.len() == want.0.len() && out.0.iter().zip(&want.0).all(|(a, b)| eq(*a, *b)), "trying again gives the same palette");
            check(out.1 == want.1, "trying again gives the same indices");
        } else { cover("managed without"); }
        if now == 0 { cover("enough"); }
    }
    check(heap_live() == live, "all memory is released");
    cover("done");
}

/// the colour hidden under fully transparent pixels. 4: speeds, 5: colours, 6: dithering levels, 7: 0: in the image, 1: in the background, 2: in a histogram entry, 3: in a fixed colour, 8: 1: many semi-transparent pixels
pub fn m_hidden() {
    let mut s = scene();
    if param(8) == 1 { for (i, p) in s.px.iter_mut().enumerate() { if i % 3 == 0 { p.a = 64; } } }
    let s = s;
    let (sp, n, d) = (speed(param(4)), colors(param(5)), dither(param(6)));
    let top = choose(8, "top bits") as u8;
    let hidden = c((top & 1) << 7 | bits(7, "r") as u8, (top & 2) << 6 | bits(7, "g") as u8, (top & 4) << 5 | bits(7, "b") as u8, 0);
    let at = [0, s.px.len() / 2, s.px.len() - 1][choose(3, "where") as usize];
    let a = attr(sp, n);
    let run = |h: RGBA| {
        let mut px = s.px.clone();
        if param(7) == 0 { px[at] = h; }
        let mut bg = s.px.clone();
        bg[at] = h;
        let mut img = ok(a.new_image_borrowed(&px, s.w, s.h, 0.));
        if param(7) == 1 { ok(img.set_background(ok(a.new_image_borrowed(&bg, s.w, s.h, 0.)))); }
        if param(7) == 3 { ok(img.add_fixed_color(h)); }
        let mut r = if param(7) == 2 {
            let mut hist = Histogram::new(&a);
            ok(hist.add_colors(&[HistogramEntry { color: c(5, 90, 200, 255), count: 3 }, HistogramEntry { color: h, count: 9 }, HistogramEntry { color: c(250, 0, 90, 128), count: 4 }], 0.));
            ok(hist.add_image(&a, &mut img));
            ok(hist.quantize(&a))
        } else { ok(a.quantize(&mut img)) };
        ok(r.set_dithering_level(d));
        let qe = r.quantization_error();
        let (p, i) = ok(r.remapped(&mut img));
        (p, i, qe, r.remapping_error())
    };
    let (x, y) = (run(hidden), run(c(0, 0, 0, 0)));
    check(x.0.len() == y.0.len(), "hidden colours do not change the palette");
    for k in 0..x.0.len() { check(eq(x.0[k], y.0[k]), "hidden colours do not change the palette"); }
    check(x.1 == y.1, "hidden colours do not change the indices");
    check((x.2 == y.2) & (x.3 == y.3), "hidden colours do not change the reported errors");
    cover("done");
}
