use crate::com::*;
use crate::sym::*;
use imagequant::*;
use imagequant_sys::*;
use std::mem::MaybeUninit;

static BUF: [RGBA; 24] = { let mut b = [c(0, 0, 0, 255); 24]; let mut i = 0; while i < 24 { b[i].r = (i * 10) as u8; b[i].g = (i as u8) ^ 0x55; i += 1; } b };

/// interesting extents: zero, small, around every integer-width limit
static EXT: [u64; 14] = [0, 1, 2, 3, 5, 7, 65536, 1 << 27, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, u64::MAX];
/// two extents: one arbitrary 64-bit word, the other from EXT (either way round)
fn extents() -> (usize, usize) {
    let e = EXT[choose(14, "extent") as usize];
    let v = u64_("dim");
    if bool_("swap") { (e as usize, v as usize) } else { (v as usize, e as usize) }
}
fn area_limit(w: usize, h: usize) -> bool { // w*h pixels of working copy cannot be addressed
    const L: u64 = isize::MAX as u64 / 16;
    (w as u64) > L / if h == 0 { 1 } else { h as u64 }
}
/// buffer length up to 6 pixels; one of width/height/stride arbitrary, the others from the list
pub fn img_sizes() {
    let a = Attributes::new();
    let n = if param(0) > 1 { choose(7, "len") } else { [0, 1, 4, 6][choose(4, "len") as usize] } as usize;
    let kind = if param(0) > 1 { choose(4, "kind") } else { choose(2, "kind") * 2 + choose(2, "own") };
    let (w, h, stride);
    if kind < 2 { (w, h) = extents(); stride = w; }
    else {
        let small = [0usize, 1, 2, 3, 1 << 32, 1 << 31, 6, 7, usize::MAX];
        let v = u64_("dim") as usize;
        let (p, q) = (small[choose(if param(0) > 1 { 9 } else { 5 }, "p") as usize], small[choose(if param(0) > 1 { 9 } else { 5 }, "q") as usize]);
        match choose(3, "which") { 0 => { w = v; h = p; stride = q; } 1 => { w = p; h = v; stride = q; } _ => { w = p; h = q; stride = v; } }
    }
    let gamma = [0., 1., 0.45455, -0.1, 1.01, f64::NAN][choose(param(0), "gamma") as usize];
    let r = match kind {
        0 => a.new_image_borrowed(&BUF[..n], w, h, gamma),
        1 => a.new_image(&BUF[..n], w, h, gamma),
        2 => Image::new_stride_borrowed(&a, &BUF[..n], w, h, stride, gamma),
        _ => a.new_image_stride(&BUF[..n], w, h, stride, gamma),
    };
    // the pixels of row y occupy [y*stride, y*stride+w) of at most 6 pixels
    let one = (h == 1) & (w <= n);
    let more = (h >= 2) & (h <= 6) & (stride <= 6) & (w <= 6) & ((h & 7) * (stride & 7) + (w & 7) <= n + (stride & 7));
    let fits = (w >= 1) & (stride >= w) & (one | more) & (stride <= u32::MAX as usize);
    let g = (gamma >= 0.) & (gamma <= 1.);
    match r {
        Ok(i) => { check(fits & g, "an image that its buffer cannot hold was accepted"); check((i.width() == w) & (i.height() == h), "image dimensions read back"); cover("accepted"); if stride > w { cover("padded"); } }
        Err(e) => { check(!(fits & g), "a valid image description was rejected"); check((e == Error::BufferTooSmall) | (e == Error::ValueOutOfRange), "rejection names the size problem"); cover("rejected"); }
    }
}
/// gamma of an image: any 64-bit floating-point pattern
pub fn img_gamma() {
    let a = Attributes::new();
    let gamma = f64_("gamma");
    let r = match choose(3, "kind") { 0 => a.new_image_borrowed(&BUF[..4], 2, 2, gamma), 1 => a.new_image(&BUF[..4], 2, 2, gamma), _ => unsafe { Image::new_fn(&a, |_, _| {}, 2, 2, gamma) } };
    let g = (gamma >= 0.) & (gamma <= 1.);
    match r { Ok(_) => { check(g, "an invalid image gamma was accepted"); cover("accepted"); } Err(e) => { check(!g, "a valid image gamma was rejected"); check(e == Error::ValueOutOfRange, "gamma rejected as out of range"); cover("rejected"); } }
}
/// callback images: arbitrary sizes
pub fn img_fn_sizes() {
    let a = Attributes::new();
    let (w, h) = extents();
    let r = unsafe { Image::new_fn(&a, |_, _| {}, w, h, 0.) };
    let valid = (w >= 1) & (h >= 1) & (w <= i32::MAX as usize) & (h <= i32::MAX as usize);
    match r {
        Ok(i) => { check(valid & !area_limit(w, h), "an impossible image size was accepted"); check((i.width() == w) & (i.height() == h), "image dimensions read back"); cover("accepted"); }
        Err(e) => { check(!(valid & !area_limit(w, h)), "a valid image size was rejected"); check(e == Error::ValueOutOfRange, "rejected as out of range"); cover("rejected"); }
    }
}
fn c_fits(w: u32, h: u32) -> bool { // documented limit of the bitmap constructors: 2^31 bytes of pixels
    (w >= 1) & (h >= 1) & (w <= (i32::MAX / 4) as u32 / if h == 0 { 1 } else { h }) & (w <= (i32::MAX / 64) as u32) & (h <= (i32::MAX / 8) as u32)
}
/// C constructors: sizes, gamma and null pointers
pub fn img_c_sizes() {
    let a = some(liq_attr_create());
    let gamma = [0., 1., 1.01, f64::NAN][choose(4, "gamma") as usize];
    let g = (gamma >= 0.) & (gamma <= 1.);
    let null = bool_("null");
    unsafe {
        match choose(3, "ctor") {
            0 => {
                // the bitmap is not touched by the constructor; its height is listed so that the row table stays small
                let (w, h) = (u32_("w"), [0, 1, 2, 3, 4, 1 << 28, 1 << 31, u32::MAX][choose(8, "h") as usize]);
                let p = if null { std::ptr::null() } else { BUF.as_ptr() };
                match liq_image_create_rgba(&a, p, w, h, gamma) {
                    Some(i) => { check(c_fits(w, h) & g & !null, "C: invalid bitmap description accepted"); check((liq_image_get_width(&i) == w) & (liq_image_get_height(&i) == h), "C: dimensions read back"); cover("rgba accepted"); liq_image_destroy(Some(i)); }
                    None => { check(!(c_fits(w, h) & g & !null), "C: valid bitmap description rejected"); cover("rgba rejected"); }
                }
            }
            1 => {
                let (w, h) = (u32_("w"), [0, 1, 2, 3, 1 << 28, 1 << 31, u32::MAX][choose(7, "h") as usize]);
                let mut rows = [BUF.as_ptr(), BUF.as_ptr().wrapping_add(3), BUF.as_ptr().wrapping_add(6)];
                let bad = choose(4, "nullrow") as usize;
                if bad < 3 { rows[bad] = std::ptr::null(); }
                let r = liq_image_create_rgba_rows(&a, if null { std::ptr::null() } else { rows.as_ptr() }, w, h, gamma);
                let valid = c_fits(w, h) & g & !null & (h as usize <= bad);
                match r {
                    Some(i) => { check(valid, "C: invalid row array accepted"); check((liq_image_get_width(&i) == w) & (liq_image_get_height(&i) == h), "C: dimensions read back"); cover("rows accepted"); liq_image_destroy(Some(i)); }
                    None => { check(!valid, "C: valid row array rejected"); cover("rows rejected"); }
                }
            }
            _ => {
                extern "C" fn cb(_: *mut MaybeUninit<RGBA>, _: i32, _: i32, _: AnySyncSendPtr) {}
                let e = [0, 1, 2, 65536, 1 << 28, (1 << 31) - 1, 1 << 31, u32::MAX][choose(8, "extent") as usize];
                let v = u32_("dim");
                let (w, h) = if bool_("swap") { (e, v) } else { (v, e) };
                let r = liq_image_create_custom(&a, cb, AnySyncSendPtr::default(), w, h, gamma);
                let valid = (w >= 1) & (h >= 1) & (w <= i32::MAX as u32) & (h <= i32::MAX as u32) & !area_limit(w as usize, h as usize) & g;
                match r {
                    Some(i) => { check(valid, "C: impossible callback image accepted"); check((liq_image_get_width(&i) == w) & (liq_image_get_height(&i) == h), "C: dimensions read back"); cover("custom accepted"); liq_image_destroy(Some(i)); }
                    None => { check(!valid, "C: valid callback image rejected"); cover("custom rejected"); }
                }
            }
        }
    }
}

/// Quantise without loss and remap without dithering: the pixels the library really read.
fn readback(a: &Attributes, img: &mut Image<'_>) -> Vec<RGBA> {
    let mut r = ok(a.quantize(img));
    ok(r.set_dithering_level(0.));
    let (p, ix) = ok(r.remapped(img));
    ix.iter().map(|&i| p[i as usize]).collect()
}
/// every pixel is read from its documented place, whatever the width, height, stride and way of supplying it
pub fn img_addressing() {
    let a = Attributes::new();
    let w = 1 + choose(param(0), "w") as usize;
    let h = 1 + choose(param(0), "h") as usize;
    let pad = choose(3, "pad") as usize;
    let stride = w + pad;
    let mut buf = [c(7, 7, 7, 255); 32];
    for y in 0..h { for x in 0..w { buf[y * stride + x] = c(16 * y as u8 + x as u8, 200, 100, 255); } }
    // padding (and everything past the last row) is arbitrary and must not matter
    let v = u8_("padding");
    for (i, p) in buf.iter_mut().enumerate() { if i % stride >= w || i / stride >= h { *p = c(v, 1, 2, v); } }
    // one pixel of the image is arbitrary too
    let (sx, sy) = (choose(w as u64, "sx") as usize, choose(h as u64, "sy") as usize);
    let mark = c(u8_("mark"), 33, 44, 255);
    buf[sy * stride + sx] = mark;
    let len = stride * (h - 1) + w;
    let exact = bool_("exactlen");
    let src = if exact { &buf[..len] } else { &buf[..] };
    let rowcb = |out: &mut [MaybeUninit<RGBA>], y: usize| { check(y < h, "row callback asked for a row outside the image"); check(out.len() == w, "row callback got a slice that is not one row wide"); for (x, o) in out.iter_mut().enumerate() { o.write(buf[y * stride + x]); } };
    let out = match choose(5, "source") {
        0 => readback(&a, &mut ok(Image::new_stride_borrowed(&a, src, w, h, stride, 0.))),
        1 => readback(&a, &mut ok(a.new_image_stride(src, w, h, stride, 0.))),
        2 => readback(&a, &mut ok(unsafe { Image::new_fn(&a, rowcb, w, h, 0.) })),
        3 => { let mut i = ok(a.new_image_stride(src, w, h, stride, 0.)).clone(); readback(&a, &mut i) }
        _ => { let mut i = { let i = ok(unsafe { Image::new_fn(&a, rowcb, w, h, 0.) }); i.clone() }; readback(&a, &mut i) }
    };
    check(out.len() == w * h, "one output pixel per input pixel");
    for y in 0..h { for x in 0..w { check(eq(out[y * w + x], buf[y * stride + x]), "pixel taken from its documented position"); } }
    cover("done");
}
/// as many rows as there are, however many: images taller or wider than 16 bits count. 0: list of extents
pub fn img_long() {
    let mut a = Attributes::new();
    ok(a.set_speed(10));
    let n = [65536usize, 65535, 70001][choose(param(0), "extent") as usize];
    let (w, h) = if bool_("tall") { (1, n) } else { (n, 1) };
    let mut px = vec![c(0, 0, 0, 255); n];
    let v = [0, 128][choose(2, "v") as usize];
    px[n - 1] = c(255, v, 255, 255);
    let mut img = if bool_("callback") { ok(unsafe { Image::new_fn(&a, |out: &mut [MaybeUninit<RGBA>], y: usize| { check((y < h) & (out.len() == w), "row callback asked for a row outside the image"); for (x, o) in out.iter_mut().enumerate() { o.write(px[y * w + x]); } }, w, h, 0.) }) } else { ok(a.new_image_borrowed(&px, w, h, 0.)) };
    check((img.width() == w) & (img.height() == h), "the size of an image reads back");
    let mut r = ok(a.quantize(&mut img));
    ok(r.set_dithering_level(0.));
    let (p, ix) = ok(r.remapped(&mut img));
    check(ix.len() == n, "one output pixel per input pixel");
    check(eq(p[ix[0] as usize], c(0, 0, 0, 255)) & eq(p[ix[n - 2] as usize], c(0, 0, 0, 255)), "pixels of a long image are read from their place");
    let got = p[ix[n - 1] as usize];
    check((got.r == 255) & (got.b == 255) & (got.a == 255), "the last pixel of a long image is read");
    cover("done");
}
