//! The C interface: handles, ownership of memory, equality with the Rust interface.
use crate::com::*;
use crate::core::dither;
use crate::lives::same_out;
use crate::sym::*;
use imagequant::*;
use imagequant_sys::*;
use std::mem::{size_of, MaybeUninit};
use std::os::raw::{c_char, c_int, c_void};
use std::ptr;

const OK: liq_error = liq_error::LIQ_OK;
const BAD: liq_error = liq_error::InvalidPointer;
unsafe extern "C" fn no_progress(_: f32, _: AnySyncSendPtr) -> c_int { 1 }
unsafe extern "C" fn no_log(_: &liq_attr, _: *const c_char, _: AnySyncSendPtr) {}
unsafe extern "C" fn no_flush(_: &liq_attr, _: AnySyncSendPtr) {}
unsafe extern "C" fn no_row(_: *mut MaybeUninit<RGBA>, _: c_int, _: c_int, _: AnySyncSendPtr) {}
fn nil() -> AnySyncSendPtr { AnySyncSendPtr::default() }
static PX: [RGBA; 4] = [c(0, 0, 0, 255), c(255, 0, 0, 255), c(9, 90, 200, 128), c(0, 0, 0, 0)];

struct Set { a: Box<liq_attr>, i: Box<liq_image<'static>>, r: Box<liq_result>, h: Box<liq_histogram> }
fn set() -> Set {
    let mut a = some(liq_attr_create());
    let mut i = some(unsafe { liq_image_create_rgba(&a, PX.as_ptr(), 2, 2, 0.) });
    let r = some(liq_quantize_image(&mut a, &mut i));
    let h = some(liq_histogram_create(&a));
    Set { a, i, r, h }
}
unsafe fn tag<T>(x: &T) -> usize { *(x as *const T).cast::<usize>() }

/// something that is not the expected kind of object: any other tag is refused, and the memory is not touched. 0: kind of handle
pub fn c_handles() {
    unsafe {
        let mut s = set();
        let kind = param(0);
        let (want, size) = match kind { 0 => (tag(&*s.a), size_of::<liq_attr>()), 1 => (tag(&*s.i), size_of::<liq_image>()), 2 => (tag(&*s.r), size_of::<liq_result>()), _ => (tag(&*s.h), size_of::<liq_histogram>()) };
        // arbitrary memory, or an object of another kind
        let m = match choose(5, "tag") { 0 => u64_("magic") as usize, 1 => tag(&*s.a), 2 => tag(&*s.i), 3 => tag(&*s.r), _ => tag(&*s.h) };
        assume(m != want);
        let words = size / 8 + 2;
        let mut blob: Vec<usize> = (0..words).map(|i| i * 0x0101_0101).collect();
        blob[0] = m;
        let p = blob.as_mut_ptr();
        let a = &mut *p.cast::<liq_attr>();
        let i = &mut *p.cast::<liq_image>();
        let r = &mut *p.cast::<liq_result>();
        let h = &mut *p.cast::<liq_histogram>();
        let mut out: MaybeUninit<Option<Box<liq_result>>> = MaybeUninit::new(None);
        let mut buf = [MaybeUninit::new(77u8); 4];
        let mut rows = [buf.as_mut_ptr(), buf.as_mut_ptr().add(2)];
        let e = [HistogramEntry { color: PX[0], count: 1 }];
        let refused = match kind {
            0 => match choose(24, "call") {
                0 => { liq_set_last_index_transparent(a, 1); true }
                1 => liq_set_max_colors(a, 16) == BAD,
                2 => liq_get_max_colors(a) == !0,
                3 => liq_set_min_posterization(a, 1) == BAD,
                4 => liq_get_min_posterization(a) == !0,
                5 => liq_set_speed(a, 3) == BAD,
                6 => liq_get_speed(a) == !0,
                7 => liq_set_quality(a, 0, 50) == BAD,
                8 => liq_get_min_quality(a) == !0,
                9 => liq_get_max_quality(a) == !0,
                10 => liq_attr_copy(a).is_none(),
                11 => liq_histogram_create(a).is_none(),
                12 => liq_image_create_rgba(a, PX.as_ptr(), 2, 2, 0.).is_none(),
                13 => liq_image_create_rgba_rows(a, [PX.as_ptr()].as_ptr(), 2, 1, 0.).is_none(),
                14 => liq_image_create_custom(a, no_row, nil(), 2, 2, 0.).is_none(),
                15 => { liq_attr_set_progress_callback(a, no_progress, nil()); true }
                16 => { liq_set_log_callback(a, no_log, nil()); true }
                17 => { liq_set_log_flush_callback(a, no_flush, nil()); true }
                18 => liq_quantize_image(a, &mut s.i).is_none(),
                19 => liq_image_quantize(&mut s.i, a, &mut out) == BAD,
                20 => liq_histogram_quantize(&mut s.h, a, &mut out) == BAD,
                21 => liq_histogram_add_colors(&mut s.h, a, e.as_ptr(), 1, 0.) == BAD,
                22 => { liq_attr_destroy(Some(Box::from_raw(p.cast()))); true }
                _ => liq_histogram_add_image(&mut s.h, a, &mut s.i) == BAD,
            },
            1 => match choose(13, "call") {
                0 => liq_image_get_width(i) == !0,
                1 => liq_image_get_height(i) == !0,
                2 => liq_image_add_fixed_color(i, PX[0]) == BAD,
                3 => liq_image_set_importance_map(i, buf.as_mut_ptr().cast(), 4, liq_ownership::LIQ_COPY_PIXELS) == BAD,
                4 => liq_image_set_memory_ownership(i, liq_ownership::LIQ_OWN_PIXELS) == BAD,
                5 => liq_image_set_background(i, some(liq_image_create_rgba(&s.a, PX.as_ptr(), 2, 2, 0.))) == BAD,
                6 => liq_quantize_image(&mut s.a, i).is_none(),
                7 => liq_image_quantize(i, &mut s.a, &mut out) == BAD,
                8 => liq_write_remapped_image(&mut s.r, i, buf.as_mut_ptr(), 4) == BAD,
                9 => liq_write_remapped_image_rows(&mut s.r, i, rows.as_mut_ptr()) == BAD,
                10 => { liq_image_destroy(Some(Box::from_raw(p.cast()))); true }
                11 => liq_image_set_background(&mut s.i, Box::from_raw(p.cast())) == BAD,
                _ => liq_histogram_add_image(&mut s.h, &s.a, i) == BAD,
            },
            2 => match choose(12, "call") {
                0 => liq_get_palette(r).is_none(),
                1 => liq_set_output_gamma(r, 0.5) == BAD,
                2 => liq_set_dithering_level(r, 0.5) == BAD,
                3 => liq_get_output_gamma(r) == -1.,
                4 => liq_get_quantization_error(r) == -1.,
                5 => liq_get_remapping_error(r) == -1.,
                6 => liq_get_quantization_quality(r) == -1,
                7 => liq_get_remapping_quality(r) == -1,
                8 => liq_write_remapped_image(r, &mut s.i, buf.as_mut_ptr(), 4) == BAD,
                9 => liq_write_remapped_image_rows(r, &mut s.i, rows.as_mut_ptr()) == BAD,
                10 => { liq_result_destroy(Some(Box::from_raw(p.cast()))); true }
                _ => { liq_result_set_progress_callback(r, no_progress, nil()); true }
            },
            _ => match choose(5, "call") {
                0 => liq_histogram_add_fixed_color(h, PX[0], 0.) == BAD,
                1 => liq_histogram_add_colors(h, &s.a, e.as_ptr(), 1, 0.) == BAD,
                2 => liq_histogram_add_image(h, &s.a, &mut s.i) == BAD,
                3 => { liq_histogram_destroy(Some(Box::from_raw(p.cast()))); true }
                _ => liq_histogram_quantize(h, &s.a, &mut out) == BAD,
            },
        };
        check(refused, "a handle of the wrong kind is refused");
        let mut same = *p == m;
        for k in 1..words { same &= *p.add(k) == k * 0x0101_0101; }
        check(same, "memory behind an invalid handle is left alone");
        for b in &buf { check(b.assume_init() == 77, "nothing is written for an invalid handle"); }
        cover("refused");
        // the valid objects still work
        check((liq_get_max_colors(&s.a) == 256) & (liq_image_get_width(&s.i) == 2), "valid handles still work");
        check(liq_write_remapped_image(&mut s.r, &mut s.i, buf.as_mut_ptr(), 4) == OK, "valid handles still work");
    }
}
/// null pointers for memory (not handles)
pub fn c_nulls() {
    unsafe {
        let mut s = set();
        let n = u32_("entries") as i32;
        match choose(8, "call") {
            0 => check(liq_write_remapped_image(&mut s.r, &mut s.i, ptr::null_mut(), 4) == BAD, "a null buffer is refused"),
            1 => check(liq_write_remapped_image_rows(&mut s.r, &mut s.i, ptr::null_mut()) == BAD, "a null row array is refused"),
            2 => check(liq_image_set_importance_map(&mut s.i, ptr::null_mut(), 4, liq_ownership::LIQ_COPY_PIXELS) == BAD, "a null importance map is refused"),
            3 => check(liq_image_create_rgba(&s.a, ptr::null(), 2, 2, 0.).is_none(), "a null bitmap is refused"),
            4 => check(liq_image_create_rgba_rows(&s.a, ptr::null(), 2, 2, 0.).is_none(), "a null row array is refused"),
            5 => check(liq_image_create_rgba_rows(&s.a, [PX.as_ptr(), ptr::null()].as_ptr(), 2, 2, 0.).is_none(), "a null row is refused"),
            6 => { let r = liq_histogram_add_colors(&mut s.h, &s.a, ptr::null(), n, 0.); check(r == if n < 0 { liq_error::ValueOutOfRange } else if n == 0 { OK } else { BAD }, "a null list of colours is refused unless it is empty"); if n == 0 { cover("empty"); } if n < 0 { cover("negative"); } }
            _ => { liq_attr_destroy(None); liq_image_destroy(None); liq_result_destroy(None); liq_histogram_destroy(None); }
        }
        cover("done");
    }
}

// ---- ownership: a recording deallocator ----
static mut FREED: [usize; 8] = [0; 8];
static mut NFREED: usize = 0;
unsafe extern "C" fn rec_free(p: *mut c_void) { check(NFREED < 8, "far too many frees"); FREED[NFREED] = p as usize; NFREED += 1; let v = p.cast::<u8>(); ptr::write_volatile(v, ptr::read_volatile(v)); libc_free(p); }
extern "C" { #[link_name = "malloc"] fn libc_malloc(n: usize) -> *mut c_void; #[link_name = "free"] fn libc_free(p: *mut c_void); }
unsafe fn times(p: *const c_void) -> usize { let mut n = 0; for i in 0..NFREED { if FREED[i] == p as usize { n += 1; } } n }
unsafe fn alloc_px(px: &[RGBA]) -> *mut RGBA { let p = libc_malloc(px.len() * 4).cast::<RGBA>(); for (i, x) in px.iter().enumerate() { *p.add(i) = *x; } p }
#[allow(deprecated)]
fn rec_attr() -> Box<liq_attr> { some(liq_attr_create_with_allocator(ptr::null_mut(), rec_free)) }

/// memory given to an image is freed exactly once if ownership was taken, never otherwise. 0: calls, 1: width, 2: height
pub fn c_owner() {
    unsafe {
        let mut a = rec_attr();
        check(liq_set_speed(&mut a, if bool_("fast") { 10 } else { 4 }) == OK, "speed is valid");
        let flip = bool_("flip");
        // a copy of the settings frees memory with the same deallocator
        if flip { let b = some(liq_attr_copy(&a)); liq_attr_destroy(Some(a)); a = b; }
        let base = heap_live();
        let (w, h) = (param(1) as usize, param(2) as usize);
        let px: Vec<RGBA> = (0..w * h).map(fill).collect();
        let pixels = alloc_px(&px);
        let rows = libc_malloc(h * 8).cast::<*const RGBA>();
        // the rows may be in any order
        for y in 0..h { *rows.add(y) = pixels.add(w * if flip { h - 1 - y } else { y }); }
        let by_rows = bool_("rows");
        let mut img = some(if by_rows { liq_image_create_rgba_rows(&a, rows, w as u32, h as u32, 0.) } else { liq_image_create_rgba(&a, pixels, w as u32, h as u32, 0.) });
        let (mut own_px, mut own_rows) = (false, false);
        let mut remapped = false;
        let mut res = None;
        for _ in 0..param(0) {
            match choose(4, "call") {
                0 => {
                    let f = bits(6, "flags") as i32;
                    let e = liq_image_set_memory_ownership(&mut img, liq_ownership::from_bits_retain(f));
                    let valid = (f & !12 == 0) & (f != 0);
                    if e == OK { check(valid, "only known ownership flags are accepted"); own_px |= f & 8 != 0; own_rows |= (f & 4 != 0) & by_rows; cover("owned"); }
                    else { check(!valid | remapped, "ownership can be given away before remapping"); check(if valid { e == liq_error::Unsupported } else { e == liq_error::ValueOutOfRange }, "refusal names the reason"); cover("refused"); }
                }
                1 => { let q = liq_quantize_image(&mut a, &mut img); if q.is_some() { res = q; } else { check(remapped, "an image can be quantized until it is remapped"); } }
                2 => { if let Some(r) = &mut res { let mut buf = vec![MaybeUninit::new(0u8); w * h]; check(liq_write_remapped_image(r, &mut img, buf.as_mut_ptr(), w * h) == OK, "remapping works"); remapped = true; cover("remapped"); } }
                _ => { check(liq_image_get_width(&img) == w as u32, "the image knows its size"); }
            }
            check(times(pixels.cast()) <= usize::from(own_px), "memory is not freed unless owned, and only once");
            check(times(rows.cast()) <= usize::from(own_rows), "the row array is not freed unless owned, and only once");
        }
        // the image goes away in any order with the other objects
        if bool_("result first") { liq_result_destroy(res.take()); }
        liq_image_destroy(Some(img));
        check(times(pixels.cast()) == usize::from(own_px), "owned pixels are freed exactly once");
        check(times(rows.cast()) == usize::from(own_rows), "an owned row array is freed exactly once");
        check(NFREED == usize::from(own_px) + usize::from(own_rows), "nothing else is freed");
        liq_result_destroy(res);
        drop(px);
        check(heap_live() == base, "destroying the objects releases everything they allocated");
        if !own_px { libc_free(pixels.cast()); }
        if !own_rows { libc_free(rows.cast()); }
        cover("done");
        liq_attr_destroy(Some(a));
    }
}
/// a background belongs to the image it was given to
pub fn c_background() {
    unsafe {
        let a = rec_attr();
        let base = heap_live();
        let (bp, ip) = (alloc_px(&PX), alloc_px(&PX));
        let mut img = some(liq_image_create_rgba(&a, ip, 2, 2, 0.));
        let fits = bool_("fits");
        let mut bg = some(if fits { liq_image_create_rgba(&a, bp, 2, 2, 0.) } else { liq_image_create_rgba(&a, bp, 4, 1, 0.) });
        let own = bool_("own");
        if own { check(liq_image_set_memory_ownership(&mut bg, liq_ownership::LIQ_OWN_PIXELS) == OK, "ownership is taken"); }
        let nested = bool_("nested");
        if nested { check(liq_image_set_background(&mut bg, some(if fits { liq_image_create_rgba(&a, PX.as_ptr(), 2, 2, 0.) } else { liq_image_create_rgba(&a, PX.as_ptr(), 4, 1, 0.) })) == OK, "a background is accepted"); }
        let e = liq_image_set_background(&mut img, bg);
        if fits & !nested { check(e == OK, "a matching background is accepted"); check(times(bp.cast()) == 0, "an accepted background is kept"); cover("kept"); }
        else { check(e != OK, "a mismatched background is refused"); check(times(bp.cast()) == usize::from(own), "a refused background is released"); cover("released"); }
        if bool_("replace") & fits & !nested {
            check(liq_image_set_background(&mut img, some(liq_image_create_rgba(&a, PX.as_ptr(), 2, 2, 0.))) == OK, "a background can be replaced");
            check(times(bp.cast()) == usize::from(own), "a replaced background is released"); cover("replaced");
        }
        if bool_("use") { let mut a2 = some(liq_attr_copy(&a)); let mut r = some(liq_quantize_image(&mut a2, &mut img)); let mut b = [MaybeUninit::new(9u8); 4]; check(liq_write_remapped_image(&mut r, &mut img, b.as_mut_ptr(), 4) == OK, "remapping works"); liq_result_destroy(Some(r)); liq_attr_destroy(Some(a2)); }
        liq_image_destroy(Some(img));
        check(times(bp.cast()) == usize::from(own), "an owned background's pixels are freed exactly once");
        check(times(ip.cast()) == 0, "memory that was not given away is not freed");
        check(heap_live() == base, "destroying the objects releases everything they allocated");
        if !own { libc_free(bp.cast()); }
        libc_free(ip.cast());
        cover("done");
        liq_attr_destroy(Some(a));
    }
}
/// importance maps over the C interface: size, ownership, meaning of the buffer afterwards. 0: which part
pub fn c_importance() {
    unsafe {
        let mut a = rec_attr();
        check(liq_set_max_colors(&mut a, 2) == OK, "two colours");
        let base = heap_live();
        let map = libc_malloc(8).cast::<u8>();
        for i in 0..8 { *map.add(i) = 255; }
        let v = u8_("importance");
        *map.add(1) = v;
        let mut img = some(liq_image_create_rgba(&a, PX.as_ptr(), 2, 2, 0.));
        let f = bits(6, "flags") as i32;
        let n = choose(8, "size") as usize;
        let e = liq_image_set_importance_map(&mut img, map, n, liq_ownership::from_bits_retain(f));
        let valid = (n >= 4) & ((f == 16) | (f == 8));
        if e == OK { check(valid, "importance map needs the right size and a known ownership"); } else { check(!valid, "a valid importance map is accepted"); check(e == if n == 0 { BAD } else if n < 4 { liq_error::BufferTooSmall } else { liq_error::Unsupported }, "refusal names the reason"); cover("refused"); }
        let taken = e == OK && f == 8;
        check(times(map.cast()) == usize::from(taken), "an importance map is freed exactly when it was given away");
        if e == OK {
            if !taken { for i in 0..8 { *map.add(i) = 0; } cover("copied"); } else { cover("taken"); }
            let mut r = some(liq_quantize_image(&mut a, &mut img));
            let got = some(liq_get_palette(&mut r));
            let ra = attr(4, 2);
            let mut ri = ok(ra.new_image_borrowed(&PX, 2, 2, 0.));
            ok(ri.set_importance_map(&[255u8, v, 255, 255][..]));
            let mut rr = ok(ra.quantize(&mut ri));
            let p = rr.palette();
            check(got.count as usize == p.len(), "the importance map is used as given");
            for i in 0..p.len() { check(eq(got.entries[i], p[i]), "the importance map is used as given"); }
            drop(rr); drop(ri); drop(ra);
            liq_result_destroy(Some(r));
        }
        liq_image_destroy(Some(img));
        check(times(map.cast()) == usize::from(taken), "an importance map is freed at most once");
        check(heap_live() == base, "destroying the objects releases everything they allocated");
        if !taken { libc_free(map.cast()); }
        liq_attr_destroy(Some(a));
        cover("done");
    }
}
/// every object, used in a small scenario, is released by its destroy function in any order
pub fn c_destroy() {
    unsafe {
        let base = heap_live();
        let mut a = rec_attr();
        let a2 = some(liq_attr_copy(&a));
        let mut i = some(liq_image_create_rgba(&a, PX.as_ptr(), 2, 2, 0.));
        let mut h = some(liq_histogram_create(&a));
        let mut r: Option<Box<liq_result>> = None;
        if bool_("add") { check(liq_histogram_add_image(&mut h, &a, &mut i) == OK, "adding works"); }
        check(liq_histogram_add_fixed_color(&mut h, PX[1], 0.) == OK, "adding works");
        if bool_("log") { liq_set_log_callback(&mut a, no_log, nil()); liq_set_log_flush_callback(&mut a, no_flush, nil()); }
        if bool_("progress") { liq_attr_set_progress_callback(&mut a, no_progress, nil()); }
        match choose(4, "make") {
            0 => r = liq_quantize_image(&mut a, &mut i),
            1 => { let mut o = MaybeUninit::uninit(); check(liq_image_quantize(&mut i, &mut a, &mut o) == OK, "quantization works"); r = o.assume_init(); }
            2 => { let mut o = MaybeUninit::uninit(); check(liq_histogram_quantize(&mut h, &a, &mut o) == OK, "quantization works"); r = o.assume_init(); }
            _ => { check(liq_set_quality(&mut a, 100, 100) == OK, "quality is valid"); check(liq_set_max_colors(&mut a, 2) == OK, "colours are valid"); let mut o = MaybeUninit::new(None); let e = liq_image_quantize(&mut i, &mut a, &mut o); check(e == liq_error::QualityTooLow, "failure is reported"); check(o.assume_init().is_none(), "a failed call stores a null result"); cover("failed"); }
        }
        if let Some(r) = &mut r { let mut b = [MaybeUninit::new(9u8); 4]; if bool_("remap") { check(liq_write_remapped_image(r, &mut i, b.as_mut_ptr(), 4) == OK, "remapping works"); } check(liq_get_palette(r).is_some(), "palette is there"); }
        let order = choose(4, "order");
        let (mut a, mut i, mut h, mut a2) = (Some(a), Some(i), Some(h), Some(a2));
        for k in 0..5 {
            match (k + order) % 5 { 0 => liq_attr_destroy(a.take()), 1 => liq_image_destroy(i.take()), 2 => liq_histogram_destroy(h.take()), 3 => liq_attr_destroy(a2.take()), _ => liq_result_destroy(r.take()) }
        }
        check(NFREED == 0, "memory that was not given away is not freed");
        check(heap_live() == base, "destroying the objects releases everything they allocated");
        cover("done");
    }
}

/// remapping over the C interface: buffer sizes and row arrays. 0..3 scene, 4 speeds, 5 colours, 6 dithering
pub fn c_remap() {
    unsafe {
        let s = scene();
        let (w, h) = (s.w, s.h);
        let mut a = some(liq_attr_create());
        let n = colors(param(5));
        check(liq_set_speed(&mut a, speed(param(4))) == OK, "speed is valid");
        check(liq_set_max_colors(&mut a, n) == OK, "colours are valid");
        let mut img = some(liq_image_create_rgba(&a, s.px.as_ptr(), w as u32, h as u32, 0.));
        let mut r = some(liq_quantize_image(&mut a, &mut img));
        let d = dither(param(6));
        check(liq_set_dithering_level(&mut r, d) == OK, "dithering level is valid");
        let guard = u8_("guard");
        let area = w * h;
        let mut buf = vec![MaybeUninit::new(guard); area * 2 + 8];
        let rowmode = bool_("rows");
        let gap = 1usize;
        if rowmode {
            // rows in reverse order with a gap between them
            let at = |y: usize| 2 + (h - 1 - y) * (w + gap);
            let mut rows: Vec<*mut MaybeUninit<u8>> = (0..h).map(|y| buf.as_mut_ptr().add(at(y))).collect();
            check(liq_write_remapped_image_rows(&mut r, &mut img, rows.as_mut_ptr()) == OK, "remapping into rows succeeds");
            let pal = some(liq_get_palette(&mut r));
            check((pal.count >= 1) & (pal.count <= n), "palette has 1 to max-colours entries");
            // what ends up in the rows is what the Rust interface produces
            let want = rust_out(&s.px, w, h, speed_of(&a), n, d);
            check(pal.count as usize == want.0.len(), "both interfaces give the same palette");
            let mut touched = vec![false; buf.len()];
            for y in 0..h { for x in 0..w { let v = buf[at(y) + x].assume_init(); touched[at(y) + x] = true; check(u32::from(v) < pal.count, "pixel index is inside the palette"); check(v == want.1[y * w + x], "rows receive the pixels of their row"); } }
            for (i, b) in buf.iter().enumerate() { if !touched[i] { check(b.assume_init() == guard, "nothing is written outside the rows"); } }
            cover("rows");
        } else {
            let size = match choose(4, "size") { 0 => area - 1, 1 => area, 2 => area + 1, _ => 0 };
            let e = liq_write_remapped_image(&mut r, &mut img, buf.as_mut_ptr(), size);
            if size < area {
                check(e == liq_error::BufferTooSmall, "a too small buffer is refused");
                for b in &buf { check(b.assume_init() == guard, "a refused buffer is left alone"); }
                cover("too small");
            } else {
                check(e == OK, "remapping into a large enough buffer succeeds");
                let pal = some(liq_get_palette(&mut r));
                for (i, b) in buf.iter().enumerate() { let b = b.assume_init(); if i < area { check(u32::from(b) < pal.count, "pixel index is inside the palette"); } else { check(b == guard, "nothing is written past the image"); } }
                cover("written");
            }
        }
    }
}
fn speed_of(a: &liq_attr) -> i32 { liq_get_speed(a) as i32 }
fn rust_out(px: &[RGBA], w: usize, h: usize, sp: i32, n: u32, d: f32) -> (Vec<RGBA>, Vec<u8>) {
    let a = attr(sp, n);
    let mut i = ok(a.new_image_borrowed(px, w, h, 0.));
    crate::lives::result_of(&a, &mut i, d)
}

struct Src { w: usize, h: usize, px: *const RGBA, calls: u32 }
unsafe extern "C" fn src_row(out: *mut MaybeUninit<RGBA>, y: c_int, width: c_int, u: AnySyncSendPtr) {
    let s = &mut *u.0.cast::<Src>();
    check((y >= 0) & ((y as usize) < s.h), "the callback is asked for rows of the image only");
    check(width as usize == s.w, "the callback is told the image's width");
    s.calls += 1;
    for x in 0..s.w { (*out.add(x)).write(*s.px.add(y as usize * s.w + x)); }
}
/// however the same pixels are supplied, the result is the same. 0..3 scene, 4 speeds, 5 colours, 6 dithering
pub fn same_source() {
    let s = scene();
    let (w, h) = (s.w, s.h);
    let sp = speed(param(4));
    let n = colors(param(5));
    let d = dither(param(6));
    let want = rust_out(&s.px, w, h, sp, n, d);
    let a = attr(sp, n);
    let go = |img: &mut Image<'_>| crate::lives::result_of(&a, img, d);
    let row = |out: &mut [MaybeUninit<RGBA>], y: usize| { check((y < h) & (out.len() == w), "row callback is asked for one whole row of the image"); for x in 0..w { out[x].write(s.px[y * w + x]); } };
    let st = w + 3;
    let mut strided = vec![c(66, 6, 66, 66); st * h];
    for y in 0..h { for x in 0..w { strided[y * st + x] = s.px[y * w + x]; } }
    let got = match choose(11, "source") {
        0 => go(&mut ok(a.new_image(&s.px[..], w, h, 0.))),
        1 => go(&mut ok(a.new_image_stride(&strided[..], w, h, st, 0.))),
        2 => go(&mut ok(Image::new_stride_borrowed(&a, &strided, w, h, st, 0.))),
        3 => go(&mut ok(unsafe { Image::new_fn(&a, row, w, h, 0.) })),
        4 => { let i = ok(unsafe { Image::new_fn(&a, row, w, h, 0.) }); go(&mut i.clone()) }
        5 => go(&mut ok(a.new_image_borrowed(&s.px, w, h, 0.45455))),
        k => unsafe {
            let mut ca = some(liq_attr_create());
            check(liq_set_speed(&mut ca, sp) == OK, "speed is valid");
            check(liq_set_max_colors(&mut ca, n) == OK, "colours are valid");
            let mut src = Src { w, h, px: s.px.as_ptr(), calls: 0 };
            let rows: Vec<*const RGBA> = (0..h).map(|y| strided.as_ptr().wrapping_add(y * st)).collect();
            let mut img = some(match k { 6 | 9 => liq_image_create_rgba(&ca, s.px.as_ptr(), w as u32, h as u32, 0.), 7 | 10 => liq_image_create_rgba_rows(&ca, rows.as_ptr(), w as u32, h as u32, 0.), _ => liq_image_create_custom(&ca, src_row, AnySyncSendPtr((&mut src as *mut Src).cast()), w as u32, h as u32, 0.) });
            let mut r = if k < 9 { some(liq_quantize_image(&mut ca, &mut img)) } else { let mut o = MaybeUninit::uninit(); check(liq_image_quantize(&mut img, &mut ca, &mut o) == OK, "quantization works"); some(o.assume_init()) };
            check(liq_set_dithering_level(&mut r, d) == OK, "dithering level is valid");
            let mut buf = vec![MaybeUninit::new(0u8); w * h];
            check(liq_write_remapped_image(&mut r, &mut img, buf.as_mut_ptr(), w * h) == OK, "remapping works");
            if k == 8 { check(src.calls as usize >= h, "every row is asked for"); }
            let p = some(liq_get_palette(&mut r));
            cover("C");
            (p.entries[..p.count as usize].to_vec(), buf.iter().map(|b| b.assume_init()).collect())
        },
    };
    same_out(&want, &got, "the way the pixels are supplied does not matter");
    cover("done");
    obs_pal(&want.0);
    obs_idx(&want.1);
}
/// both interfaces, all settings and numbers. 0..3 scene, 4 speeds, 5 colours
pub fn same_api() {
    let s = scene();
    let (w, h) = (s.w, s.h);
    let sp = speed(param(4));
    let n = colors(param(5));
    let (q0, q1) = [(0, 100), (0, 60), (50, 90), (100, 100)][choose(4, "quality") as usize];
    let post = choose(3, "post") as u8;
    let last = bool_("last");
    let gamma = [0., 0.7][choose(2, "gamma") as usize];
    let out_gamma = bool_("outgamma");
    let fixed = bool_("fixed");
    let mut a = attr(sp, n);
    ok(a.set_quality(q0, q1)); ok(a.set_min_posterization(post)); a.set_last_index_transparent(last);
    let mut ri = ok(a.new_image_borrowed(&s.px, w, h, gamma));
    if fixed { ok(ri.add_fixed_color(c(4, 5, 6, 255))); }
    let rr = a.quantize(&mut ri);
    unsafe {
        let mut ca = some(liq_attr_create());
        check((liq_set_speed(&mut ca, sp) == OK) & (liq_set_max_colors(&mut ca, n) == OK) & (liq_set_quality(&mut ca, q0.into(), q1.into()) == OK) & (liq_set_min_posterization(&mut ca, post.into()) == OK), "settings are valid");
        liq_set_last_index_transparent(&mut ca, if last { [-1, 256][choose(2, "nonzero") as usize] } else { 0 });
        let mut ci = some(liq_image_create_rgba(&ca, s.px.as_ptr(), w as u32, h as u32, gamma));
        if fixed { check(liq_image_add_fixed_color(&mut ci, c(4, 5, 6, 255)) == OK, "fixed colour is accepted"); }
        let mut o = MaybeUninit::uninit();
        let e = liq_image_quantize(&mut ci, &mut ca, &mut o);
        let cr = o.assume_init();
        match rr {
            Err(er) => { check((e == er) & cr.is_none(), "both interfaces fail alike"); cover("fails"); }
            Ok(mut r) => {
                check(e == OK, "both interfaces succeed alike");
                let mut q = some(cr);
                if out_gamma { ok(r.set_output_gamma(0.6)); check(liq_set_output_gamma(&mut q, 0.6) == OK, "gamma is valid"); }
                check(liq_get_output_gamma(&q) == r.output_gamma(), "both interfaces report the same gamma");
                let e0 = r.quantization_error();
                check(liq_get_quantization_error(&q).to_bits() == e0.unwrap_or(-1.).to_bits(), "both interfaces report the same error");
                check(liq_get_quantization_quality(&q) == r.quantization_quality().map_or(-1, i32::from), "both interfaces report the same quality");
                let mut buf = vec![MaybeUninit::new(0u8); w * h];
                let (p, ix) = ok(r.remapped(&mut ri));
                check(liq_write_remapped_image(&mut q, &mut ci, buf.as_mut_ptr(), w * h) == OK, "remapping works");
                check(liq_get_remapping_error(&q).to_bits() == r.remapping_error().unwrap_or(-1.).to_bits(), "both interfaces report the same remapping error");
                check(liq_get_remapping_quality(&q) == r.remapping_quality().map_or(-1, i32::from), "both interfaces report the same remapping quality");
                let cp = some(liq_get_palette(&mut q));
                same_out(&(p, ix), &(cp.entries[..cp.count as usize].to_vec(), buf.iter().map(|b| b.assume_init()).collect()), "both interfaces give the same result");
                cover("same");
            }
        }
    }
}
/// histograms over both interfaces. 0..3 scene, 4 speeds, 5 colours
pub fn same_hist() {
    let s = scene();
    let (w, h) = (s.w, s.h);
    let sp = speed(param(4));
    let n = colors(param(5));
    let a = attr(sp, n);
    let mut rh = Histogram::new(&a);
    let list: Vec<HistogramEntry> = s.px.iter().enumerate().map(|(i, p)| HistogramEntry { color: *p, count: 1 + 9 * i as u32 }).collect();
    let (img, lst, fix) = (bool_("image"), bool_("list"), bool_("fixed"));
    assume(img | lst | fix);
    let gamma = [0., 0.7][choose(2, "gamma") as usize];
    unsafe {
        let mut ca = some(liq_attr_create());
        check((liq_set_speed(&mut ca, sp) == OK) & (liq_set_max_colors(&mut ca, n) == OK), "settings are valid");
        let mut ch = some(liq_histogram_create(&ca));
        if lst { ok(rh.add_colors(&list, gamma)); check(liq_histogram_add_colors(&mut ch, &ca, list.as_ptr(), list.len() as i32, gamma) == OK, "colours are added"); }
        if img { ok(rh.add_image(&a, &mut ok(a.new_image_borrowed(&s.px, w, h, gamma)))); check(liq_histogram_add_image(&mut ch, &ca, &mut *some(liq_image_create_rgba(&ca, s.px.as_ptr(), w as u32, h as u32, gamma))) == OK, "the image is added"); }
        if fix { ok(rh.add_fixed_color(c(3, 200, 4, 255), gamma)); check(liq_histogram_add_fixed_color(&mut ch, c(3, 200, 4, 255), gamma) == OK, "the fixed colour is added"); }
        let mut r = ok(rh.quantize(&a));
        let mut o = MaybeUninit::uninit();
        check(liq_histogram_quantize(&mut ch, &ca, &mut o) == OK, "quantization works");
        let mut q = some(o.assume_init());
        let cp = some(liq_get_palette(&mut q));
        let p = r.palette();
        check(cp.count as usize == p.len(), "both interfaces give the same palette");
        for i in 0..p.len() { check(eq(cp.entries[i], p[i]), "both interfaces give the same palette"); }
        cover("done");
    }
}
struct Prog { stop: u32, calls: u32, bad: bool }
unsafe extern "C" fn progress(p: f32, u: AnySyncSendPtr) -> c_int { let s = &mut *u.0.cast::<Prog>(); s.bad |= !((p >= 0.) & (p <= 100.)); s.calls += 1; if s.calls - 1 == s.stop { 0 } else { [1, -1, 256][(s.calls % 3) as usize] } }
/// aborting over the C interface. 0..3 scene, 4 speeds, 5 colours, 6: calls
pub fn c_progress() {
    let s = scene();
    let n = colors(param(5));
    unsafe {
        let mut a = some(liq_attr_create());
        check((liq_set_speed(&mut a, speed(param(4))) == OK) & (liq_set_max_colors(&mut a, n) == OK), "settings are valid");
        let mut img = some(liq_image_create_rgba(&a, s.px.as_ptr(), s.w as u32, s.h as u32, 0.));
        let mut st = Prog { stop: choose(param(6), "stop") as u32, calls: 0, bad: false };
        let u = AnySyncSendPtr((&mut st as *mut Prog).cast());
        if bool_("quantizing") {
            liq_attr_set_progress_callback(&mut a, progress, u);
            let mut o = MaybeUninit::uninit();
            let e = liq_image_quantize(&mut img, &mut a, &mut o);
            let r = o.assume_init();
            check(!st.bad, "progress is between 0 and 100");
            let broke = st.calls > st.stop;
            check(e == if broke { liq_error::Aborted } else { OK }, "quantization is aborted exactly when the callback returns zero");
            check(r.is_none() == broke, "an aborted call gives no result");
            if broke { cover("aborted"); } else { cover("finished"); }
        } else {
            let mut r = some(liq_quantize_image(&mut a, &mut img));
            liq_result_set_progress_callback(&mut r, progress, u);
            let mut buf = vec![MaybeUninit::new(0u8); s.px.len()];
            let e = liq_write_remapped_image(&mut r, &mut img, buf.as_mut_ptr(), s.px.len());
            check(!st.bad, "remapping progress is between 0 and 100");
            let broke = st.calls > st.stop;
            check(e == if broke { liq_error::Aborted } else { OK }, "remapping is aborted exactly when the callback returns zero");
            if broke { cover("remap aborted"); } else { cover("remap finished"); }
        }
    }
}

struct Log { who: *const liq_attr, speed: c_int, msgs: u32, flushes: u32, unflushed: bool, bad: bool, sealed: bool }
unsafe extern "C" fn on_log(a: &liq_attr, m: *const c_char, u: AnySyncSendPtr) {
    let st = &mut *u.0.cast::<Log>();
    let mut n = 0;
    while *m.add(n) != 0 { n += 1; }
    st.bad |= st.sealed | (n > 4000) | !ptr::eq(a, st.who) | (liq_get_speed(a) as c_int != st.speed);
    st.msgs += 1;
    st.unflushed = true;
}
unsafe extern "C" fn on_flush(a: &liq_attr, u: AnySyncSendPtr) {
    let st = &mut *u.0.cast::<Log>();
    st.bad |= !ptr::eq(a, st.who);
    st.flushes += 1;
    st.unflushed = false;
}
/// log and flush callbacks of the C interface. 4: speeds, 5: colours
pub fn c_log() {
    let s = scene();
    let (n, sp, q) = (colors(param(5)), speed(param(4)), [(0, 100), (0, 60), (100, 100)][choose(3, "quality") as usize]);
    unsafe {
        let run = |a: &mut liq_attr| {
            let mut img = some(liq_image_create_rgba(a, s.px.as_ptr(), s.w as u32, s.h as u32, 0.));
            let mut o = MaybeUninit::uninit();
            let e = liq_image_quantize(&mut img, a, &mut o);
            let mut out = vec![MaybeUninit::new(0u8); s.px.len()];
            let (mut pal, mut idx) = (Vec::new(), Vec::new());
            if let Some(mut r) = o.assume_init() {
                check(e == OK, "a result means success");
                check(liq_write_remapped_image(&mut r, &mut img, out.as_mut_ptr(), out.len()) == OK, "remapping works");
                if let Some(p) = liq_get_palette(&mut r) { pal.extend_from_slice(p); }
                idx.extend(out.iter().map(|x| x.assume_init()));
                liq_result_destroy(Some(r));
            }
            liq_image_destroy(Some(img));
            (e, pal, idx)
        };
        let make = || {
            let mut a = some(liq_attr_create());
            check((liq_set_speed(&mut a, sp) == OK) & (liq_set_max_colors(&mut a, n) == OK) & (liq_set_quality(&mut a, q.0, q.1) == OK), "settings are valid");
            a
        };
        let mut plain = make();
        let want = run(&mut plain);
        liq_attr_destroy(Some(plain));

        let mut a = make();
        let mut st = Log { who: &*a, speed: sp, msgs: 0, flushes: 0, unflushed: false, bad: false, sealed: false };
        let mut old = Log { who: &*a, speed: sp, msgs: 0, flushes: 0, unflushed: false, bad: false, sealed: true };
        let (u, v) = (AnySyncSendPtr((&mut st as *mut Log).cast()), AnySyncSendPtr((&mut old as *mut Log).cast()));
        let (log, flush, replace, copy) = (bool_("log"), bool_("flush"), choose(3, "replace"), bool_("copy"));
        if log && replace == 1 { liq_set_log_callback(&mut a, on_log, v); }
        if flush && replace == 2 { liq_set_log_flush_callback(&mut a, on_flush, v); }
        let old_flushes = if flush && replace == 2 { old.flushes = 0; true } else { false };
        if flush { liq_set_log_flush_callback(&mut a, on_flush, u); }
        if old_flushes { check(old.flushes == 1, "a replaced flush callback is called a last time"); }
        let f = st.flushes;
        if log { liq_set_log_callback(&mut a, on_log, u); }
        check(st.flushes == f + u32::from(flush && log), "messages are flushed before another log callback is set");
        let original = if copy {
            let b = some(liq_attr_copy(&a));
            st.who = &*b;
            let o = std::mem::replace(&mut a, b);
            Some(o)
        } else { None };
        let got = run(&mut a);
        check(got.0 == want.0, "logging does not change whether quantization works");
        check(got.1.len() == want.1.len() && got.1.iter().zip(&want.1).all(|(a, b)| eq(*a, *b)), "logging does not change the palette");
        check(got.2 == want.2, "logging does not change the indices");
        check(!st.bad, "callbacks get the settings object in use and a text");
        if log { check(st.msgs > 0, "quantization logs something"); cover("logged"); }
        let f = st.flushes;
        liq_attr_destroy(Some(a));
        check(st.flushes == f + u32::from(flush), "destroying the settings flushes once");
        if flush { check(!st.unflushed, "no message is left unflushed"); cover("flushed"); }
        check(!st.bad, "flushing gets the settings object in use");
        if let Some(o) = original {
            st.who = &*o;
            let f = st.flushes;
            liq_attr_destroy(Some(o));
            check(st.flushes == f + u32::from(flush), "the copied settings flush on their own");
            check(!st.bad, "flushing gets the copied settings object");
            cover("copy");
        }
        check((old.msgs == 0) & (old.flushes <= 1), "replaced callbacks are not called any more");
        if got.0 != OK { cover("failed"); }
        cover("done");
    }
}
/// the same for the Rust interface
pub fn r_log() {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    use std::sync::Arc;
    let s = scene();
    let (n, sp, q) = (colors(param(5)), speed(param(4)), [(0, 100), (0, 60), (100, 100)][choose(3, "quality") as usize]);
    let run = |a: &Attributes| {
        let mut img = ok(a.new_image_borrowed(&s.px, s.w, s.h, 0.));
        match a.quantize(&mut img) {
            Ok(mut r) => { let (p, x) = ok(r.remapped(&mut img)); Ok((p, x)) },
            Err(e) => Err(e),
        }
    };
    let mut a = attr(sp, n);
    ok(a.set_quality(q.0, q.1));
    let want = run(&a);
    let (msgs, flushes, bad) = (Arc::new(AtomicU32::new(0)), Arc::new(AtomicU32::new(0)), Arc::new(AtomicU32::new(0)));
    {
        let mut b = attr(sp, n);
        ok(b.set_quality(q.0, q.1));
        let (m, f, x) = (msgs.clone(), flushes.clone(), bad.clone());
        let (log, flush, copy) = (bool_("log"), bool_("flush"), bool_("copy"));
        if flush { b.set_log_flush_callback(move |_| { f.fetch_add(1, SeqCst); }); }
        if log { b.set_log_callback(move |a, t| { m.fetch_add(1, SeqCst); if t.len() > 4000 || a.speed() as i32 != sp || a.max_colors() != n { x.fetch_add(1, SeqCst); } }); }
        let before = flushes.load(SeqCst);
        check(before == u32::from(flush && log), "messages are flushed before another log callback is set");
        let extra = if copy { Some(b.clone()) } else { None };
        let got = run(extra.as_ref().unwrap_or(&b));
        check(bad.load(SeqCst) == 0, "callbacks get the settings in use and a text");
        match (&want, &got) {
            (Ok(w), Ok(g)) => {
                check(w.0.len() == g.0.len() && w.0.iter().zip(&g.0).all(|(a, b)| eq(*a, *b)), "logging does not change the palette");
                check(w.1 == g.1, "logging does not change the indices");
            },
            (Err(w), Err(g)) => { check(w == g, "logging does not change the error"); cover("failed"); },
            _ => check(false, "logging does not change whether quantization works"),
        }
        check(!log || msgs.load(SeqCst) > 0, "quantization logs something");
        drop(b);
        drop(extra);
        check(flushes.load(SeqCst) == before + u32::from(flush) * (1 + u32::from(copy)), "destroying each settings object flushes once");
    }
    cover("done");
}

/// memory runs out inside a C call: reported, nothing freed twice or leaked, and the objects stay usable. 4: speeds, 5: colours, 6: dithering levels, 7: how many blocks may be the one that fails, 8: smallest block that may fail
pub fn oom_c() {
    let s = scene();
    let (n, sp, d) = (colors(param(5)), speed(param(4)), dither(param(6)));
    let (at, later, own, hist) = (choose(param(7), "which"), bool_("later ones too"), bool_("own"), bool_("histogram"));
    unsafe {
        let mut a = rec_attr();
        check((liq_set_speed(&mut a, sp) == OK) & (liq_set_max_colors(&mut a, n) == OK), "settings are valid");
        let base = heap_live();
        let px = alloc_px(&s.px);
        let mut img = some(liq_image_create_rgba(&a, px, s.w as u32, s.h as u32, 0.));
        if own { check(liq_image_set_memory_ownership(&mut img, liq_ownership::LIQ_OWN_PIXELS) == OK, "ownership is taken"); }
        let quantize = |a: &mut liq_attr, img: &mut liq_image<'static>| {
            let mut o = MaybeUninit::uninit();
            if hist {
                let mut h = some(liq_histogram_create(a));
                let mut e = liq_histogram_add_image(&mut h, a, img);
                if e == OK { e = liq_histogram_quantize(&mut h, a, &mut o); } else { o.write(None); cover("no histogram"); }
                liq_histogram_destroy(Some(h));
                (e, o.assume_init())
            } else { let e = liq_image_quantize(img, a, &mut o); (e, o.assume_init()) }
        };
        let mut out = vec![MaybeUninit::new(255u8); s.px.len()];
        arm(param(8) as usize, at, later);
        let (mut e, mut r) = quantize(&mut a, &mut img);
        let lost = failed();
        check((e == OK) == r.is_some(), "a result means success");
        if e != OK {
            check((e == liq_error::OutOfMemory) & (lost > 0), "what is missing is memory");
            disarm();
            (e, r) = quantize(&mut a, &mut img);
            check(e == OK, "trying again works");
            cover("no palette");
        }
        let mut r = some(r);
        check(liq_set_dithering_level(&mut r, d) == OK, "dithering is valid");
        let e = liq_write_remapped_image(&mut r, &mut img, out.as_mut_ptr(), out.len());
        let now = disarm();
        if e != OK {
            check((e == liq_error::OutOfMemory) & (now > lost), "what is missing is memory");
            check(liq_write_remapped_image(&mut r, &mut img, out.as_mut_ptr(), out.len()) == OK, "trying again works");
            cover("no remapping");
        }
        let count = some(liq_get_palette(&mut r)).count;
        for i in &out { check(u32::from(i.assume_init()) < count, "indices are inside the palette"); }
        drop(out);
        liq_result_destroy(Some(r));
        liq_image_destroy(Some(img));
        check(times(px.cast()) == usize::from(own), "pixels are freed exactly when they were given away");
        check(NFREED == usize::from(own), "nothing else is freed");
        check(heap_live() == base, "all memory is released");
        if !own { libc_free(px.cast()); }
        liq_attr_destroy(Some(a));
        cover("done");
    }
}
