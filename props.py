"""The properties and the harness configurations that decide them (read by check.py and gen.py)."""
ALPHA = {0: '16 colours (opaque extremes, near-duplicates, semi- and fully transparent)', 1: '8 opaque colours', 2: '8 opaque colours with near-duplicates', 3: '8 colours, mostly with transparency', 4: '4 colours of every transparency kind', 5: '8 colours of every transparency kind', 6: '8 colours close to each other', 7: '8 colours of every transparency kind, the other pixels all of different opaque colours', 8: '8 opaque colours, the other pixels all of different opaque colours'}
SPEEDS = ['4', '1,4,7,8,10', '1..10', '1,3,7', '1,5,10', '10', '6,8,10']
COLORS = ['256', '2', '2,3,256', '2,3,4,5,7,16,255,256', '2,4', '3']

def R(harness, params=(), covers=(), bounds='', profile='release', **k):
    return dict(harness=harness, params=list(params), covers=list(covers), bounds=bounds, profile=profile, **k)
def S(harness, p, covers=(), extra='', profile='release', **k):
    """a configuration whose first six parameters are width, height, alphabet, symbolic pixels, speeds, max colours"""
    n = min(p[3], p[0] * p[1])
    b = f'{p[0]}x{p[1]} image, {n} of {p[0]*p[1]} pixels symbolic over {ALPHA[p[2]]}, speeds {SPEEDS[p[4]]}, max colours {COLORS[p[5]]}'
    return R(harness, p, covers, b + ('; ' + extra if extra else ''), profile, **k)
def T(harness, p, decisions, threads, covers=(), extra='', **k):
    """the multi-threaded build: parameters 13..15 are processors, symbolic scheduling decisions, threads"""
    f = S if len(p) > 5 else R
    c = f(harness, p, covers, f'2 processors, {threads} threads, first {decisions} scheduling decisions symbolic (next item among the first 3 waiting, thread, early or late start), the rest irregular' + ('; ' + extra if extra else ''), 'threads', **k)
    c['params'] = list(p) + [0] * (13 - len(p)) + [2, decisions, threads]
    return c
LOW = 'images of more than 8 pixels are processed row by row (limit lowered by the hook from 4 million pixels)'
def L(harness, p, covers=(), extra='', **k): return S(harness, p, covers, LOW + ('; ' + extra if extra else ''), 'lowmem', **k)
def checked(l): return [dict(c, profile='checked') for c in l]
def both(l): return list(l) + checked([c for c in l if c['profile'] == 'release'])

CL = 'owned, strided, callback or borrowed pixels, two gammas, with a map, fixed colour or background; copied before use, after quantizing or after remapping; dithering off and on'
DITHER = ['greys', 'red', 'green', 'blue', 'opacity']
D1, D2 = 'dithering off and on', 'dithering 0, 0.001, 0.5, 1'

COMMON_ASSUMPTIONS = [
    'encoding: LLVM IR that rustc/LLVM produce for the library, its dependencies, std and the harness (whole program, fat LTO); the compiler up to that point and LLVM\'s IR semantics are trusted, and every run replays sampled paths on the native binary',
    'powf/powi/sqrt/fma on concrete operands are computed by the host libm; on symbolic operands with a small domain each value is evaluated the same way; memory allocation never fails (except in C31)',
    'single-threaded build of the library (feature "threads" off), except where a configuration names the threads profile',
    'symbolic inputs are exactly those listed per run; everything not listed is concrete',
]

PROPS = {}
def P(id, **k): PROPS[id] = k

P('C01', title='Settings are range-checked, atomic, and read back exactly',
  statement='Every setting (maximum colours, speed, quality range, posterization) accepts exactly its documented range and reads back the value that was set, over both the Rust and the C interface. A rejected call reports that the value is out of range and changes nothing, and no setting disturbs another, except that later calls of the same setting replace earlier ones.',
  over=['inputs', 'histories'], qtext='all 32-bit (C) or full-width (Rust) argument values, all sequences of setting calls',
  why='Tests try a handful of values per setter; wrap-around of 32-bit C arguments, boundary values and interactions between setters need every value and every sequence.',
  files=['src/attr.rs', 'imagequant-sys/src/ffi.rs'], mech=[('range checks of the setters', 'src/attr.rs set_max_colors/set_quality/set_speed/set_min_posterization'), ('quality kept as an error bound and mapped back', 'src/attr.rs quality(), src/quant.rs mse_to_quality'), ('C wrappers', 'imagequant-sys/src/ffi.rs liq_set_*/liq_get_*')],
  quick=[R('set_rust', [1], ['colors ok', 'colors rejected', 'speed ok', 'speed rejected', 'post ok', 'post rejected', 'quality ok', 'quality rejected'], 'one call, every value of every argument'),
         R('set_rust', [3, 1], ['quality ok', 'speed rejected'], 'all sequences of 3 calls; full-width colours/speed/posterization, quality arguments from 8 boundary values'),
         R('set_capi', [1], ['colors ok', 'quality ok', 'quality rejected', 'post rejected', 'speed rejected'], 'one C call, every 32-bit value of every argument'),
         R('set_capi', [2, 1], ['quality ok', 'post rejected'], 'all sequences of 2 C calls; quality and posterization arguments from 8 boundary values')],
  thorough=[R('set_rust', [2], ['quality ok'], 'all sequences of 2 calls, every value of every argument', time=2400), R('set_rust', [4, 1], ['quality ok'], 'all sequences of 4 calls, quality from 8 boundary values', time=2400), R('set_capi', [3, 1], ['quality ok'], 'all sequences of 3 C calls', time=2400), R('set_rust', [3, 1], [], 'as quick', 'checked'), R('set_capi', [1], [], 'as quick', 'checked')])

P('C02', title='Images are accepted only when their buffer holds them, and read as documented',
  statement='An image description is accepted exactly when its sizes are positive and supported, every row lies inside the supplied buffer, and its gamma is between 0 and 1; anything else is rejected with an error and no memory outside the buffer is ever read. The pixel at column x of row y is taken from position y*stride+x (or from row y of a row list or callback), and bytes between rows never influence anything.',
  over=['inputs', 'configurations'], qtext='all widths, heights, strides, buffer lengths, gammas (bit patterns), all ways of supplying pixels',
  why='Integer-overflow and off-by-one acceptance errors need particular 64-bit sizes; tests use a few ordinary sizes, and never vary the bytes between rows.',
  files=['src/image.rs', 'src/rows.rs', 'src/seacow.rs', 'src/attr.rs', 'imagequant-sys/src/ffi.rs'], mech=[('size and gamma checks', 'src/image.rs new_internal/check_image_size/new_stride_internal'), ('row slicing', 'src/rows.rs PixelsSource::for_pixels, DynamicRows'), ('C size checks', 'imagequant-sys/src/ffi.rs liq_image_create_*')],
  quick=[R('img_sizes', [1], ['accepted', 'padded', 'rejected'], 'buffers of 0,1,4,6 pixels; one of width/height/stride an arbitrary 64-bit value, the others from lists around 0, small values and 2^32'),
         R('img_gamma', [0], ['accepted', 'rejected'], 'every 64-bit floating-point pattern'), R('img_fn_sizes', [0], ['accepted', 'rejected'], 'callback images: one extent arbitrary, the other from 14 values around every integer-width limit'),
         R('img_c_sizes', [0], ['custom accepted', 'custom rejected', 'rgba accepted', 'rgba rejected', 'rows accepted', 'rows rejected'], 'C constructors: arbitrary 32-bit width, listed heights, null pointers and rows, 4 gammas'),
         R('img_long', [2], ['done'], 'a single row or column of 65536 or 65535 pixels, pixels or callback; last pixel one of 2 colours'),
         R('img_addressing', [3], ['done'], 'all sizes up to 3x3, padding 0..2, arbitrary padding bytes, one arbitrary pixel byte, 5 ways of supplying pixels, buffer exact or longer')],
  thorough=[R('img_sizes', [2], ['accepted', 'padded', 'rejected'], 'as quick, buffers 0..6, longer lists', time=2400), R('img_addressing', [4], ['done'], 'as quick, up to 4x4', time=2400), R('img_long', [3], ['done'], 'as quick, also 70001 pixels'), R('img_fn_sizes', [0], ['accepted'], 'as quick', 'checked'), R('img_c_sizes', [0], ['rgba accepted'], 'as quick', 'checked'), R('img_sizes', [1], ['accepted'], 'as quick', 'checked', time=2000)])

P('C03', title='Copies of images, results and settings are complete and independent',
  statement='A copy of an image, a result or a settings object behaves exactly like the original would, also after the original has been changed or destroyed. Nothing done to the copy changes what the original does, and the reverse.',
  over=['inputs', 'histories'], qtext='all pixel contents within the scene, copies taken before or after use, any single later operation on either',
  why='Aliasing between an original and its copy shows only for particular orders of destroying and using them; tests copy once and compare nothing.',
  files=['src/image.rs', 'src/rows.rs', 'src/seacow.rs', 'src/quant.rs', 'src/attr.rs'], mech=[('deep copy of rows and pixel storage', 'src/rows.rs Clone for DynamicRows/PixelsSource, src/seacow.rs Clone'), ('copy of results', 'src/quant.rs Clone for QuantizationResult')],
  quick=[S('cl_image', [2, 2, 5, 2, 0, 1, 1], ['copy', 'original'], CL), S('cl_image', [4, 4, 5, 1, 1, 1, 1], ['copy', 'original'], CL), S('cl_result', [4, 4, 5, 1, 1, 4, 2], ['copy', 'original'], D2), S('cl_result', [4, 4, 5, 2, 0, 4, 1], ['copy', 'original'], D1), R('cl_attr', [2], ['done'], 'symbolic settings'), R('cl_attr_use', [2], ['done'], '3x2 image; speeds 1..10, 3 colour limits, 3 quality ranges, posterization, palette order')],
  thorough=both([S('cl_image', [4, 4, 5, 2, 1, 4, 1], ['copy', 'original'], CL), S('cl_image', [3, 3, 0, 2, 3, 2, 1], ['copy', 'original'], CL), S('cl_result', [4, 4, 5, 3, 1, 2, 2], ['copy', 'original'], D2), R('cl_attr', [2], ['done'], 'symbolic settings'), R('cl_attr_use', [2], ['done'], '3x2 image; speeds 1..10, 3 colour limits, 3 quality ranges, posterization, palette order')]))

P('C04', title='C interface frees memory it was given exactly once, and nothing else',
  statement='Pixel or row memory whose ownership was handed to an image is freed exactly once with the supplied deallocator, at the latest when the image is destroyed; memory that was not handed over is never freed or used afterwards. Destroying all objects, in any order, releases everything the library allocated, whichever calls succeeded or failed before.',
  over=['histories', 'configurations', 'inputs'], qtext='all sequences of ownership, quantize, remap and destroy calls up to the bound, all ownership flags',
  why='Double frees and leaks need a particular order of ownership transfer, remapping and destruction; no test hands memory over at all.',
  files=['imagequant-sys/src/ffi.rs', 'src/capi.rs', 'src/seacow.rs', 'src/rows.rs'], mech=[('ownership flags and free function', 'src/rows.rs own_pixels/free_histogram_inputs, src/seacow.rs Drop'), ('C destroy and set_memory_ownership', 'imagequant-sys/src/ffi.rs')],
  quick=[R('c_owner', [4, 3, 2], ['done', 'owned', 'refused', 'remapped'], 'all sequences of 4 calls on a 3x2 bitmap or row image, all 64 flag combinations, rows in either order'), R('c_owner', [3, 4, 4], ['done', 'owned'], 'the same with 3 calls on a 4x4 image (contrast maps)'), R('c_owner', [3, 3, 1], ['done', 'owned'], '3 calls on a 3x1 image'), R('c_owner', [3, 1, 1], ['done', 'owned'], '3 calls on a 1x1 image'), R('c_background', [0], ['done', 'kept', 'released', 'replaced'], 'backgrounds: size fits or not, owned or not, nested, replaced, used'), R('c_importance', [0], ['copied', 'done', 'refused', 'taken'], 'importance maps: sizes, ownership, values'), R('c_destroy', [0], ['done', 'failed'], 'all rotations of destroying five kinds of objects after success or failure')],
  thorough=both([R('c_owner', [5, 3, 2], ['done', 'owned', 'refused', 'remapped'], 'all sequences of 5 calls', time=2400), R('c_owner', [4, 4, 4], ['done', 'owned'], 'all sequences of 4 calls on 4x4', time=2400), R('c_background', [0], ['done', 'kept', 'released', 'replaced'], 'as quick'), R('c_importance', [0], ['copied', 'done', 'refused', 'taken'], 'as quick'), R('c_destroy', [0], ['done', 'failed'], 'as quick')]))

P('C05', title='C interface refuses handles of the wrong kind and null memory',
  statement='Every C function that is given a handle which is not a live object of the expected kind refuses it (an invalid-pointer error or the documented failure value) without reading past or modifying that memory, and valid handles passed along keep working. Null pointers for pixel, row, map and output memory are refused the same way.',
  over=['inputs', 'programs'], qtext='every C function taking a handle, every 64-bit tag value that is not the expected one, handles of every other kind',
  why='Each of the about fifty entry points needs its own check; tests pass only valid handles.',
  files=['imagequant-sys/src/ffi.rs', 'src/capi.rs'], mech=[('magic header and bad_object! checks', 'imagequant-sys/src/ffi.rs'), ('pointer checks', 'imagequant-sys/src/ffi.rs bad_ptr')],
  quick=[R('c_handles', [k], ['refused'], 'every function taking this kind of handle; arbitrary 64-bit tag or another kind\'s tag') for k in range(4)] + [R('c_nulls', [0], ['done', 'empty', 'negative'], 'null memory; arbitrary 32-bit entry count')],
  thorough=both([R('c_handles', [k], ['refused'], 'as quick') for k in range(4)] + [R('c_nulls', [0], ['done', 'empty', 'negative'], 'as quick')]))

P('C06', title='Remapping writes one in-palette index per pixel and nothing else',
  statement='A successful remapping writes exactly width times height indices, each smaller than the length of the palette read afterwards, and touches no other byte of the output, over both interfaces, for contiguous buffers and for row lists in any order. An output buffer that is too small is refused and left untouched.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, image shapes, buffer sizes, dithering levels, speeds, maximum colours',
  why='Out-of-palette indices and stray writes appear for particular pixel patterns, shapes and buffer sizes that no fixed test image has.',
  files=['src/quant.rs', 'src/remap.rs', 'src/seacow.rs', 'imagequant-sys/src/ffi.rs', 'src/capi.rs'], mech=[('buffer slicing', 'src/quant.rs remap_into/remap_into_vec'), ('row writers', 'src/remap.rs remap_to_palette, dither_row'), ('C entry points', 'imagequant-sys/src/ffi.rs liq_write_remapped_image*')],
  quick=[S('q_contract', [2, 2, 0, 3, 0, 1, 1], ['too small', 'written'], D1), S('q_contract', [4, 4, 5, 3, 1, 2, 2], ['too small', 'written'], D2), S('q_contract', [5, 3, 5, 2, 1, 5, 1], ['written'], D1), S('q_contract', [1, 131, 5, 1, 1, 2, 1], ['written'], D1), S('q_contract', [300, 1, 5, 1, 0, 2, 1], ['written'], D1), S('q_contract', [20, 20, 5, 1, 0, 2, 1], ['written'], D1),
         S('q_vec', [4, 4, 5, 2, 1, 2, 1], ['done'], D1 + '; vectors of 0..1.5 times the needed length'), S('c_remap', [4, 4, 5, 2, 1, 2, 1], ['rows', 'too small', 'written'], D1), S('c_remap', [3, 5, 5, 2, 0, 2, 1], ['rows', 'written'], D1), S('q_contract', [72, 72, 7, 0, 6, 4, 1], ['written'], D1), S('q_contract', [400, 360, 7, 0, 5, 1, 1], ['written'], D1), T('q_contract', [1, 131, 5, 1, 1, 4, 1], 2, 2, ['too small', 'written'], 'two chunks, ' + D1), T('q_contract', [4, 131, 5, 0, 0, 4, 1], 3, 2, ['written'], 'two chunks, ' + D1)],
  thorough=both([S('q_contract', [2, 2, 0, 4, 0, 4, 1], ['too small', 'written'], D1), S('q_contract', [4, 4, 5, 4, 1, 2, 2], ['written'], D2), S('q_contract', [5, 4, 0, 2, 2, 3, 1], ['written'], D1), S('q_contract', [1, 131, 5, 2, 1, 2, 2], ['written'], D2), S('q_contract', [300, 2, 5, 2, 1, 0, 1], ['written'], D1), S('q_contract', [64, 64, 5, 1, 1, 4, 1], ['written'], D1), S('q_vec', [4, 4, 5, 3, 1, 2, 1], ['done'], D1), S('c_remap', [4, 4, 5, 3, 1, 2, 1], ['rows'], D1)]))

P('C07', title='Palettes have between one and the maximum number of colours',
  statement='Whatever the input, a palette has at least one and at most the configured maximum number of colours, before and after remapping, with fixed colours, importance maps, quality limits or posterization in play. The length announced for a result is the length of its palette, and remapping does not change it.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, all listed speeds, maximum colours, quality limits and fixed colours',
  why='An extra or missing entry depends on how the colours fall into clusters, on the fixed colours and on the quality limit together.',
  files=['src/quant.rs', 'src/pal.rs', 'src/mediancut.rs', 'src/kmeans.rs', 'src/hist.rs'], mech=[('target colour count', 'src/mediancut.rs cut, src/quant.rs find_best_palette'), ('fixed colours replace others', 'src/pal.rs with_fixed_colors'), ('announced length', 'src/quant.rs palette_len')],
  quick=[S('q_size', [4, 4, 5, 1, 1, 2, 2], ['done', 'full'], 'up to 1 fixed colour; target qualities 100/70/10, posterization 0/2, directly or through a histogram'), S('q_size', [2, 2, 5, 2, 0, 4, 2], ['done', 'full'], 'as above'), S('q_size', [3, 3, 0, 2, 0, 2, 1], ['done', 'full'], 'as above, no fixed colour'), S('q_size', [20, 20, 5, 1, 0, 5, 1], ['done', 'full'], 'as above'), S('q_size', [20, 20, 5, 0, 0, 3, 1], ['done', 'full'], 'as above'), S('q_size', [8, 2, 0, 1, 2, 3, 1], ['done', 'full'], 'as above'), S('q_size', [2, 1, 4, 1, 0, 1, 4], ['done', 'full'], 'up to 3 fixed colours, more than the maximum'), S('q_size', [72, 72, 7, 0, 6, 3, 1], ['done', 'full'], 'as above')],
  thorough=both([S('q_size', [4, 4, 5, 2, 1, 2, 2], ['done', 'full'], 'fixed colours 0..1', time=2400), S('q_size', [2, 2, 5, 2, 1, 4, 3], ['done'], 'fixed colours 0..2', time=2400), S('q_size', [20, 20, 5, 1, 0, 3, 2], ['done'], '', time=2400), S('q_size', [40, 30, 5, 0, 1, 3, 1], ['done'], '', time=2400)]))

P('C08', title='Fixed colours always appear in the palette',
  statement='Without posterization, every fixed colour added to an image or histogram is in the resulting palette exactly, before and after remapping, as far as the maximum number of colours allows (those added earlier to the same image or histogram having priority), whatever else was added, whatever the quality target, and also when there is nothing else. Adding the same colour twice counts once; exactly 256 fixed colours are accepted.',
  over=['inputs', 'configurations', 'histories'], qtext='all fixed colours and pixel contents from the alphabets, speeds, maximum colours, quality targets, order of adding',
  why='Loss of a fixed colour depends on which palette entries it competes with, and on duplicates; tests use one or two combinations.',
  files=['src/pal.rs', 'src/hist.rs', 'src/quant.rs', 'src/kmeans.rs', 'src/image.rs'], mech=[('fixed colours are put in front and marked', 'src/pal.rs with_fixed_colors, PalPop::to_fixed'), ('set of fixed colours with original order', 'src/hist.rs FixedColorsSet'), ('k-means leaves them alone', 'src/kmeans.rs finalize')],
  quick=[S('q_fixed', [2, 2, 4, 1, 1, 2, 2, 1, 3], ['done'], '2 symbolic fixed colours out of 8, ' + D1 + ', target qualities 100/80/30'), S('q_fixed', [4, 4, 5, 1, 0, 2, 2, 1, 2], ['done'], '2 fixed'), S('q_fixed', [2, 2, 5, 1, 0, 4, 3, 0, 1], ['done'], '3 fixed'), S('h_fixed', [2, 1, 4, 2, 1, 2, 2, 2, 3], ['done'], '2 fixed, targets 100/80; histogram also empty, listed colours, or an image'), S('h_fixed', [2, 1, 4, 1, 0, 4, 3, 1, 3], ['done'], '3 fixed'), R('h_fixed_limit', [0], ['added', 'histogram', 'image'], '0,1,255,256 colours before the next one'), S('q_fixed', [3, 1, 6, 1, 0, 4, 3, 1, 4, 6], ['done'], '3 fixed colours out of 8 close to each other and to the pixels, target qualities 100/80/30/2'), S('q_fixed', [20, 20, 5, 0, 0, 3, 1, 1, 2], ['done'], '1 fixed, many colours')],
  thorough=both([S('q_fixed', [2, 2, 4, 2, 1, 2, 2, 1, 3], ['done'], ''), S('q_fixed', [4, 4, 5, 2, 0, 2, 2, 1, 2], ['done'], ''), S('q_fixed', [2, 2, 5, 1, 1, 4, 3, 1, 2], ['done'], ''), S('h_fixed', [4, 4, 5, 1, 1, 2, 2, 3, 3], ['done'], ''), S('h_fixed', [2, 1, 4, 1, 0, 4, 3, 3, 3], ['done'], ''), R('h_fixed_limit', [0], ['added', 'histogram', 'image'], '')]))

P('C09', title='Images with few enough colours are reproduced exactly',
  statement='When an image has no more distinct colours than the maximum, with full quality and at speeds that do not reduce precision, every pixel is mapped to a palette entry of exactly its own colour (all fully transparent colours counting as one), with or without dithering and for every input gamma. The result is reported as having no error and quality 100.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene (and arbitrary channel bytes for one colour), speeds up to 7, gammas, dithering levels',
  why='Rounding through the working colour space must be the identity for every byte value and gamma; tests try a few images.',
  files=['src/quant.rs', 'src/hist.rs', 'src/pal.rs', 'src/remap.rs'], mech=[('exact palette when colours fit', 'src/quant.rs palette_from_histogram'), ('round trip of colours', 'src/pal.rs from_rgba/to_rgb, gamma_lut'), ('alpha zero is one colour', 'src/hist.rs add_color')],
  quick=[S('q_lossless', [2, 2, 0, 3, 3, 0, 1, 2], ['done'], D1 + ', 2 gammas'), S('q_lossless', [4, 4, 5, 3, 3, 0, 2, 5], ['done'], D2 + ', 5 gammas'), S('q_lossless', [20, 12, 5, 1, 0, 0, 1, 1], ['done'], '240 pixels'), S('q_lossless', [1, 131, 5, 1, 0, 0, 1, 1], ['done'], D1)] + [S('q_lossless_fit', p, ['done'], 'but max colours exactly the number of distinct colours (at least 2), ' + D1) for p in ([2, 2, 0, 3, 3, 0, 1, 1], [4, 4, 5, 2, 3, 0, 1, 1], [16, 16, 5, 1, 0, 0, 0, 1])] + [R('q_lossless_bytes', [k, 0, 0, 0, 0, 0, 1, 3], ['done'], '3x2 image, two channels of one colour arbitrary bytes, 3 gammas, ' + D1) for k in range(4)],
  thorough=both([S('q_lossless', [2, 2, 0, 4, 3, 0, 1, 1], ['done'], ''), S('q_lossless', [4, 4, 5, 4, 3, 0, 2, 2], ['done'], ''), S('q_lossless', [20, 12, 5, 2, 3, 0, 1, 2], ['done'], '')] + [R('q_lossless_bytes', [k, 0, 0, 0, 3, 0, 2, 5], ['done'], '') for k in range(4)]))

P('C10', title='The minimum quality is met or quantization fails',
  statement='A quantization either reports a quality at least as high as the requested minimum, or fails saying the quality is too low; without a minimum it never fails for quality, and an image that fits the palette never fails. Reported errors are finite and not negative.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, 12 quality ranges, speeds, maximum colours',
  why='Whether the reported number and the refusal agree depends on error values near the limit for particular images.',
  files=['src/quant.rs', 'src/attr.rs', 'src/kmeans.rs'], mech=[('comparison with the error limit', 'src/quant.rs QuantizationResult::new'), ('targets', 'src/attr.rs target_mse'), ('quality mapping', 'src/quant.rs quality_to_mse/mse_to_quality')],
  quick=[S('q_quality', [2, 2, 0, 2, 1, 2, 12], ['met', 'too low'], '12 quality ranges'), S('q_quality', [4, 4, 5, 2, 1, 2, 12], ['met', 'too low'], '12 quality ranges'), S('q_quality', [8, 8, 1, 1, 1, 4, 12], ['met', 'too low'], ''), S('q_quality', [20, 20, 5, 1, 0, 0, 12], ['met', 'too low'], '12 quality ranges'), R('q_quality_scale', [0], ['done'], 'every pair of quality values: the error limits are ordered'), S('q_quality_edge', [20, 20, 5, 0, 1, 3, 6], ['too low'], 'minimum qualities 1 to 6 above what is reached without one, targets 100/60'), S('q_quality_edge', [20, 20, 5, 1, 0, 3, 2], ['too low'], '1 or 2 above'), S('q_quality', [72, 72, 7, 0, 6, 0, 12], ['met'], '12 quality ranges')],
  thorough=both([S('q_quality', [2, 2, 0, 3, 1, 1, 12], ['met', 'too low'], '12 quality ranges'), S('q_quality', [4, 4, 5, 3, 1, 2, 12], ['met', 'too low'], ''), S('q_quality', [20, 20, 5, 1, 1, 3, 12], ['met', 'too low'], '')]))

P('C11', title='Palette order: transparency first, or the most transparent colour last',
  statement='By default every palette entry with any transparency comes before every opaque one. When the last index is requested to be transparent, no palette entry is more transparent than the last one.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, fixed colours, speeds, maximum colours',
  why='Depends on the popularity order and on colours that are almost opaque.',
  files=['src/quant.rs', 'src/pal.rs'], mech=[('sort and swap', 'src/quant.rs sort_palette'), ('posterized or rounded alpha', 'src/pal.rs init_int_palette')],
  quick=[S('q_order', [2, 2, 5, 4, 4, 4, 0], ['first', 'last', 'mixed'], ''), S('q_order', [4, 4, 5, 3, 1, 2, 0], ['first', 'last', 'mixed'], ''), S('q_order', [3, 2, 0, 2, 0, 2, 1], ['first', 'last', 'mixed'], '1 fixed colour'), S('q_order', [20, 20, 5, 1, 0, 3, 0], ['first', 'last', 'mixed'], '')],
  thorough=both([S('q_order', [4, 4, 5, 4, 1, 2, 0], ['first', 'last', 'mixed'], ''), S('q_order', [4, 4, 5, 2, 1, 2, 2], ['first', 'last', 'mixed'], '2 fixed colours'), S('q_order', [20, 20, 5, 2, 1, 3, 0], ['first', 'last', 'mixed'], '')]))

P('C12', title='Undithered remapping picks the nearest palette colour',
  statement='Without dithering and background, the palette entry chosen for every pixel is at least as close to it as every other entry, in the documented metric (the worse of the squared differences over black and over white, per channel), for every palette size, whatever pixels came before it.',
  over=['inputs', 'histories'], qtext='arbitrary channel bytes, palettes of 1 to 256 colours, all sequences of pixels up to the bound',
  why='The search tree prunes; a wrong bound shows only for particular palettes, pixels and previous matches.',
  files=['src/nearest.rs', 'src/remap.rs', 'src/pal.rs'], mech=[('vantage-point tree search with an initial guess', 'src/nearest.rs'), ('colour difference', 'src/pal.rs f_pixel::diff'), ('guess from the previous pixel', 'src/remap.rs remap_to_palette')],
  quick=[R('m_nearest', [8, k, o], ['done'], 'palettes of 1,2,7,8,9,20,64,256 colours, two channels of the pixel arbitrary bytes') for k, o in ((0, 0), (1, 5), (2, 3), (3, 100), (4, 40))] + [R('m_nearest_seq', [8, 3, 2], ['done'], 'all sequences of 3 pixels over 16 colours'), R('m_nearest_seq', [8, 2, 60], ['done'], 'all sequences of 2 pixels'), R('m_nearest_pair', [7, 0, 9], ['done'], 'an arbitrary pixel after each of 16 colours'), S('m_nearest_own', [4, 4, 5, 2, 1, 2, 3], ['done'], 'own palette, 3 gammas'), S('m_nearest_own', [20, 20, 5, 1, 0, 3, 1], ['done'], 'own palette'), S('m_nearest_own', [72, 72, 7, 0, 6, 2, 1], ['done'], 'own palette')],
  thorough=both([R('m_nearest', [8, k, o], ['done'], 'as quick') for k in range(5) for o in (0, 7, 33, 150)] + [R('m_nearest_seq', [8, 4, 2], ['done'], 'sequences of 4'), R('m_nearest_pair', [8, 2, 9], ['done'], ''), S('m_nearest_own', [4, 4, 5, 3, 1, 2, 3], ['done'], '')]))

P('C13', title='A palette shared through a histogram never changes',
  statement='A result obtained from a histogram keeps exactly the same palette, entry for entry, however many images are remapped with it, with or without dithering, and whenever the palette is read.',
  over=['inputs', 'histories'], qtext='all pixel contents within the scene, fixed colours, two remappings of different images with either dithering',
  why='Palette refinement during remapping must be off for every entry; a single unfrozen entry shows only when it attracts pixels.',
  files=['src/hist.rs', 'src/quant.rs', 'src/kmeans.rs', 'src/pal.rs'], mech=[('freezing', 'src/quant.rs QuantizationResult::new freeze_result_colors'), ('k-means skips frozen entries', 'src/kmeans.rs finalize')],
  quick=[S('m_frozen', [2, 2, 5, 2, 4, 4, 0], ['done'], ''), S('m_frozen', [4, 4, 5, 1, 1, 2, 1], ['done'], '1 fixed colour'), S('m_frozen', [20, 16, 5, 1, 0, 3, 0], ['done'], '')],
  thorough=both([S('m_frozen', [4, 4, 5, 2, 1, 2, 1], ['done'], ''), S('m_frozen', [2, 2, 5, 2, 4, 4, 2], ['done'], ''), S('m_frozen', [20, 16, 5, 2, 1, 3, 0], ['done'], '')]))

P('C14', title='Histograms count every colour with its weight',
  statement='Counts of a colour add up (saturating) however they are split over calls, images and lists; colours with a zero count do not exist; every pixel of an added image counts exactly once. In a lossless palette colours are ordered by their weight, and colours merged by reduced precision keep their total weight.',
  over=['inputs', 'histories'], qtext='counts, colours, splits and orders of adding; arbitrary channel bytes for merged colours; all gammas (bit patterns)',
  why='Lost or doubled counts depend on the order of calls and on hash collisions between particular colours.',
  files=['src/hist.rs', 'src/image.rs'], mech=[('hash map of counts', 'src/hist.rs add_color/add_pixel_rows'), ('rehash with fewer bits', 'src/hist.rs init_posterize_bits'), ('weights', 'src/hist.rs finalize_builder')],
  quick=[R('h_counts', [2, 0], ['done'], 'speeds 1..10, 16 colours, 16 totals, 16 splits, 4 ways of adding'), R('h_popular', [2], ['done', 'least', 'most'], '1024 counts up to 2^32-1 (also around 2^31), added 1..3 times'), R('h_image', [2, 4, 8], ['done', 'least', 'most'], '64-pixel images, 8 symbolic pixels, whole or in pieces or mixed with a list'), R('h_merge', [0], ['light', 'heavy'], 'arbitrary channel byte'), R('h_args', [0], ['colors ok', 'colors refused', 'fixed ok', 'fixed refused', 'empty'], 'every 64-bit gamma'), R('h_total', [2], ['done'], '250 listed colours, 4 of them with or without a count, one of 4 listed twice, speeds 1..10'), R('h_coarse', [0, 5, 1], ['done', 'heavy', 'light'], 'posterization 0..4, arbitrary channel byte and ignored bits'), R('h_coarse', [1, 5, 0], ['done', 'heavy', 'light'], 'the same at speeds 1,4,7,8,10, 8 channel values')],
  thorough=both([R('h_counts', [2, 0], ['done'], 'as quick'), R('h_popular', [2], ['done', 'least', 'most'], 'as quick'), R('h_image', [2, 4, 8], ['done', 'least', 'most'], 'as quick'), R('h_merge', [0], ['light', 'heavy'], ''), R('h_args', [0], ['empty'], ''), R('h_total', [2], ['done'], ''), R('h_coarse', [2, 5, 1], ['done'], 'speeds 1..10')]))

P('C15', title='Progress callbacks can abort any step, and do nothing else',
  statement='Reported progress is always between 0 and 100. If the callback asks to abort, at whichever call, the operation fails with the abort error and reports nothing further; if it never asks, the outcome is the same as without a callback; afterwards all objects are as usable as before.',
  over=['fault_sequences', 'inputs', 'configurations'], qtext='abort at every possible callback invocation, once or from then on; all pixel contents within the scene; both interfaces',
  why='The abort must be tried at every callback position; tests abort at none or one.',
  files=['src/attr.rs', 'src/quant.rs', 'src/hist.rs', 'src/remap.rs', 'imagequant-sys/src/ffi.rs'], mech=[('progress checks', 'src/attr.rs progress, src/quant.rs find_best_palette/refine_palette/remap_progress'), ('C callback', 'imagequant-sys/src/ffi.rs liq_attr_set_progress_callback')],
  quick=[S('pr_quantize', [2, 2, 5, 2, 0, 4, 20, 2], ['aborted', 'finished'], 'abort at call 0..19, target 100/70'), S('pr_quantize', [4, 4, 5, 1, 1, 4, 60, 2], ['aborted', 'finished'], 'abort at call 0..59'), S('pr_remap', [4, 4, 5, 2, 1, 4, 5, 2], ['aborted', 'finished'], D2), S('pr_remap', [1, 131, 5, 1, 1, 4, 6, 1], ['aborted', 'finished'], D1), S('c_progress', [2, 2, 5, 2, 0, 4, 12], ['aborted', 'finished', 'remap aborted', 'remap finished'], 'C'), S('c_progress', [4, 4, 5, 1, 1, 4, 30], ['aborted', 'remap aborted'], 'C'), T('pr_remap', [1, 131, 5, 1, 1, 4, 6, 1], 2, 2, ['aborted', 'finished'], 'two chunks')],
  thorough=both([S('pr_quantize', [4, 4, 5, 2, 1, 4, 60, 2], ['aborted', 'finished'], ''), S('pr_remap', [4, 4, 5, 3, 1, 2, 6, 2], ['aborted', 'finished'], ''), S('c_progress', [4, 4, 5, 2, 1, 4, 60], ['aborted', 'remap aborted'], '')]))

P('C16', title='Posterization limits palette channels to the requested precision',
  statement='With posterization set to n bits, every channel of every palette entry (ignoring colour under full transparency), before and after remapping, is a value whose n low bits repeat its high bits. Without posterization the palette is not reduced.',
  over=['inputs', 'configurations'], qtext='arbitrary channel bytes, all pixel contents within the scene, 0 to 4 bits, speeds, maximum colours',
  why='Rounding to levels must hold for every byte in every channel, also after refinement by remapping.',
  files=['src/pal.rs', 'src/quant.rs', 'src/attr.rs', 'src/hist.rs'], mech=[('channel posterization', 'src/pal.rs posterize_channel/init_int_palette'), ('setting', 'src/attr.rs set_min_posterization')],
  quick=[S('q_poster', [3, 1, 0, 3, 0, 1, 5, 0], ['done', 'remapped'], '0..4 bits'), S('q_poster', [4, 4, 5, 2, 1, 2, 5, 1], ['done', 'remapped'], '0..4 bits, ' + D1), S('q_poster', [160, 160, 7, 0, 6, 2, 5, 1], ['done', 'remapped'], '0..4 bits, ' + D1)] + [R('q_poster_bytes', [k, 5], ['done'], '0..4 bits, two channels arbitrary bytes') for k in range(3)],
  thorough=both([S('q_poster', [4, 4, 5, 3, 1, 2, 5, 2], ['done', 'remapped'], ''), S('q_poster', [2, 2, 0, 3, 1, 2, 5, 1], ['done', 'remapped'], ''), S('q_poster', [20, 16, 5, 1, 1, 3, 5, 1], ['done', 'remapped'], '')] + [R('q_poster_bytes', [k, 5], ['done'], '') for k in range(3)]))

P('C17', title='A background shows through exactly where it matches best',
  statement='When a background is set and the palette has a transparent colour, pixels equal to the background become transparent, with or without dithering; without dithering, other pixels become transparent only where the background is at least as close as the best palette colour and otherwise get the colour they would get without a background. If the palette has no transparent colour the background has no effect on an undithered image; a background of another size, or with a background of its own, is refused.',
  over=['inputs', 'configurations'], qtext='all image and background contents from the alphabets, shapes, both dithering modes',
  why='Depends on pairs of pixels and their nearest palette entries; the one existing test uses identical images.',
  files=['src/remap.rs', 'src/image.rs', 'src/quant.rs'], mech=[('background comparison', 'src/remap.rs remap_to_palette, dither_row'), ('checks', 'src/image.rs set_background')],
  quick=[R('m_background', [3, 0], ['done', 'equal', 'kept'], '3 pixels, image and background over 8 colours each, palette with transparency'), R('m_background', [2, 1], ['done', 'ignored'], 'opaque palette'), R('m_background', [3, 2], ['done', 'ignored'], 'palette whose most transparent colour is half opaque'), R('m_background_dither', [3, 2, 0, 1], ['differs', 'equal'], '3x2, all pixels symbolic, 5 speeds'), R('m_background_dither', [4, 4, 5, 1], ['differs', 'equal'], '4x4, some pixels symbolic'), R('m_background_dither', [1, 131, 2, 0], ['differs', 'equal'], '1x131'), R('m_background_args', [0], ['accepted', 'refused'], 'all sizes up to 3x3 for both'), R('m_background_prepare', [3, 2, 0, 1], ['done'], 'prepared for dithering before or after the background is set, 5 speeds'), R('m_background_prepare', [4, 4, 4, 1], ['done'], 'the same, 4x4'), T('m_background_dither', [1, 131, 2, 0], 2, 2, ['differs', 'equal'], 'two chunks')],
  thorough=both([R('m_background', [4, 0], ['done', 'equal', 'kept'], '4 pixels'), R('m_background', [3, 1], ['done', 'ignored'], ''), R('m_background_dither', [4, 2, 0, 1], ['differs', 'equal'], '4x2'), R('m_background_dither', [5, 4, 6, 2], ['differs', 'equal'], '5x4'), R('m_background_args', [0], ['accepted', 'refused'], '')]))

P('C18', title='Reported errors and qualities are sane and describe what was done',
  statement='Reported errors are finite and not negative, no error means quality 100, error and quality are known together, and the quality is the best one on the scale of the quality setting that the error allows. After an undithered remapping the reported error is the mean difference between the image and its remapped colours in the documented metric; changing an output setting discards the error of the earlier remapping, and remapping never alters the error reported for the palette itself.',
  over=['inputs', 'configurations', 'histories'], qtext='all pixel contents within the scene, speeds, maximum colours, dithering',
  why='The number must equal an independent recomputation for every image, not plausible values for a few.',
  files=['src/quant.rs', 'src/remap.rs', 'src/kmeans.rs'], mech=[('error sums', 'src/remap.rs remap_to_palette, src/kmeans.rs iteration'), ('reporting', 'src/quant.rs quantization_error/remapping_error')],
  quick=[S('q_errors', [2, 2, 0, 2, 4, 1, 1], ['done', 'error known', 'exact'], D1), S('q_errors', [4, 4, 5, 2, 1, 2, 1], ['done', 'error known', 'exact'], D1), S('q_errors', [20, 16, 5, 1, 0, 4, 1], ['done', 'error known', 'exact'], D1), S('q_errors', [1, 140, 5, 1, 0, 4, 1], ['done', 'exact'], D1), R('m_background', [3, 0], ['done', 'equal'], 'over a background: 3 pixels, image and background over 8 colours each'), R('m_background', [2, 1], ['done', 'ignored'], 'the same, opaque palette'), S('q_errors', [160, 160, 7, 0, 6, 4, 1], ['done', 'error known'], D1), S('q_errors', [400, 360, 7, 0, 5, 4, 1], ['done', 'error known'], D1), T('q_errors', [1, 140, 5, 1, 0, 4, 1], 2, 2, ['exact', 'error known'], 'two chunks')],
  thorough=both([S('q_errors', [2, 2, 0, 3, 4, 1, 1], ['done', 'exact'], ''), S('q_errors', [4, 4, 5, 3, 1, 2, 1], ['done', 'exact'], ''), S('q_errors', [20, 16, 5, 2, 1, 4, 1], ['done', 'exact'], '')]))

P('C19', title='Output gamma and dithering are checked, and palettes follow the gamma set',
  statement='The dithering level accepts exactly 0 to 1 and the output gamma exactly the open range 0 to 1, for every floating-point bit pattern; rejected values change nothing and the gamma reads back. The palette read always reflects the gamma currently set, whatever was read or set before, and reading it changes nothing.',
  over=['inputs', 'histories'], qtext='every 32/64-bit floating-point pattern, all orders of two reads and changes before the final read',
  why='NaN, infinities, denormals and cached palettes need particular values and orders.',
  files=['src/quant.rs', 'src/pal.rs', 'imagequant-sys/src/ffi.rs'], mech=[('range checks', 'src/quant.rs set_dithering_level/set_output_gamma'), ('cached 8-bit palette', 'src/quant.rs int_palette')],
  quick=[R('set_result', [0], ['gamma ok', 'gamma rejected', 'dither ok', 'dither rejected', 'C gamma ok', 'C gamma rejected', 'C dither ok', 'C dither rejected'], 'every bit pattern, both interfaces'), R('set_gamma_palette', [3], ['read', 'set'], 'arbitrary byte, 6 gammas, all sequences of 3 operations')],
  thorough=both([R('set_result', [0], ['gamma ok', 'gamma rejected', 'dither ok', 'dither rejected', 'C gamma ok', 'C gamma rejected', 'C dither ok', 'C dither rejected'], ''), R('set_gamma_palette', [4], ['read', 'set'], 'all sequences of 4 operations', time=2400)]))

P('C20', title='No call sequence panics, overflows or touches invalid memory',
  statement='On valid objects, every sequence of library calls ends in a value or one of the documented errors: it never panics, trips a debug assertion, overflows an integer, reads uninitialised or out-of-bounds memory, or divides by zero. Quantization fails only for quality, an abort, or an empty histogram or image whose pixels are gone.',
  over=['histories', 'inputs', 'configurations'], qtext='all sequences of calls up to the bound on one image, one histogram and the current result; all pixel contents within the scenes; debug assertions and overflow checks compiled in',
  why='Panics need a particular order of calls, extreme settings together, or degenerate images (one pixel, one row, all transparent).',
  files=['src/quant.rs', 'src/hist.rs', 'src/image.rs', 'src/remap.rs', 'src/mediancut.rs', 'src/kmeans.rs', 'src/nearest.rs', 'src/rows.rs', 'src/blur.rs', 'src/seacow.rs'], mech=[('debug assertions and overflow checks throughout', 'src/*.rs'), ('unsafe row and buffer handling', 'src/rows.rs, src/seacow.rs, src/remap.rs')],
  quick=[S('n_history', [4, 4, 5, 0, 0, 4, 3, 1], ['remapped', 'result'], 'all sequences of 3 calls (14 kinds) after a quantization', 'checked'), S('n_history', [2, 2, 5, 1, 0, 4, 3, 0], ['result'], 'all sequences of 3 calls', 'checked'), S('n_history', [1, 1, 5, 1, 1, 4, 2, 1], ['result'], 'all sequences of 2 calls, 5 speeds', 'checked'), S('q_contract', [4, 4, 5, 2, 1, 2, 1], ['written'], D1, 'checked'), S('q_contract', [1, 6, 0, 2, 1, 2, 1], ['written'], D1, 'checked'), S('h_fixed', [2, 1, 4, 1, 1, 2, 1, 3, 3], ['done'], '', 'checked'), S('q_contract', [20, 20, 5, 1, 0, 2, 1], ['written'], '', 'checked'), S('q_quality', [4, 4, 5, 1, 1, 2, 12], ['met'], '', 'checked'), T('n_history', [2, 2, 5, 0, 0, 4, 2, 1], 3, 2, ['remapped', 'result'], 'all sequences of 2 calls')],
  thorough=[S('n_history', [2, 2, 5, 0, 0, 4, 4, 1], ['remapped', 'result'], 'all sequences of 4 calls', 'checked', time=2400), S('n_history', [4, 4, 5, 0, 1, 4, 3, 1], ['remapped', 'result'], '', 'checked', time=2400), S('q_contract', [4, 4, 5, 3, 1, 2, 1], ['written'], D1, 'checked', time=2400), S('q_contract', [2, 2, 0, 3, 1, 4, 1], ['written'], D1, 'checked', time=2400), S('h_fixed', [2, 1, 4, 2, 1, 2, 2, 3, 3], ['done'], '', 'checked', time=2400), S('q_contract', [64, 64, 5, 1, 1, 2, 1], ['written'], '', 'checked', time=2400), S('q_quality', [4, 4, 5, 2, 1, 2, 12], ['met'], '', 'checked', time=2400)])

P('C21', title='Working on several threads keeps every promise',
  statement='With multi-threading compiled in, whatever order and threads the rows and chunks are processed on, remapping writes every pixel once with an index inside the palette, never panics or depends on uninitialised memory, keeps fixed colours and exact colours, and reports the error it made. The palette, the colours pixels get and the reported numbers do not depend on the schedule beyond rounding, and for palettes made from a histogram not at all.',
  over=['interleavings', 'inputs', 'configurations'], qtext='all schedules within the decision bound (which waiting work item runs next, and on which thread), all pixel contents within the scene',
  why='A test run sees one schedule; lost per-thread sums, chunks that overlap or miss rows and scratch rows that were never filled in show only for particular image heights and schedules.',
  files=['src/remap.rs', 'src/kmeans.rs', 'src/nearest.rs', 'src/rows.rs', 'src/lib.rs', 'src/rayoff.rs'], mech=[('per-thread accumulators', 'src/kmeans.rs iteration/merge, src/remap.rs remap_to_palette'), ('chunked dithering with warm-up rows', 'src/remap.rs remap_to_palette_floyd'), ('prepared rows shared between threads', 'src/rows.rs prepare_iter')],
  assumptions=['threads: rayon and thread_local are replaced by stand-ins (harness/stubs) that run the work items one at a time on virtual threads; an item is atomic, so data races inside an item (excluded by Rust\'s type system outside unsafe code) are not explored'],
  quick=[T('t_remap', [4, 4, 5, 1, 1, 4, 1, 0], 5, 2, ['done'], D1), T('t_remap', [4, 4, 5, 1, 0, 4, 1, 1], 6, 2, ['done'], 'histogram, ' + D1), T('t_remap', [3, 5, 5, 1, 0, 4, 1, 0], 6, 3, ['done'], D1), T('t_remap', [1, 131, 5, 0, 1, 4, 1, 1], 5, 2, ['done'], 'histogram, two chunks, ' + D1), T('t_remap', [1, 260, 5, 0, 0, 4, 1, 0], 4, 2, ['done'], 'two chunks, ' + D1), T('t_quantize', [4, 4, 5, 1, 1, 4, 1], 5, 2, ['done']), T('t_quantize', [20, 20, 5, 0, 0, 4, 1], 5, 3, ['done']),
         T('q_contract', [4, 131, 5, 0, 0, 4, 1], 3, 2, ['written'], D1), T('q_contract', [1, 131, 5, 1, 0, 4, 1], 3, 2, ['written'], D1), T('q_errors', [4, 4, 5, 1, 1, 4, 1], 4, 2, ['exact'], D1), T('q_fixed', [4, 4, 5, 1, 0, 4, 1, 1, 1], 4, 2, ['done'], '1 fixed colour'), T('q_lossless', [3, 2, 5, 2, 3, 0, 1], 3, 2, ['done'], D1), T('pr_remap', [4, 4, 5, 1, 1, 4, 5, 1], 3, 2, ['aborted', 'finished'], 'abort at call 0..4'), T('pr_remap', [1, 131, 5, 0, 0, 4, 6, 1], 3, 2, ['aborted', 'finished'], 'abort at call 0..5')],
  thorough=[T('t_remap', [4, 4, 5, 1, 1, 4, 1, 0], 7, 2, ['done'], D1), T('t_remap', [4, 4, 5, 2, 0, 4, 1, 1], 7, 3, ['done'], D1), T('t_remap', [3, 5, 5, 1, 1, 4, 1, 0], 7, 3, ['done'], D1), T('t_remap', [1, 131, 5, 1, 1, 4, 2, 1], 6, 3, ['done'], D2), T('t_remap', [2, 260, 5, 0, 1, 4, 1, 0], 6, 2, ['done'], D1), T('t_quantize', [3, 5, 5, 1, 1, 4, 1], 7, 3, ['done']), T('t_quantize', [20, 20, 5, 0, 1, 0, 1], 5, 3, ['done']),
            T('q_contract', [4, 131, 5, 1, 1, 2, 2], 4, 2, ['written'], D2), T('q_errors', [4, 4, 5, 1, 1, 2, 1], 6, 2, ['exact'], D1), T('q_fixed', [4, 4, 5, 1, 1, 4, 2, 1, 1], 5, 2, ['done'], ''), T('m_frozen', [2, 2, 5, 2, 4, 4, 0], 4, 2, ['done'], ''), T('m_importance_remap', [4, 4, 5, 1, 0, 4, 1], 4, 2, ['done'], ''), T('pr_remap', [1, 131, 5, 1, 1, 4, 6, 2], 4, 2, ['aborted', 'finished'], '')])

P('C22', title='Importance maps weigh pixels, and unimportant pixels do not count',
  statement='An importance map of exactly one byte per pixel is accepted and any other size refused. A pixel of importance zero has no influence on the palette, whatever its colour, also when the image is remapped or quantized again afterwards, and otherwise importance is the weight a pixel is counted with; over the C interface the map is copied or taken over as requested.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, arbitrary importance byte, all map lengths up to the bound',
  why='Influence of an ignored pixel must be excluded for every colour it may have.',
  files=['src/image.rs', 'src/hist.rs', 'src/remap.rs', 'imagequant-sys/src/ffi.rs'], mech=[('weights', 'src/hist.rs add_pixel_rows/add_color, src/remap.rs remap_to_palette'), ('size check', 'src/image.rs set_importance_map'), ('C ownership modes', 'imagequant-sys/src/ffi.rs liq_image_set_importance_map')],
  quick=[S('m_importance', [2, 2, 0, 2, 0, 1, 0], ['done'], ''), S('m_importance', [4, 4, 5, 2, 1, 2, 1], ['done'], ''), S('m_importance', [7, 3, 5, 2, 1, 2, 1], ['done'], ''), S('m_importance_remap', [4, 4, 5, 1, 1, 4, 2], ['done'], '2 remappings with either dithering'), S('m_importance_remap', [5, 3, 5, 1, 0, 4, 1], ['done'], ''), S('m_importance_again', [4, 4, 5, 1, 1, 4], ['done', 'again'], 'quantized again after a remapping with either dithering'), S('m_importance_again', [3, 2, 5, 1, 1, 4], ['done', 'again'], 'the same'), R('m_importance_len', [0], ['accepted', 'refused'], 'sizes up to 4x4, lengths 0..18'), R('h_importance', [2], ['most', 'least', 'between'], 'arbitrary importance byte, speeds 1..10'), R('c_importance', [0], ['copied', 'done', 'refused', 'taken'], 'C'), T('m_importance_remap', [4, 4, 5, 1, 0, 4, 1], 3, 2, ['done'])],
  thorough=both([S('m_importance', [4, 4, 5, 3, 1, 2, 1], ['done'], ''), S('m_importance', [2, 2, 0, 3, 1, 2, 1], ['done'], ''), S('m_importance_remap', [4, 4, 5, 2, 1, 4, 2], ['done'], ''), S('m_importance_again', [4, 4, 5, 2, 1, 2], ['done', 'again'], ''), R('m_importance_len', [0], ['accepted'], ''), R('h_importance', [2], ['most', 'least', 'between'], ''), R('c_importance', [0], ['done'], '')]))

P('C23', title='The way pixels are supplied, and the interface used, do not matter',
  statement='The same pixels give the same palette, indices and reported numbers whether they are supplied as a borrowed, owned, strided, row-list or callback image, directly or through a copy, and whether the Rust or the C interface is used, for all settings. Row callbacks are asked only for whole rows inside the image.',
  over=['inputs', 'configurations', 'programs'], qtext='all pixel contents within the scene, 11 ways of supplying, settings of both interfaces',
  why='Differential over all contents; tests compare none of these against each other.',
  files=['src/image.rs', 'src/rows.rs', 'src/seacow.rs', 'imagequant-sys/src/ffi.rs', 'src/capi.rs'], mech=[('row access', 'src/rows.rs'), ('C wrappers', 'imagequant-sys/src/ffi.rs')],
  quick=[S('same_source', [4, 4, 5, 2, 1, 4, 1], ['C', 'done'], D1), S('same_source', [3, 2, 0, 2, 0, 2, 1], ['C', 'done'], D1), S('same_api', [4, 4, 5, 1, 1, 4], ['fails', 'same'], 'quality, posterization, order, gammas, fixed colour'), S('same_hist', [4, 4, 5, 2, 1, 4], ['done'], ''), S('same_source', [3, 140, 5, 0, 0, 4, 1], ['C', 'done'], D1), S('same_source', [72, 72, 7, 0, 0, 4, 1], ['C', 'done'], D1)],
  thorough=both([S('same_source', [4, 4, 5, 3, 1, 4, 1], ['C', 'done'], ''), S('same_api', [4, 4, 5, 2, 1, 2], ['fails', 'same'], ''), S('same_hist', [4, 4, 5, 3, 1, 4], ['done'], '')]))

P('C24', title='The same input gives the same output, and undithered remapping repeats',
  statement='Quantizing and remapping the same pixels with the same settings, in newly made objects, gives the same palette, indices and reported errors every time, whatever was processed before. Remapping the same image again without dithering gives the same palette and indices, and quantizing the same histogram again (no fixed colours) gives the same palette.',
  over=['inputs', 'histories'], qtext='all pixel contents within the scene, repetition after other uses of the same objects',
  why='Hidden state left behind by earlier calls shows only when everything is repeated for arbitrary contents.',
  files=['src/quant.rs', 'src/hist.rs', 'src/image.rs', 'src/remap.rs'], mech=[('deterministic hashing', 'src/hist.rs U32Hasher'), ('palette refined on a copy', 'src/quant.rs write_remapped_image_rows_internal')],
  quick=[S('q_repeat', [2, 2, 0, 2, 4, 1, 1], ['again', 'done'], D1), S('q_repeat', [4, 4, 5, 2, 1, 2, 1], ['again', 'done'], D1), S('q_repeat', [20, 16, 5, 1, 0, 3, 1], ['again', 'done'], D1), S('h_repeat', [4, 4, 5, 2, 1, 2, 0], ['done'], 'target qualities 100/70')],
  thorough=both([S('q_repeat', [2, 2, 0, 3, 4, 1, 1], ['again', 'done'], ''), S('q_repeat', [4, 4, 5, 3, 1, 2, 2], ['again', 'done'], ''), S('h_repeat', [4, 4, 5, 3, 1, 2, 0], ['done'], '')]))

P('C25', title='Palette colours stay within the range of the input',
  statement='No palette entry is more or less opaque than every input pixel allows, and for opaque images no palette channel lies outside the range that channel has in the input, before and after remapping.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, speeds, maximum colours, dithering',
  why='Averaging in the working space and rounding back must stay inside the range for every combination of colours.',
  files=['src/mediancut.rs', 'src/kmeans.rs', 'src/pal.rs'], mech=[('weighted averages', 'src/mediancut.rs weighed_average_color, src/kmeans.rs finalize'), ('conversion back', 'src/pal.rs to_rgb')],
  quick=[S('q_gamut', [2, 2, 1, 4, 4, 1, 1], ['done', 'remapped'], D1), S('q_gamut', [4, 4, 1, 3, 1, 2, 1], ['done', 'remapped'], D1), S('q_gamut', [4, 4, 5, 3, 1, 2, 1], ['done', 'remapped'], D1), S('q_gamut', [20, 16, 1, 1, 0, 3, 1], ['done', 'remapped'], D1), S('q_gamut', [160, 160, 8, 0, 6, 3, 1], ['done', 'remapped'], D1)],
  thorough=both([S('q_gamut', [4, 4, 1, 4, 1, 2, 2], ['done', 'remapped'], ''), S('q_gamut', [4, 4, 5, 4, 1, 2, 1], ['done', 'remapped'], ''), S('q_gamut', [20, 16, 2, 2, 1, 3, 1], ['done', 'remapped'], '')]))

P('C26', title='Large images are processed with the same guarantees',
  statement='Images so large that their converted pixels are not kept in memory are processed row by row with the same outcome: every pixel gets the same colour as if they were kept, and the guarantees about indices, exact colours, reported errors, backgrounds, importance, aborting and ways of supplying pixels hold unchanged. Nothing is read or written outside the image and no uninitialised pixel is used.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, ways of supplying pixels, speeds, maximum colours, dithering, backgrounds',
  why='The row-by-row code is used only above four million pixels, which no test reaches.',
  files=['src/rows.rs', 'src/image.rs', 'src/remap.rs', 'src/hist.rs'], mech=[('row-by-row conversion', 'src/rows.rs row_f/row_f_shared/prepare_iter'), ('limit', 'src/rows.rs should_use_low_memory, src/image.rs contrast_maps'), ('scratch rows', 'src/remap.rs remap_to_palette/remap_to_palette_floyd')],
  assumptions=['the size limit is lowered by the hook cfg(verif_low_memory) so that small images take the code path of large ones; the arithmetic on sizes of truly large images is checked by C02 only'],
  quick=[L('q_contract', [4, 4, 5, 2, 1, 2, 1], ['too small', 'written'], D1), L('q_contract', [5, 9, 5, 1, 1, 2, 1], ['written'], 'no contrast maps, ' + D1), L('m_stream', [4, 4, 5, 3, 0, 0, 1], ['done'], 'kept or row by row, with or without a background'), L('m_stream', [5, 5, 0, 2, 0, 0, 1], ['done'], 'the same'), L('q_errors', [4, 4, 5, 1, 1, 2, 1], ['exact'], D1), L('q_errors', [5, 9, 5, 1, 1, 4, 1], ['exact'], D1), L('q_lossless', [4, 4, 5, 2, 3, 0, 1, 2], ['done'], D1 + ', 2 gammas'), L('same_source', [4, 4, 5, 1, 1, 4, 1], ['C', 'done'], D1), L('same_source', [3, 15, 5, 1, 0, 4, 1], ['C', 'done'], D1), L('pr_remap', [4, 4, 5, 1, 1, 4, 5, 1], ['aborted', 'finished'], ''), L('m_importance', [4, 4, 5, 1, 1, 4, 1], ['done'], ''), R('m_background_dither', [4, 4, 5, 1], ['differs', 'equal'], LOW, 'lowmem'), R('m_background_dither', [3, 3, 0, 0], ['differs', 'equal'], LOW + '; all pixels symbolic', 'lowmem'), L('n_history', [4, 4, 5, 0, 0, 4, 2, 1], ['remapped', 'result'], 'all sequences of 2 calls after a quantization'), R('c_owner', [3, 4, 4], ['done', 'owned'], LOW, 'lowmem')],
  thorough=[L('q_contract', [4, 4, 5, 3, 1, 2, 2], ['too small', 'written'], D2), L('q_contract', [5, 9, 5, 2, 1, 2, 2], ['written'], D2), L('m_stream', [4, 4, 5, 4, 0, 0, 1], ['done'], ''), L('m_stream', [5, 5, 0, 3, 0, 0, 1], ['done'], ''), L('q_errors', [4, 4, 5, 2, 1, 2, 1], ['exact'], D1), L('q_lossless', [4, 4, 5, 3, 3, 0, 2, 3], ['done'], D2), L('same_source', [4, 4, 5, 2, 1, 4, 1], ['C', 'done'], D1), L('same_api', [4, 4, 5, 1, 1, 4], ['same'], ''), L('n_history', [4, 4, 5, 0, 0, 4, 3, 1], ['remapped', 'result'], 'all sequences of 3 calls', time=2400), L('cl_image', [4, 4, 5, 1, 1, 4, 1], ['copy', 'original'], D1), L('m_importance_again', [4, 4, 5, 1, 1, 4], ['done', 'again'], '')])

P('C27', title='Log callbacks see the settings in use and change nothing',
  statement='Whether log and flush callbacks are set never changes whether quantization works, the palette or the indices. Log callbacks are called with the settings object in use and a zero-terminated text, callbacks that were replaced are not called any more, and with a flush callback every message has been flushed by the time the settings object is destroyed, which flushes once; a copy of a settings object logs and flushes on its own. This holds for the Rust and the C interface.',
  over=['inputs', 'configurations', 'histories'], qtext='all combinations of callbacks set, replaced or absent, settings copied or not, quality ranges that can and cannot be met, all pixel contents within the scene',
  why='No test sets more than one callback or compares the outcome with and without logging.',
  files=['src/attr.rs', 'src/quant.rs', 'src/hist.rs', 'imagequant-sys/src/ffi.rs'], mech=[('callbacks', 'src/attr.rs set_log_callback/set_log_flush_callback/verbose_print/Drop'), ('C callbacks', 'imagequant-sys/src/ffi.rs liq_set_log_callback/liq_set_log_flush_callback')],
  assumptions=['the text of formatted messages is not modelled (format! yields an empty string in the encoding); fixed texts are'],
  quick=[S('c_log', [3, 2, 5, 1, 1, 4], ['copy', 'done', 'failed', 'flushed', 'logged'], '3 quality ranges'), S('c_log', [20, 20, 5, 0, 1, 4], ['copy', 'done', 'failed', 'flushed', 'logged'], '3 quality ranges'), S('r_log', [3, 2, 5, 1, 1, 4], ['done', 'failed'], '3 quality ranges')],
  thorough=both([S('c_log', [4, 4, 5, 2, 1, 2], ['copy', 'done', 'failed', 'flushed', 'logged'], '3 quality ranges'), S('c_log', [20, 20, 5, 0, 2, 3], ['copy', 'done', 'failed', 'flushed', 'logged'], '3 quality ranges'), S('r_log', [4, 4, 5, 2, 1, 2], ['done', 'failed'], '3 quality ranges')]))

P('C28', title='A palette approximates the image at least as well as its average colour',
  statement='For an opaque image and a maximum of at least two colours, remapping without dithering is never further from the image (sum over the pixels, in the metric the library reports errors in) than replacing every pixel by the average colour of the image would be.',
  over=['inputs', 'configurations'], qtext='all pixel contents within the scene, speeds, maximum colours',
  why='A palette can be valid in every formal respect and yet useless for particular distributions of colours; tests look at a few pictures.',
  files=['src/mediancut.rs', 'src/kmeans.rs', 'src/quant.rs', 'src/hist.rs'], mech=[('choice of the colours', 'src/mediancut.rs'), ('refinement', 'src/kmeans.rs, src/quant.rs find_best_palette')],
  quick=[S('q_worth', [2, 2, 1, 4, 4, 1, 0, 100], ['done', 'varied'], ''), S('q_worth', [4, 4, 2, 3, 1, 4, 0, 100], ['done', 'varied'], ''), S('q_worth', [8, 8, 1, 1, 2, 3, 0, 100], ['done', 'varied'], ''), S('q_worth', [20, 20, 2, 1, 1, 4, 0, 100], ['done', 'varied'], ''), S('q_worth', [72, 72, 8, 0, 6, 3, 0, 100], ['done', 'varied'], '')],
  thorough=both([S('q_worth', [2, 2, 1, 4, 2, 1, 0, 100], ['done', 'varied'], ''), S('q_worth', [4, 4, 1, 4, 1, 2, 0, 100], ['done', 'varied'], ''), S('q_worth', [20, 20, 2, 2, 1, 3, 0, 100], ['done', 'varied'], ''), S('q_worth', [160, 160, 8, 0, 6, 3, 0, 100], ['done', 'varied'], '')]))

P('C29', title='Dithering brings flat areas closer to their colour',
  statement='When a flat area is remapped to a palette that has only two colours, one on either side of it (in brightness, in one colour channel, or in opacity), full dithering mixes the two so that the average of the area is clearly closer to its colour than without dithering, unless its colour is next to one of the two; then it is not noticeably further. This holds for every level in between.',
  over=['inputs', 'configurations'], qtext='every level between the two palette colours, for grey, each channel and opacity, speeds',
  why='Mixing colours is the point of dithering; no test looks at averages.',
  files=['src/remap.rs'], mech=[('error diffusion', 'src/remap.rs remap_to_palette_floyd/get_dithered_pixel/dither_row')],
  quick=[R('m_dither_flat', [32, 32, 100, 131, 1, 70, k, 10], ['done'], f'32x32, {what} 100..131, speeds 1,4,7,8,10; error at most 70% of the undithered one, or 10% of the gap') for k, what in enumerate(DITHER)] + [R('m_dither_flat', [16, 16, 60, 91, 4, 100, 0, 10], ['done'], '16x16, greys 60..91, speeds 1,5,10; at most 100%'), R('m_dither_flat', [24, 24, 200, 231, 4, 100, 0, 10], ['done'], '24x24, greys 200..231')],
  thorough=both([R('m_dither_flat', [32, 32, 100, 131, 2, 70, k, 10], ['done'], f'32x32, {what} 100..131, speeds 1..10') for k, what in enumerate(DITHER)] + [R('m_dither_flat', [w, h, lo, lo + 31, 1, 100, k, 10], ['done'], f'{w}x{h}, {what} {lo}..{lo+31}, at most 100%') for k, what in enumerate(DITHER) for w, h, lo in ((16, 16, 60), (33, 40, 150), (24, 24, 200))]))

P('C30', title='Colours of fully transparent pixels are never seen',
  statement='Fully transparent pixels look the same whatever red, green and blue values they carry, so those values have no influence: the palette, the indices and the reported errors are the same for all of them, whether such a pixel is part of the image, of its background or of a histogram, or is a fixed colour.',
  over=['inputs', 'configurations'], qtext='all 2^24 hidden colours of a pixel, at the beginning, middle or end of the image, in the image, its background, a histogram entry or a fixed colour; speeds, maximum colours, dithering',
  why='A leak of the hidden values needs particular values in a particular mix of colours; no test has transparent pixels with different hidden values.',
  files=['src/hist.rs', 'src/pal.rs', 'src/remap.rs', 'src/image.rs'], mech=[('one histogram entry for all transparent pixels', 'src/hist.rs add_color/finalize_builder, HashColor'), ('premultiplied working space', 'src/pal.rs f_pixel::from_rgba')],
  quick=[S('m_hidden', [3, 2, 5, 0, 1, 4, 1, 0], ['done'], 'in the image; ' + D1), S('m_hidden', [4, 4, 5, 1, 1, 2, 1, 0], ['done'], 'in the image; ' + D1), S('m_hidden', [4, 4, 5, 0, 1, 4, 1, 1], ['done'], 'in the background; ' + D1), S('m_hidden', [4, 4, 5, 0, 1, 4, 1, 2], ['done'], 'in a histogram; ' + D1), S('m_hidden', [2, 2, 5, 0, 5, 1, 0, 3], ['done'], 'fixed colour; no dithering'), S('m_hidden', [20, 20, 7, 0, 5, 3, 1, 0, 1], ['done'], 'in the image, every third other pixel semi-transparent; ' + D1), S('m_hidden', [20, 20, 5, 0, 4, 5, 1, 0], ['done'], 'in the image; ' + D1)],
  thorough=both([S('m_hidden', [4, 4, 5, 2, 1, 2, 1, 0], ['done'], 'in the image; ' + D1), S('m_hidden', [4, 4, 5, 1, 1, 2, 1, 1], ['done'], 'in the background; ' + D1), S('m_hidden', [3, 2, 5, 1, 1, 4, 1, 2], ['done'], 'in a histogram; ' + D1), S('m_hidden', [3, 2, 5, 0, 4, 1, 0, 3], ['done'], 'fixed colour; no dithering'), S('m_hidden', [20, 20, 7, 0, 4, 3, 1, 0, 1], ['done'], 'in the image, every third other pixel semi-transparent; ' + D1), S('m_hidden', [20, 20, 5, 0, 2, 2, 1, 0], ['done'], 'in the image; ' + D1)]))

P('C31', title='Running out of memory is reported, and nothing is lost or damaged',
  statement='When memory for the copies of pixels, maps and rows that quantizing and remapping need cannot be allocated, the call fails with an out-of-memory error or does without what is optional; it does not crash, and a remapping that succeeds has written every pixel with an index inside the palette. The objects stay valid: trying again when there is memory works, and (unless dithering) gives what it would have given, and destroying them releases everything, including memory handed over through the C interface, exactly once.',
  over=['fault schedules', 'inputs', 'configurations'], qtext='every allocation of working memory failing, alone or with all later ones; ways of supplying pixels, background, importance map, histogram, both interfaces, speeds, dithering',
  why='Tests never run out of memory; each of the allocations is a crash point of its own.',
  files=['src/rows.rs', 'src/image.rs', 'src/hist.rs', 'src/remap.rs', 'src/kmeans.rs', 'src/quant.rs', 'imagequant-sys/src/ffi.rs'], mech=[('fallible allocation', 'src/rows.rs temp_buf, src/image.rs try_zero_vec, src/hist.rs finalize_builder'), ('errors out of parallel loops', 'src/remap.rs remap_to_palette (NaN sum)')],
  assumptions=['only blocks of at least about a byte per pixel take part in the faults; small objects and hash tables are allocated by std in ways that end the process when memory runs out, and so are not injected'],
  quick=[S('oom_rust', [56, 56, 5, 0, 4, 1, 1, 14, 3000, w], ['done', 'enough', 'no palette', 'no remapping', 'managed without'], t + '; ' + D1 + '; any of the first 14 blocks of 3000 bytes or more fails, alone or with all later ones') for w, t in ((0, '3 ways of supplying pixels'), (3, 'background and importance map'), (4, 'through a histogram'))] + [S('oom_c', [96, 96, 5, 0, 4, 1, 1, 14, 9000], ['done', 'no histogram', 'no palette', 'no remapping'], D1 + '; C, pixels handed over or not; any of the first 14 blocks of 9000 bytes or more fails')],
  thorough=both([S('oom_rust', [56, 56, 5, 0, 2, 4, 1, 20, 3000, w], ['done', 'enough', 'no palette', 'no remapping', 'managed without'], t + '; ' + D1 + '; any of the first 20 blocks of 3000 bytes or more fails, alone or with all later ones', time=2400) for w, t in ((0, '3 ways of supplying pixels'), (3, 'background and importance map'), (4, 'through a histogram'), (7, 'all of these'))] + [S('oom_c', [96, 96, 5, 0, 2, 4, 1, 20, 9000], ['done', 'no histogram', 'no palette', 'no remapping'], D1 + '; C, pixels handed over or not; any of the first 20 blocks of 9000 bytes or more fails', time=2400)]))

NOT_APPLICABLE = {}
NA_PROPS = {}
