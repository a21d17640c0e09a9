#![allow(static_mut_refs)]
mod sym;
mod com;
macro_rules! harnesses { ($($m:ident { $($f:ident),* $(,)? })*) => {
    $(mod $m;)*
    $($(const _: () = { #[export_name = concat!("vh_", stringify!($f))] pub extern "C" fn w() { $m::$f() } };)*)*
    fn run(n: &str) -> bool { match n { $($(stringify!($f) => $m::$f(),)*)* _ => return false } true }
} }
harnesses! {
    settings { set_rust, set_capi, set_result, set_gamma_palette }
    images { img_sizes, img_gamma, img_fn_sizes, img_c_sizes, img_addressing, img_long }
    core { q_contract, q_vec, q_fixed, h_fixed, q_lossless, q_lossless_bytes, q_lossless_fit, q_quality, q_quality_edge, q_order, q_poster, q_poster_bytes, q_gamut, q_repeat, q_errors, q_worth, q_size, q_quality_scale }
    maps { m_dither_flat, m_nearest, m_nearest_seq, m_nearest_pair, m_nearest_own, m_frozen, m_background, m_background_dither, m_background_prepare, m_background_args, m_importance, m_importance_remap, m_importance_again, m_importance_len, m_stream }
    lives { cl_image, cl_result, cl_attr, cl_attr_use, pr_quantize, pr_remap, n_history }
    capi { c_handles, c_nulls, c_owner, c_background, c_importance, c_destroy, c_remap, same_source, same_api, same_hist, c_progress, c_log, r_log, oom_c }
    oom { oom_rust, m_hidden }
    thr { t_remap, t_quantize }
    hists { h_counts, h_popular, h_image, h_importance, h_merge, h_args, h_total, h_coarse, h_repeat, h_fixed_limit }
}
use std::ffi::CString;
extern "C" { fn vf_load(p: *const u8) -> i32; fn vf_done(); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let path = CString::new(a[2].clone()).unwrap();
    if unsafe { vf_load(path.as_ptr().cast()) } < 0 { std::process::exit(3); }
    if !run(a[1].as_str()) { std::process::exit(4); }
    unsafe { vf_done(); }
}
