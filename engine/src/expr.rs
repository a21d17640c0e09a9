//! Hash-consed symbolic expressions over bit-vectors (floats are bit patterns).
use std::collections::HashMap;
use std::rc::Rc;

pub type EId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat, // Extract: aux = low bit; Concat(hi, lo)
    FAdd, FSub, FMul, FDiv, FRem, FCmp, FSqrt, FMA, FPExt, FPTrunc,
    UIToFP, SIToFP, FPToUI, FPToSI, FPToUISat, FPToSISat,
    FMinNum, FMaxNum, FMinimum, FMaximum, SseMax, SseMin, FPow, FPowi, FFloor, FCeil, FTrunc, FRound, FRint, FCopysign,
    FExp, FLog, FCbrt,
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, UMulHi, SMulHi,
    Lut, // aux = lut index, a[0] = index expr
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,  // result width in bits
    pub aw: u8, // argument width (of a[0]) where it matters
    pub aux: u32,
    pub a: [u32; 3],
}

pub struct Lut {
    pub base: u64,
    pub stride: u64,
    pub vals: Vec<u64>,         // when stride>0: direct
    pub map: Vec<(u64, u64)>,   // else sorted key/value
}
impl Lut {
    pub fn get(&self, k: u64) -> u64 {
        if self.stride > 0 {
            let d = k.wrapping_sub(self.base);
            if d % self.stride != 0 { return 0; }
            self.vals.get((d / self.stride) as usize).copied().unwrap_or(0)
        } else {
            match self.map.binary_search_by_key(&k, |x| x.0) { Ok(i) => self.map[i].1, Err(_) => 0 }
        }
    }
    pub fn entries(&self) -> Vec<(u64, u64)> {
        if self.stride > 0 { self.vals.iter().enumerate().map(|(i, v)| (self.base + i as u64 * self.stride, *v)).collect() } else { self.map.clone() }
    }
}

pub struct VarInfo { pub w: u8, pub name: String, pub undef: bool }

pub struct Ex {
    pub nodes: Vec<Node>,
    map: HashMap<Node, EId, FxBuild>,
    pub supp: Vec<u32>,
    pub fp: Vec<bool>,
    pub supps: Vec<Rc<[u32]>>,
    supp_map: HashMap<Rc<[u32]>, u32, FxBuild>,
    union_cache: HashMap<(u32, u32), u32, FxBuild>,
    pub vars: Vec<VarInfo>,
    pub luts: Vec<Lut>,
    lut_map: HashMap<(u64, u64, Vec<(u64, u64)>), u32, FxBuild>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
pub type FxBuild = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
}

#[inline]
pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline]
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

extern "C" {
    fn powf(a: f32, b: f32) -> f32;
    fn pow(a: f64, b: f64) -> f64;
    fn fmaf(a: f32, b: f32, c: f32) -> f32;
    fn fma(a: f64, b: f64, c: f64) -> f64;
    fn fmod(a: f64, b: f64) -> f64;
    fn fmodf(a: f32, b: f32) -> f32;
    fn expf(a: f32) -> f32; fn exp(a: f64) -> f64; fn logf(a: f32) -> f32; fn log(a: f64) -> f64; fn cbrtf(a: f32) -> f32; fn cbrt(a: f64) -> f64;
}

fn f32b(v: u64) -> f32 { f32::from_bits(v as u32) }
fn f64b(v: u64) -> f64 { f64::from_bits(v) }

/// The single definition of the semantics of every operator on concrete values.
#[inline]
pub fn ev(op: Op, w: u8, aw: u8, aux: u32, a: u64, b: u64, c: u64) -> u64 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u64 & m } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 & m } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => { let s = sx(a, w); (if b >= w as u64 { s >> 63 } else { s >> b }) as u64 & m }
        Eq => (a == b) as u64,
        Ult => (a < b) as u64,
        Ule => (a <= b) as u64,
        Slt => (sx(a, aw) < sx(b, aw)) as u64,
        Sle => (sx(a, aw) <= sx(b, aw)) as u64,
        Ite => if a != 0 { b } else { c },
        ZExt => a,
        SExt => sx(a, aw) as u64 & m,
        Extract => (a >> aux) & m,
        Concat => ((a << aux) | b) & m, // aux = width of low part
        FAdd => if w == 32 { (f32b(a) + f32b(b)).to_bits() as u64 } else { (f64b(a) + f64b(b)).to_bits() },
        FSub => if w == 32 { (f32b(a) - f32b(b)).to_bits() as u64 } else { (f64b(a) - f64b(b)).to_bits() },
        FMul => if w == 32 { (f32b(a) * f32b(b)).to_bits() as u64 } else { (f64b(a) * f64b(b)).to_bits() },
        FDiv => if w == 32 { (f32b(a) / f32b(b)).to_bits() as u64 } else { (f64b(a) / f64b(b)).to_bits() },
        FRem => unsafe { if w == 32 { fmodf(f32b(a), f32b(b)).to_bits() as u64 } else { fmod(f64b(a), f64b(b)).to_bits() } },
        FCmp => {
            let (x, y) = if aw == 32 { (f32b(a) as f64, f32b(b) as f64) } else { (f64b(a), f64b(b)) };
            let un = x.is_nan() || y.is_nan();
            // bits: 1=eq 2=gt 4=lt 8=unordered
            let r = if un { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
            (aux & r != 0) as u64
        }
        FSqrt => if w == 32 { f32b(a).sqrt().to_bits() as u64 } else { f64b(a).sqrt().to_bits() },
        FMA => unsafe { if w == 32 { fmaf(f32b(a), f32b(b), f32b(c)).to_bits() as u64 } else { fma(f64b(a), f64b(b), f64b(c)).to_bits() } },
        FPExt => (f32b(a) as f64).to_bits(),
        FPTrunc => (f64b(a) as f32).to_bits() as u64,
        UIToFP => if w == 32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
        SIToFP => { let s = sx(a, aw); if w == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
        FPToUI | FPToUISat => {
            let x = if aw == 32 { f32b(a) as f64 } else { f64b(a) };
            if w >= 64 { x as u64 } else { let v = x as u64; if v > m { m } else { v } }
        }
        FPToSI | FPToSISat => {
            let x = if aw == 32 { f32b(a) as f64 } else { f64b(a) };
            let v = x as i64;
            if w >= 64 { v as u64 } else {
                let hi = (m >> 1) as i64; let lo = -hi - 1;
                (v.max(lo).min(hi)) as u64 & m
            }
        }
        FMinNum | FMaxNum => {
            if w == 32 { let (x, y) = (f32b(a), f32b(b)); fmm32(x, y, op == FMinNum).to_bits() as u64 } else { let (x, y) = (f64b(a), f64b(b)); fmm64(x, y, op == FMinNum).to_bits() }
        }
        FMinimum | FMaximum => {
            if w == 32 { let (x, y) = (f32b(a), f32b(b)); if x.is_nan() || y.is_nan() { f32::NAN.to_bits() as u64 } else { fmm32(x, y, op == FMinimum).to_bits() as u64 } }
            else { let (x, y) = (f64b(a), f64b(b)); if x.is_nan() || y.is_nan() { f64::NAN.to_bits() } else { fmm64(x, y, op == FMinimum).to_bits() } }
        }
        SseMax => if w == 32 { if f32b(a) > f32b(b) { a } else { b } } else if f64b(a) > f64b(b) { a } else { b },
        SseMin => if w == 32 { if f32b(a) < f32b(b) { a } else { b } } else if f64b(a) < f64b(b) { a } else { b },
        FPow => unsafe { if w == 32 { powf(f32b(a), f32b(b)).to_bits() as u64 } else { pow(f64b(a), f64b(b)).to_bits() } },
        FPowi => if w == 32 { f32b(a).powi(b as u32 as i32).to_bits() as u64 } else { f64b(a).powi(b as u32 as i32).to_bits() },
        FExp => unsafe { if w == 32 { expf(f32b(a)).to_bits() as u64 } else { exp(f64b(a)).to_bits() } },
        FLog => unsafe { if w == 32 { logf(f32b(a)).to_bits() as u64 } else { log(f64b(a)).to_bits() } },
        FCbrt => unsafe { if w == 32 { cbrtf(f32b(a)).to_bits() as u64 } else { cbrt(f64b(a)).to_bits() } },
        FFloor => if w == 32 { f32b(a).floor().to_bits() as u64 } else { f64b(a).floor().to_bits() },
        FCeil => if w == 32 { f32b(a).ceil().to_bits() as u64 } else { f64b(a).ceil().to_bits() },
        FTrunc => if w == 32 { f32b(a).trunc().to_bits() as u64 } else { f64b(a).trunc().to_bits() },
        FRound => if w == 32 { f32b(a).round().to_bits() as u64 } else { f64b(a).round().to_bits() },
        FRint => if w == 32 { f32b(a).round_ties_even().to_bits() as u64 } else { f64b(a).round_ties_even().to_bits() },
        FCopysign => { let s = 1u64 << (w - 1); (a & !s) | (b & s) }
        Ctlz => if a == 0 { w as u64 } else { (a.leading_zeros() as u64) - (64 - w as u64) },
        Cttz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
        Ctpop => a.count_ones() as u64,
        Bswap => a.swap_bytes() >> (64 - w),
        Bitrev => a.reverse_bits() >> (64 - w),
        UMulHi => ((a as u128 * b as u128) >> w) as u64 & m,
        SMulHi => ((sx(a, w) as i128 * sx(b, w) as i128) >> w) as u64 & m,
        Const | Var | Lut => unreachable!(),
    }
}
fn fmm32(x: f32, y: f32, min: bool) -> f32 {
    if x.is_nan() { return y; } if y.is_nan() { return x; }
    if x == y { let neg = if min { x.is_sign_negative() || y.is_sign_negative() } else { x.is_sign_negative() && y.is_sign_negative() }; return if x == 0. { if neg { -0.0 } else { 0.0 } } else { x }; }
    if (x < y) == min { x } else { y }
}
fn fmm64(x: f64, y: f64, min: bool) -> f64 {
    if x.is_nan() { return y; } if y.is_nan() { return x; }
    if x == y { let neg = if min { x.is_sign_negative() || y.is_sign_negative() } else { x.is_sign_negative() && y.is_sign_negative() }; return if x == 0. { if neg { -0.0 } else { 0.0 } } else { x }; }
    if (x < y) == min { x } else { y }
}

pub fn is_fp(op: Op) -> bool { (op as u8) >= (FAdd as u8) && (op as u8) <= (FCbrt as u8) }
pub fn nargs(op: Op) -> usize {
    match op {
        Const | Var => 0,
        Ite | FMA => 3,
        ZExt | SExt | Extract | FSqrt | FPExt | FPTrunc | UIToFP | SIToFP | FPToUI | FPToSI | FPToUISat | FPToSISat | FFloor | FCeil | FTrunc | FRound | FRint | FExp | FLog | FCbrt | Ctlz | Cttz | Ctpop | Bswap | Bitrev | Lut => 1,
        _ => 2,
    }
}

impl Ex {
    pub fn new() -> Ex {
        let e: Rc<[u32]> = Rc::from(vec![]);
        let mut sm = HashMap::default();
        sm.insert(e.clone(), 0);
        Ex { nodes: vec![], map: HashMap::default(), supp: vec![], fp: vec![], supps: vec![e], supp_map: sm, union_cache: HashMap::default(), vars: vec![], luts: vec![], lut_map: HashMap::default() }
    }
    fn supp_of(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(&i) = self.supp_map.get(&r) { return i; }
        let i = self.supps.len() as u32;
        self.supps.push(r.clone());
        self.supp_map.insert(r, i);
        i
    }
    pub fn supp_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.union_cache.get(&k) { return r; }
        let mut v: Vec<u32> = self.supps[a as usize].iter().chain(self.supps[b as usize].iter()).copied().collect();
        v.sort_unstable(); v.dedup();
        let r = self.supp_of(v);
        self.union_cache.insert(k, r);
        r
    }
    fn intern(&mut self, n: Node) -> EId {
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as EId;
        let s = match n.op {
            Const => 0,
            Var => self.supp_of(vec![n.aux]),
            _ => { let mut s = 0; for k in 0..nargs(n.op) { let t = self.supp[n.a[k] as usize]; s = self.supp_union(s, t); } s }
        };
        let mut fp = is_fp(n.op);
        for k in 0..nargs(n.op) { fp |= self.fp[n.a[k] as usize]; }
        self.nodes.push(n);
        self.supp.push(s);
        self.fp.push(fp);
        self.map.insert(n, i);
        i
    }
    pub fn c(&mut self, w: u8, v: u64) -> EId { let v = v & mask(w); self.intern(Node { op: Const, w, aw: 0, aux: 0, a: [v as u32, (v >> 32) as u32, 0] }) }
    pub fn var(&mut self, w: u8, name: String, undef: bool) -> (EId, u32) {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, name, undef });
        (self.intern(Node { op: Var, w, aw: 0, aux: id, a: [0; 3] }), id)
    }
    pub fn var_node(&mut self, w: u8, id: u32) -> EId { self.intern(Node { op: Var, w, aw: 0, aux: id, a: [0; 3] }) }
    #[inline] pub fn w(&self, e: EId) -> u8 { self.nodes[e as usize].w }
    #[inline] pub fn is_c(&self, e: EId) -> Option<u64> { let n = &self.nodes[e as usize]; if n.op == Const { Some(n.a[0] as u64 | (n.a[1] as u64) << 32) } else { None } }
    pub fn support(&self, e: EId) -> Rc<[u32]> { self.supps[self.supp[e as usize] as usize].clone() }

    pub fn mk_lut(&mut self, idx: EId, mut ents: Vec<(u64, u64)>, w: u8) -> EId {
        ents.sort_unstable(); ents.dedup_by_key(|x| x.0);
        if ents.iter().all(|x| x.1 == ents[0].1) { return self.c(w, ents[0].1); }
        // affine identity shortcuts are not attempted
        let key = (0u64, w as u64, ents.clone());
        let li = if let Some(&i) = self.lut_map.get(&key) { i } else {
            let mut stride = 0;
            if ents.len() >= 2 {
                let s = ents[1].0 - ents[0].0;
                if ents.windows(2).all(|p| p[1].0 - p[0].0 == s) { stride = s; }
            }
            let l = if stride > 0 { Lut { base: ents[0].0, stride, vals: ents.iter().map(|x| x.1).collect(), map: vec![] } } else { Lut { base: 0, stride: 0, vals: vec![], map: ents } };
            let i = self.luts.len() as u32;
            self.luts.push(l);
            self.lut_map.insert(key, i);
            i
        };
        let aw = self.w(idx);
        self.intern(Node { op: Lut, w, aw, aux: li, a: [idx, 0, 0] })
    }

    pub fn not(&mut self, e: EId) -> EId { let w = self.w(e); let one = self.c(w, mask(w)); self.mk(Xor, w, 0, &[e, one]) }
    pub fn eq(&mut self, a: EId, b: EId) -> EId { self.mk(Eq, 1, 0, &[a, b]) }
    pub fn eqc(&mut self, a: EId, v: u64) -> EId { let w = self.w(a); let c = self.c(w, v); self.eq(a, c) }
    pub fn extract(&mut self, e: EId, lo: u32, w: u8) -> EId { self.mk(Extract, w, lo, &[e]) }
    pub fn concat(&mut self, hi: EId, lo: EId) -> EId { let (a, b) = (self.w(hi), self.w(lo)); self.mk(Concat, a + b, b as u32, &[hi, lo]) }

    pub fn mk(&mut self, op: Op, w: u8, aux: u32, args: &[EId]) -> EId {
        debug_assert_eq!(args.len(), nargs(op));
        let mut a = [0u32; 3];
        a[..args.len()].copy_from_slice(args);
        let aw = self.w(a[0]);
        let cs = [self.is_c(a[0]), if args.len() > 1 { self.is_c(a[1]) } else { Some(0) }, if args.len() > 2 { self.is_c(a[2]) } else { Some(0) }];
        if let [Some(x), Some(y), Some(z)] = cs { let v = ev(op, w, aw, aux, x, y, z); return self.c(w, v); }
        // simplifications
        match op {
            Add | Or | Xor => { if cs[1] == Some(0) { return a[0]; } if cs[0] == Some(0) { return a[1]; } }
            Sub | Shl | LShr | AShr => { if cs[1] == Some(0) { return a[0]; } if op == Sub && a[0] == a[1] { return self.c(w, 0); } }
            _ => {}
        }
        if op == FMul {
            // times zero: constant when the other factor is finite and of one sign for every value of its only (small) variable
            let k = if matches!(cs[0], Some(v) if v & (mask(w) >> 1) == 0) { Some(a[1]) } else if matches!(cs[1], Some(v) if v & (mask(w) >> 1) == 0) { Some(a[0]) } else { None };
            if let Some(o) = k {
                let sup = &self.supps[self.supp[o as usize] as usize];
                if sup.len() == 1 && self.vars[sup[0] as usize].w <= 8 {
                    let z = cs[0].or(cs[1]).unwrap();
                    let mut r = None;
                    let n = 1u64 << self.vars[sup[0] as usize].w;
                    let all = (0..n).all(|v| { let x = self.eval(o, &|_| v, &mut HashMap::default()); let y = ev(op, w, aw, aux, z, x, 0); *r.get_or_insert(y) == y });
                    if all { return self.c(w, r.unwrap()); }
                }
            }
        }
        match op {
            Sub => if let Some(v) = cs[1] { let n = self.c(w, v.wrapping_neg()); return self.mk(Add, w, 0, &[a[0], n]); },
            Shl | LShr => {
                if let Some(s) = cs[1] { if s >= w as u64 { return self.c(w, 0); } }
                // (x >> s) : extract then zext ; (x<<s)
                if let Some(s) = cs[1] {
                    if op == LShr { let hi = self.extract(a[0], s as u32, w - s as u8); return self.mk(ZExt, w, 0, &[hi]); }
                    else {
                        let lo = self.extract(a[0], 0, w - s as u8);
                        let z = self.c(s as u8, 0);
                        return self.concat(lo, z);
                    }
                }
            }
            And => {
                if cs[0] == Some(0) || cs[1] == Some(0) { return self.c(w, 0); }
                if cs[0] == Some(mask(w)) { return a[1]; }
                if cs[1] == Some(mask(w)) { return a[0]; }
                if a[0] == a[1] { return a[0]; }
                if let Some(v) = cs[1] {
                    let k = v.trailing_ones();
                    if v == mask(k as u8) && (k as u8) < w { let e = self.extract(a[0], 0, k as u8); return self.mk(ZExt, w, 0, &[e]); }
                }
            }
            Or => {
                if cs[0] == Some(mask(w)) || cs[1] == Some(mask(w)) { return self.c(w, mask(w)); }
                if a[0] == a[1] { return a[0]; }
                // or of disjoint byte-ish fields: concat(x,0) | zext(y)
                for (p, q) in [(a[0], a[1]), (a[1], a[0])] {
                    let n = self.nodes[p as usize];
                    if n.op == Concat && self.is_c(n.a[1]) == Some(0) {
                        let lw = self.w(n.a[1]);
                        let m = self.nodes[q as usize];
                        let qlow = if m.op == ZExt && m.aw <= lw { Some(m.a[0]) } else if m.op == Const && self.is_c(q).unwrap() <= mask(lw) { let v = self.is_c(q).unwrap(); Some(self.c(lw, v)) } else { None };
                        if let Some(y) = qlow { let lo = self.mk(ZExt, lw, 0, &[y]); return self.concat(n.a[0], lo); }
                    }
                }
            }
            Xor => {
                if a[0] == a[1] { return self.c(w, 0); }
                if let Some(v) = cs[1] {
                    let n = self.nodes[a[0] as usize];
                    if n.op == Xor { if let Some(u) = self.is_c(n.a[1]) { let k = self.c(w, u ^ v); return self.mk(Xor, w, 0, &[n.a[0], k]); } }
                    if w == 1 && v == 1 {
                        // negation: push through comparisons
                        match n.op {
                            Ult => return self.mk(Ule, 1, 0, &[n.a[1], n.a[0]]),
                            Ule => return self.mk(Ult, 1, 0, &[n.a[1], n.a[0]]),
                            Slt => return self.mk(Sle, 1, 0, &[n.a[1], n.a[0]]),
                            Sle => return self.mk(Slt, 1, 0, &[n.a[1], n.a[0]]),
                            FCmp => return self.mk(FCmp, 1, 15 ^ n.aux, &[n.a[0], n.a[1]]),
                            _ => {}
                        }
                    }
                }
            }
            Add => {
                if cs[0].is_some() && cs[1].is_none() { a.swap(0, 1); }
                else if let Some(v) = cs[1] {
                    let n = self.nodes[a[0] as usize];
                    if n.op == Add { if let Some(u) = self.is_c(n.a[1]) { let k = self.c(w, u.wrapping_add(v)); return self.mk(Add, w, 0, &[n.a[0], k]); } }
                }
            }
            Mul => {
                if cs[0] == Some(0) || cs[1] == Some(0) { return self.c(w, 0); }
                if cs[0] == Some(1) { return a[1]; }
                if cs[1] == Some(1) { return a[0]; }
                if cs[0].is_some() { a.swap(0, 1); }
                else if let Some(v) = cs[1] { if v.is_power_of_two() { let k = self.c(w, v.trailing_zeros() as u64); return self.mk(Shl, w, 0, &[a[0], k]); } }
            }
            UDiv => { if let Some(v) = cs[1] { if v.is_power_of_two() { let k = self.c(w, v.trailing_zeros() as u64); return self.mk(LShr, w, 0, &[a[0], k]); } } }
            URem => { if let Some(v) = cs[1] { if v.is_power_of_two() { let k = self.c(w, v - 1); return self.mk(And, w, 0, &[a[0], k]); } } }
            Eq => {
                if a[0] == a[1] { return self.c(1, 1); }
                if cs[0].is_some() { a.swap(0, 1); }
                if let Some(v) = self.is_c(a[1]) {
                    let n = self.nodes[a[0] as usize];
                    match n.op {
                        ZExt => { let iw = n.aw; if v > mask(iw) { return self.c(1, 0); } return self.eqc(n.a[0], v); }
                        Add => if let Some(u) = self.is_c(n.a[1]) { return self.eqc(n.a[0], v.wrapping_sub(u) & mask(aw)); },
                        Xor => if let Some(u) = self.is_c(n.a[1]) { return self.eqc(n.a[0], v ^ u); },
                        Ite => {
                            if let (Some(x), Some(y)) = (self.is_c(n.a[1]), self.is_c(n.a[2])) {
                                if x == v && y != v { return n.a[0]; }
                                if x != v && y == v { return self.not(n.a[0]); }
                                if x != v && y != v { return self.c(1, 0); }
                            }
                        }
                        _ => {}
                    }
                    if aw == 1 { return if v == 1 { a[0] } else { self.not(a[0]) }; }
                } else if a[0] > a[1] { a.swap(0, 1); }
            }
            Ult => {
                if a[0] == a[1] || cs[1] == Some(0) { return self.c(1, 0); }
                if cs[1] == Some(1) { return self.eqc(a[0], 0); }
                let n = self.nodes[a[0] as usize];
                if let (ZExt, Some(v)) = (n.op, cs[1]) { if v > mask(n.aw) { return self.c(1, 1); } let k = self.c(n.aw, v); return self.mk(Ult, 1, 0, &[n.a[0], k]); }
                let n = self.nodes[a[1] as usize];
                if let (ZExt, Some(v)) = (n.op, cs[0]) { if v >= mask(n.aw) { return self.c(1, 0); } let k = self.c(n.aw, v); return self.mk(Ult, 1, 0, &[k, n.a[0]]); }
            }
            Ule => {
                if a[0] == a[1] || cs[0] == Some(0) || cs[1] == Some(mask(aw)) { return self.c(1, 1); }
                let n = self.nodes[a[0] as usize];
                if let (ZExt, Some(v)) = (n.op, cs[1]) { if v >= mask(n.aw) { return self.c(1, 1); } let k = self.c(n.aw, v); return self.mk(Ule, 1, 0, &[n.a[0], k]); }
                let n = self.nodes[a[1] as usize];
                if let (ZExt, Some(v)) = (n.op, cs[0]) { if v > mask(n.aw) { return self.c(1, 0); } let k = self.c(n.aw, v); return self.mk(Ule, 1, 0, &[k, n.a[0]]); }
            }
            Slt => if a[0] == a[1] { return self.c(1, 0); },
            Sle => if a[0] == a[1] { return self.c(1, 1); },
            Ite => {
                if let Some(v) = cs[0] { return if v != 0 { a[1] } else { a[2] }; }
                if a[1] == a[2] { return a[1]; }
                if w == 1 {
                    if cs[1] == Some(1) && cs[2] == Some(0) { return a[0]; }
                    if cs[1] == Some(0) && cs[2] == Some(1) { return self.not(a[0]); }
                }
            }
            ZExt => {
                if aw == w { return a[0]; }
                let n = self.nodes[a[0] as usize];
                if n.op == ZExt { return self.mk(ZExt, w, 0, &[n.a[0]]); }
            }
            SExt => {
                if aw == w { return a[0]; }
                let n = self.nodes[a[0] as usize];
                if n.op == ZExt { return self.mk(ZExt, w, 0, &[n.a[0]]); }
            }
            Extract => {
                if aux == 0 && aw == w { return a[0]; }
                let n = self.nodes[a[0] as usize];
                match n.op {
                    Extract => return self.mk(Extract, w, aux + n.aux, &[n.a[0]]),
                    ZExt => {
                        let iw = n.aw as u32;
                        if aux >= iw { return self.c(w, 0); }
                        if aux + w as u32 <= iw { return self.mk(Extract, w, aux, &[n.a[0]]); }
                        let e = self.mk(Extract, (iw - aux) as u8, aux, &[n.a[0]]);
                        return self.mk(ZExt, w, 0, &[e]);
                    }
                    SExt => { if aux + w as u32 <= n.aw as u32 { return self.mk(Extract, w, aux, &[n.a[0]]); } }
                    Concat => {
                        let lw = n.aux;
                        if aux >= lw { return self.mk(Extract, w, aux - lw, &[n.a[0]]); }
                        if aux + w as u32 <= lw { return self.mk(Extract, w, aux, &[n.a[1]]); }
                        let hi = self.mk(Extract, (aux + w as u32 - lw) as u8, 0, &[n.a[0]]);
                        let lo = self.mk(Extract, (lw - aux) as u8, aux, &[n.a[1]]);
                        return self.concat(hi, lo);
                    }
                    And | Or | Xor => {
                        if self.is_c(n.a[1]).is_some() {
                            let x = self.mk(Extract, w, aux, &[n.a[0]]); let y = self.mk(Extract, w, aux, &[n.a[1]]);
                            return self.mk(n.op, w, 0, &[x, y]);
                        }
                        // bit fields put together with or
                        let x = self.mk(Extract, w, aux, &[n.a[0]]); let y = self.mk(Extract, w, aux, &[n.a[1]]);
                        if self.is_c(x).is_some() || self.is_c(y).is_some() { return self.mk(n.op, w, 0, &[x, y]); }
                    }
                    Add if aux == 0 => {
                        if self.is_c(n.a[1]).is_some() {
                            let x = self.mk(Extract, w, 0, &[n.a[0]]); let y = self.mk(Extract, w, 0, &[n.a[1]]);
                            return self.mk(n.op, w, 0, &[x, y]);
                        }
                    }
                    Ite => {
                        if self.is_c(n.a[1]).is_some() || self.is_c(n.a[2]).is_some() {
                            let x = self.mk(Extract, w, aux, &[n.a[1]]); let y = self.mk(Extract, w, aux, &[n.a[2]]);
                            return self.mk(Ite, w, 0, &[n.a[0], x, y]);
                        }
                    }
                    _ => {}
                }
            }
            Concat => {
                if cs[0] == Some(0) { return self.mk(ZExt, w, 0, &[a[1]]); }
                // merge adjacent extracts
                let h = self.nodes[a[0] as usize]; let l = self.nodes[a[1] as usize];
                if h.op == Extract && l.op == Extract && h.a[0] == l.a[0] && h.aux == l.aux + l.w as u32 { return self.mk(Extract, w, l.aux, &[h.a[0]]); }
                // hi is zext(extract) adjacent: concat(zext(x), y) = zext(concat(x,y))
                if h.op == ZExt { let inner = self.concat(h.a[0], a[1]); return self.mk(ZExt, w, 0, &[inner]); }
                // concat(hi, concat(mid, lo)): try to merge hi+mid
                if l.op == Concat {
                    let m = self.nodes[l.a[0] as usize];
                    if h.op == Extract && m.op == Extract && h.a[0] == m.a[0] && h.aux == m.aux + m.w as u32 {
                        let hm = self.mk(Extract, h.w + m.w, m.aux, &[h.a[0]]);
                        return self.concat(hm, l.a[1]);
                    }
                }
                // lo whole expr is low part extract(0) of base
                if h.op == Extract && h.aux == l.w as u32 && h.a[0] == a[1] { }
            }
            _ => {}
        }
        self.intern(Node { op, w, aw: self.w(a[0]), aux, a })
    }

    /// Evaluate under a full assignment of variables.
    pub fn eval(&self, e: EId, asg: &dyn Fn(u32) -> u64, memo: &mut HashMap<EId, u64, FxBuild>) -> u64 {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let n = self.nodes[x as usize];
            match n.op {
                Const => { memo.insert(x, n.a[0] as u64 | (n.a[1] as u64) << 32); stack.pop(); }
                Var => { memo.insert(x, asg(n.aux) & mask(n.w)); stack.pop(); }
                _ => {
                    let k = nargs(n.op);
                    let mut ready = true;
                    for i in 0..k { if !memo.contains_key(&n.a[i]) { stack.push(n.a[i]); ready = false; } }
                    if ready {
                        let g = |i: usize| if i < k { memo[&n.a[i]] } else { 0 };
                        let v = if n.op == Lut { self.luts[n.aux as usize].get(g(0)) } else { ev(n.op, n.w, n.aw, n.aux, g(0), g(1), g(2)) };
                        memo.insert(x, v);
                        stack.pop();
                    }
                }
            }
        }
        memo[&e]
    }
}
