//! LLVM textual IR: module scanner and lazy function decoder.
use crate::expr::{Op, mask};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Meta }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(n) => *n, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, t) => n * t.bits(), _ => 0 } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = ((*n as u64 + 7) / 8).next_power_of_two(); b.min(16).max(1) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// store size rounded to alignment (alloc size)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = b.next_power_of_two().min(16); (b + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => { let mut o = 0; for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k == i { return o; } o += t.size(); } o }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("field of {:?}", self) } }
    pub fn nfields(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tok<'a> { Id(&'a str), Loc(&'a str), Glob(&'a str), Str(&'a str), CStr(&'a str), Meta(&'a str), Attr(&'a str), P(u8), Eof }

pub struct Lex<'a> { s: &'a [u8], i: usize, pub t: Tok<'a>, }
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self { let mut l = Lex { s: s.as_bytes(), i: 0, t: Tok::Eof }; l.next(); l }
    fn sub(&self, a: usize, b: usize) -> &'a str { std::str::from_utf8(&self.s[a..b]).unwrap() }
    pub fn next(&mut self) -> Tok<'a> {
        let old = std::mem::replace(&mut self.t, Tok::Eof);
        let s = self.s;
        loop {
            while self.i < s.len() && (s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
            if self.i + 1 < s.len() && s[self.i] == b'/' && s[self.i + 1] == b'*' { self.i += 2; while self.i + 1 < s.len() && !(s[self.i] == b'*' && s[self.i + 1] == b'/') { self.i += 1; } self.i += 2; continue; }
            if self.i < s.len() && s[self.i] == b';' { while self.i < s.len() && s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        if self.i >= s.len() { return old; }
        let c = s[self.i];
        let word = |mut j: usize| { while j < s.len() && (s[j].is_ascii_alphanumeric() || matches!(s[j], b'_' | b'.' | b'$' | b'-' | b'+')) { j += 1; } j };
        self.t = match c {
            b'%' | b'@' => {
                let st = self.i + 1;
                let r = if s.get(st) == Some(&b'"') { let mut j = st + 1; while s[j] != b'"' { j += 1; } self.i = j + 1; self.sub(st + 1, j) } else { let j = word(st); self.i = j; self.sub(st, j) };
                if c == b'%' { Tok::Loc(r) } else { Tok::Glob(r) }
            }
            b'!' => { let j = word(self.i + 1); let r = self.sub(self.i, j); self.i = j; Tok::Meta(r) }
            b'#' => { let j = word(self.i + 1); let r = self.sub(self.i, j); self.i = j; Tok::Attr(r) }
            b'"' => { let st = self.i + 1; let mut j = st; while s[j] != b'"' { j += 1; } self.i = j + 1; Tok::Str(self.sub(st, j)) }
            b'c' if s.get(self.i + 1) == Some(&b'"') => { let st = self.i + 2; let mut j = st; while s[j] != b'"' { j += 1; } self.i = j + 1; Tok::CStr(self.sub(st, j)) }
            _ => {
                let j = word(self.i);
                if j > self.i { let r = self.sub(self.i, j); self.i = j; Tok::Id(r) } else { self.i += 1; Tok::P(c) }
            }
        };
        old
    }
    pub fn eat(&mut self, p: u8) -> bool { if self.t == Tok::P(p) { self.next(); true } else { false } }
    pub fn expect(&mut self, p: u8) { if !self.eat(p) { panic!("expected {:?} got {:?} in {}", p as char, self.t, String::from_utf8_lossy(&self.s[..self.s.len().min(400)])); } }
    pub fn eat_id(&mut self, k: &str) -> bool { if self.t == Tok::Id(k) { self.next(); true } else { false } }
    pub fn skip_paren(&mut self) { // current is '('
        let mut d = 0;
        loop { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } Tok::Eof => return, _ => {} } }
    }
    pub fn is_ty(&self) -> bool {
        match &self.t {
            Tok::Id(s) => matches!(*s, "void" | "float" | "double" | "half" | "ptr" | "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "bfloat") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit())),
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val { C(u64), S(u32), A(Rc<Vec<Val>>) }
impl Val { #[inline] pub fn c(&self) -> Option<u64> { if let Val::C(v) = self { Some(*v) } else { None } } }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }

#[derive(Debug)]
pub struct Edge { pub pc: u32, pub phis: Vec<(u32, Opnd)> }

#[derive(Debug, Clone)]
pub enum Callee { Direct(u32), Indirect(Opnd) }

#[derive(Debug)]
pub enum Inst {
    Bin(Op, u32, Ty, Opnd, Opnd),              // op dst ty
    Cmp(u8, u32, Ty, Opnd, Opnd),              // icmp pred
    FCmp(u32, u32, Ty, Opnd, Opnd),
    FNeg(u32, Ty, Opnd),
    Cast(CastK, u32, Ty, Ty, Opnd),
    Select(u32, Ty, bool, Opnd, Opnd, Opnd),   // bool: vector condition
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, i64, u32)>), // base, const off, (idx, scale, width)
    Alloca(u32, u64, Option<(Opnd, u32)>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, u32, Edge, Vec<(u64, Edge)>),
    Ret(Option<Opnd>),
    Unreachable,
    Call { dst: Option<u32>, ty: Ty, callee: Callee, args: Vec<(Ty, Opnd)>, normal: Option<Edge> },
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(u32, Opnd, Opnd),
    InsertElement(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, Ty, Opnd, Opnd, Vec<i32>),
    Freeze(u32, Opnd),
    AtomicRmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Fence,
    Bad(String),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, Bit, PtrInt, FPExt, FPTrunc, UIToFP, SIToFP, FPToUI, FPToSI }

pub struct Func { pub name: String, pub id: u32, pub code: Vec<Inst>, pub nregs: u32, pub nargs: u32, pub ret: Ty }

pub struct FnInfo { pub name: String, pub sig: Option<(usize, usize)>, pub body: (usize, usize), pub decoded: RefCell<Option<Rc<Func>>> }

pub struct GlobInfo { pub name: String, pub text: (usize, usize), pub addr: u64, pub size: u64, pub constant: bool, pub external: bool }

pub struct Module {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub globs: Vec<GlobInfo>,
    pub glob_by_name: HashMap<String, u32>,
    pub types: HashMap<String, (usize, usize)>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const SLOT: u64 = 1 << 20;
pub const OBJ_BASE: u64 = 0x10_0000_0000; // slot 0
pub const OBJ_PAD: u64 = 256;

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("cannot read IR");
        let mut m = Module { text: String::new(), fns: vec![], fn_by_name: HashMap::new(), globs: vec![], glob_by_name: HashMap::new(), types: HashMap::new(), aliases: HashMap::new() };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map(|x| i + x).unwrap_or(b.len());
            let line = &text[i..e];
            if line.starts_with("define ") {
                let close = text[e..].find("\n}").map(|x| e + x + 1).unwrap();
                let mut lx = Lex::new(line);
                let name = loop { match lx.next() { Tok::Glob(n) => break n.to_string(), Tok::Eof => panic!("define?"), _ => {} } };
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnInfo { name, sig: Some((i, e)), body: (e + 1, close), decoded: RefCell::new(None) });
                i = close + 2;
                continue;
            } else if line.starts_with("declare ") {
                let mut lx = Lex::new(line);
                let name = loop { match lx.next() { Tok::Glob(n) => break n.to_string(), Tok::Eof => panic!("declare?"), _ => {} } };
                let id = m.fns.len() as u32;
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnInfo { name, sig: None, body: (0, 0), decoded: RefCell::new(None) });
            } else if line.starts_with('@') {
                let mut lx = Lex::new(line);
                let name = match lx.next() { Tok::Glob(n) => n.to_string(), _ => panic!() };
                lx.expect(b'=');
                let mut ext = false; let mut konst = false; let mut alias = false;
                loop {
                    match lx.t.clone() {
                        Tok::Id("external") | Tok::Id("extern_weak") => { ext = true; lx.next(); }
                        Tok::Id("global") => { lx.next(); break; }
                        Tok::Id("constant") => { konst = true; lx.next(); break; }
                        Tok::Id("alias") => { alias = true; lx.next(); break; }
                        Tok::Eof => panic!("global? {}", line),
                        Tok::Id("thread_local") | Tok::Id("addrspace") => { lx.next(); if lx.t == Tok::P(b'(') { lx.skip_paren(); } }
                        _ => { lx.next(); }
                    }
                }
                if alias {
                    let mut last = String::new();
                    while lx.t != Tok::Eof { if let Tok::Glob(n) = lx.next() { last = n.to_string(); } }
                    m.aliases.insert(name, last);
                } else {
                    let off = lx.i; let _ = off;
                    // remember position of the type token: recompute by slicing from the lexer state
                    let start = lx.tok_start();
                    let id = m.globs.len() as u32;
                    m.glob_by_name.insert(name.clone(), id);
                    m.globs.push(GlobInfo { name, text: (i + start, e), addr: 0, size: 0, constant: konst, external: ext });
                }
            } else if line.starts_with('%') && line.contains("= type") {
                let mut lx = Lex::new(line);
                if let Tok::Loc(n) = lx.next() { let n = n.to_string(); let p = line.find("= type").unwrap() + 6; m.types.insert(n, (i + p, e)); }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }
    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Id("void") => Ty::Void, Tok::Id("float") => Ty::F32, Tok::Id("double") => Ty::F64, Tok::Id("ptr") => Ty::Ptr,
            Tok::Id("metadata") | Tok::Id("label") | Tok::Id("token") => Ty::Meta,
            Tok::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {}", s))),
            Tok::Loc(n) => { let (a, b) = self.types[n]; let mut l2 = Lex::new(&self.text[a..b]); self.ty(&mut l2) }
            Tok::P(b'[') => { let n = num(lx.next()); lx.eat_id("x"); let t = self.ty(lx); lx.expect(b']'); Ty::Arr(n as u64, Rc::new(t)) }
            Tok::P(b'{') => { let f = self.fields(lx, b'}'); Ty::Struct(Rc::new(f), false) }
            Tok::P(b'<') => {
                if lx.eat(b'{') { let f = self.fields(lx, b'}'); lx.expect(b'>'); Ty::Struct(Rc::new(f), true) }
                else { let n = num(lx.next()); lx.eat_id("x"); let t = self.ty(lx); lx.expect(b'>'); Ty::Vec(n as u32, Rc::new(t)) }
            }
            x => panic!("type? {:?}", x),
        };
        if lx.t == Tok::Id("addrspace") { lx.next(); lx.skip_paren(); }
        t
    }
    fn fields(&self, lx: &mut Lex, end: u8) -> Vec<Ty> { let mut v = vec![]; if lx.eat(end) { return v; } loop { v.push(self.ty(lx)); if lx.eat(end) { return v; } lx.expect(b','); } }
    pub fn glob_addr(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.glob_by_name.get(n) { return self.globs[g as usize].addr; }
        if let Some(&f) = self.fn_by_name.get(n) { return FN_BASE + f as u64 * 16; }
        panic!("unknown global {}", n)
    }
    pub fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(n) if *n > 64 => Val::A(Rc::new(vec![Val::C(0), Val::C(0)])),
            Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Arr(n, e) => Val::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Val::C(0),
        }
    }
    /// Parses a constant of the given type.
    pub fn konst(&self, lx: &mut Lex, t: &Ty) -> Val {
        match lx.next() {
            Tok::Id("true") => Val::C(1), Tok::Id("false") => Val::C(0), Tok::Id("null") | Tok::Id("none") => Val::C(0),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => self.zero(t),
            Tok::Id("splat") => { lx.expect(b'('); let et = self.ty(lx); let v = self.konst(lx, &et); lx.expect(b')'); Val::A(Rc::new(vec![v; t.nfields()])) }
            Tok::Glob(n) => Val::C(self.glob_addr(n)),
            Tok::CStr(s) => Val::A(Rc::new(unesc(s).into_iter().map(|b| Val::C(b as u64)).collect())),
            Tok::P(b'[') => { let v = self.klist(lx, b']'); Val::A(Rc::new(v)) }
            Tok::P(b'{') => { let v = self.klist(lx, b'}'); Val::A(Rc::new(v)) }
            Tok::P(b'<') => { if lx.eat(b'{') { let v = self.klist(lx, b'}'); lx.expect(b'>'); Val::A(Rc::new(v)) } else { let v = self.klist(lx, b'>'); Val::A(Rc::new(v)) } }
            Tok::Id(k) if is_cexpr(k) => {
                let k = k.to_string();
                while let Tok::Id(_) = lx.t { lx.next(); if lx.t == Tok::P(b'(') && !matches!(lx.t, Tok::P(b'(')) { } }
                // flags such as inrange(-16, 32) may appear before the operand list
                if k == "getelementptr" {
                    // getelementptr [flags] (ty, ptr base, idx...)
                    // 'inrange(a, b)' looks like a parenthesised list with no type: detect
                    loop {
                        lx.expect(b'(');
                        if !lx.is_ty() && !matches!(lx.t, Tok::Loc(_)) { // inrange list
                            let mut d = 1; while d > 0 { match lx.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, _ => {} } }
                            continue;
                        }
                        break;
                    }
                    let et = self.ty(lx); lx.expect(b',');
                    let bt = self.ty(lx); let base = self.konst(lx, &bt).c().unwrap();
                    let mut off = 0i64; let mut cur = et; let mut first = true;
                    while lx.eat(b',') {
                        lx.eat_id("inrange");
                        let it = self.ty(lx); let iv = crate::expr::sx(self.konst(lx, &it).c().unwrap(), it.bits() as u8);
                        if first { off += iv * cur.size() as i64; first = false; } else { off += cur.field_off(iv as usize) as i64; cur = cur.field(iv as usize); }
                    }
                    lx.expect(b')');
                    return Val::C(base.wrapping_add(off as u64));
                }
                lx.expect(b'(');
                let at = self.ty(lx); let a = self.konst(lx, &at);
                if matches!(k.as_str(), "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr") {
                    lx.eat_id("to"); let tt = self.ty(lx); lx.expect(b')');
                    let v = a.c().unwrap();
                    let v = if k == "sext" { crate::expr::sx(v, at.bits() as u8) as u64 } else { v };
                    return Val::C(v & mask(tt.bits().min(64) as u8));
                }
                lx.expect(b',');
                let bt = self.ty(lx); let b = self.konst(lx, &bt); lx.expect(b')');
                let (x, y) = (a.c().unwrap(), b.c().unwrap());
                let w = at.bits() as u8;
                let r = match k.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), "and" => x & y, "or" => x | y, "xor" => x ^ y, "shl" => x << y, "lshr" => x >> y, _ => panic!("cexpr {}", k) };
                Val::C(r & mask(w))
            }
            Tok::Id(s) => self.num_const(s, t),
            x => panic!("const? {:?} of {:?}", x, t),
        }
    }
    fn klist(&self, lx: &mut Lex, end: u8) -> Vec<Val> { let mut v = vec![]; if lx.eat(end) { return v; } loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if lx.eat(end) { return v; } lx.expect(b','); } }
    fn num_const(&self, s: &str, t: &Ty) -> Val {
        match t {
            Ty::F32 | Ty::F64 => {
                let f32t = *t == Ty::F32;
                if let Some(h) = s.strip_prefix("f0x") { return Val::C(u64::from_str_radix(h, 16).unwrap()); }
                if let Some(h) = s.strip_prefix("0x") { let d = u64::from_str_radix(h, 16).unwrap(); return Val::C(if f32t { (f64::from_bits(d) as f32).to_bits() as u64 } else { d }); }
                let (neg, body) = if let Some(x) = s.strip_prefix('-') { (true, x) } else { (false, s.strip_prefix('+').unwrap_or(s)) };
                let d: f64 = match body { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, _ => body.parse().unwrap_or_else(|_| panic!("float {}", s)) };
                let d = if neg { -d } else { d };
                Val::C(if f32t { (d as f32).to_bits() as u64 } else { d.to_bits() })
            }
            Ty::Int(n) if *n > 64 => { let v: i128 = s.parse().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128); Val::A(Rc::new(vec![Val::C(v as u64), Val::C((v >> 64) as u64)])) }
            Ty::Int(n) => { let v: i128 = s.parse().unwrap_or_else(|_| panic!("int {} {:?}", s, t)); Val::C(v as u64 & mask(*n as u8)) }
            _ => panic!("num const {} for {:?}", s, t),
        }
    }
    /// Serialises a constant into bytes (None = padding/undef treated as zero).
    pub fn ser(&self, t: &Ty, v: &Val, out: &mut [u8]) {
        match (t, v) {
            (Ty::Int(n), Val::A(a)) if *n > 64 => { out[..8].copy_from_slice(&a[0].c().unwrap().to_le_bytes()); out[8..16].copy_from_slice(&a[1].c().unwrap().to_le_bytes()); }
            (_, Val::C(x)) => { let n = ((t.bits() + 7) / 8) as usize; out[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
            (_, Val::A(a)) => for (i, e) in a.iter().enumerate() { let o = t.field_off(i) as usize; self.ser(&t.field(i), e, &mut out[o..]); },
            _ => unreachable!(),
        }
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = self.fns[id as usize].decoded.borrow().as_ref() { return f.clone(); }
        let f = Rc::new(Decoder { m: self, regs: HashMap::new(), n: 0 }.decode(id));
        *self.fns[id as usize].decoded.borrow_mut() = Some(f.clone());
        f
    }
}
impl<'a> Lex<'a> {
    /// start offset of the current token
    fn tok_start(&self) -> usize {
        let len = match &self.t { Tok::Id(s) => s.len(), Tok::P(_) => 1, Tok::Loc(s) => { if self.s[self.i - 1] == b'"' { s.len() + 3 } else { s.len() + 1 } } _ => panic!("tok_start") };
        self.i - len
    }
}
fn is_cexpr(k: &str) -> bool { matches!(k, "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr") }
fn num(t: Tok) -> i64 { if let Tok::Id(s) = t { s.parse().unwrap_or_else(|_| panic!("num {}", s)) } else { panic!("num {:?}", t) } }
fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } } else { o.push(b[i]); i += 1; } }
    o
}

struct Decoder<'m> { m: &'m Module, regs: HashMap<String, u32>, n: u32 }
impl<'m> Decoder<'m> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r }
    fn val(&mut self, lx: &mut Lex, t: &Ty) -> Opnd { if let Tok::Loc(n) = lx.t { lx.next(); return Opnd::R(self.reg(n)); } Opnd::K(self.m.konst(lx, t)) }
    fn skip_attrs(&mut self, lx: &mut Lex) {
        loop {
            match lx.t.clone() {
                Tok::Id(s) => {
                    if matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "none") || is_cexpr(s) || s.as_bytes()[0].is_ascii_digit() || s.starts_with('-') || s.starts_with('+') || s.starts_with("f0x") { return; }
                    lx.next();
                    if s == "align" { if let Tok::Id(_) = lx.t { lx.next(); continue; } }
                    if lx.t == Tok::P(b'(') { lx.skip_paren(); }
                }
                Tok::Str(_) => { lx.next(); if lx.eat(b'=') { lx.next(); } }
                _ => return,
            }
        }
    }
    fn decode(mut self, id: u32) -> Func {
        let fi = &self.m.fns[id as usize];
        let (a, b) = fi.sig.expect("decode of declaration");
        let text = &self.m.text;
        // signature
        let mut lx = Lex::new(&text[a..b]);
        lx.next();
        let ret = loop { if lx.is_ty() { // could be an attribute keyword equal to no type; fine
                break self.m.ty(&mut lx); }
            if let Tok::Loc(_) = lx.t { break self.m.ty(&mut lx); }
            let was = lx.next(); if lx.t == Tok::P(b'(') && was != Tok::Eof { lx.skip_paren(); } };
        let _ = lx.next(); // @name
        lx.expect(b'(');
        let mut nargs = 0u32; let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if let Tok::Id("...") = lx.t { lx.next(); lx.expect(b')'); break; }
                let _t = self.m.ty(&mut lx);
                loop { // attrs
                    match lx.t.clone() { Tok::Id("align") => { lx.next(); lx.next(); } Tok::Id(_) => { lx.next(); if lx.t == Tok::P(b'(') { lx.skip_paren(); } } Tok::Str(_) => { lx.next(); if lx.eat(b'=') { lx.next(); } } _ => break }
                }
                if let Tok::Loc(n) = lx.t { lx.next(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } self.reg(n); } else { let n = unnamed.to_string(); unnamed += 1; self.reg(&n); }
                nargs += 1;
                if lx.eat(b')') { break; }
                lx.expect(b',');
            }
        }
        // body: logical lines
        let body = &text[fi.body.0..fi.body.1];
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        for line in body.lines() {
            if line.is_empty() { continue; }
            if !line.starts_with(' ') {
                let l = line.split(';').next().unwrap().trim_end();
                if let Some(n) = l.strip_suffix(':') { blocks.push((n.trim_matches('"').to_string(), vec![])); continue; }
            }
            if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
            let tr = line.trim_start();
            if tr.starts_with("#dbg") { continue; }
            let cont = line.starts_with("   ") || tr.starts_with(']');
            let v = &mut blocks.last_mut().unwrap().1;
            if cont { let l = v.last_mut().unwrap(); l.push(' '); l.push_str(tr); } else { v.push(tr.to_string()); }
        }
        // first pass: phis and pcs
        let bidx: HashMap<String, usize> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
        let mut phis: Vec<Vec<(u32, HashMap<usize, Opnd>)>> = vec![];
        let mut pcs = vec![]; let mut pc = 0u32;
        for (_, lines) in &blocks {
            pcs.push(pc);
            let mut ph = vec![];
            for l in lines {
                let is_phi = l.contains(" = phi ");
                if is_phi {
                    let mut lx = Lex::new(l);
                    let d = match lx.next() { Tok::Loc(n) => self.reg(n), _ => panic!() };
                    lx.expect(b'='); lx.next();
                    while !lx.is_ty() { lx.next(); }
                    let t = self.m.ty(&mut lx);
                    let mut mp = HashMap::new();
                    loop {
                        lx.expect(b'[');
                        let v = self.val(&mut lx, &t); lx.expect(b',');
                        let n = match lx.next() { Tok::Loc(n) => n.to_string(), x => panic!("phi {:?}", x) };
                        lx.expect(b']');
                        mp.insert(bidx[&n], v);
                        if lx.t == Tok::P(b',') { lx.next(); if lx.t != Tok::P(b'[') { break; } } else { break; }
                    }
                    ph.push((d, mp));
                } else { pc += 1; }
            }
            phis.push(ph);
        }
        let mut code = vec![];
        for (bi, (_, lines)) in blocks.iter().enumerate() {
            for l in lines { if l.contains(" = phi ") { continue; } let i = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inst(l, bi, &bidx, &pcs, &phis))).unwrap_or_else(|_| Inst::Bad(l.to_string())); code.push(i); }
        }
        Func { name: fi.name.clone(), id, code, nregs: self.n, nargs, ret }
    }
    fn edge(&mut self, lx: &mut Lex, from: usize, bidx: &HashMap<String, usize>, pcs: &[u32], phis: &[Vec<(u32, HashMap<usize, Opnd>)>]) -> Edge {
        lx.eat_id("label");
        let n = match lx.next() { Tok::Loc(n) => n, x => panic!("label {:?}", x) };
        let to = bidx[n];
        Edge { pc: pcs[to], phis: phis[to].iter().map(|(d, m)| (*d, m[&from].clone())).collect() }
    }
    fn inst(&mut self, line: &str, bi: usize, bidx: &HashMap<String, usize>, pcs: &[u32], phis: &[Vec<(u32, HashMap<usize, Opnd>)>]) -> Inst {
        let mut lx = Lex::new(line);
        let lx = &mut lx;
        let mut dst = 0; let mut has = false;
        if let Tok::Loc(n) = lx.t { lx.next(); dst = self.reg(n); has = true; lx.expect(b'='); }
        let mut op = match lx.next() { Tok::Id(s) => s, x => panic!("inst {:?} in {}", x, line) };
        if matches!(op, "tail" | "musttail" | "notail") { lx.next(); op = "call"; }
        let m = self.m;
        macro_rules! flags { () => { while let Tok::Id(_) = lx.t { if lx.is_ty() { break; } lx.next(); if lx.t == Tok::P(b'(') { lx.skip_paren(); } } } }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!();
                let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => Op::FRem };
                Inst::Bin(o, dst, t, a, b)
            }
            "fneg" => { flags!(); let t = m.ty(lx); let a = self.val(lx, &t); Inst::FNeg(dst, t, a) }
            "icmp" => {
                let mut p = "";
                while let Tok::Id(s) = lx.t { if lx.is_ty() { break; } lx.next(); p = s; }
                let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                let k = match p { "eq" => 0, "ne" => 1, "ugt" => 2, "uge" => 3, "ult" => 4, "ule" => 5, "sgt" => 6, "sge" => 7, "slt" => 8, "sle" => 9, _ => panic!("icmp {}", line) };
                Inst::Cmp(k, dst, t, a, b)
            }
            "fcmp" => {
                let mut p = "";
                while let Tok::Id(s) = lx.t { if lx.is_ty() { break; } lx.next(); p = s; }
                let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let b = self.val(lx, &t);
                let k = match p { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, _ => panic!("fcmp {}", line) };
                Inst::FCmp(k, dst, t, a, b)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fpext" | "fptrunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "addrspacecast" => {
                flags!();
                let t = m.ty(lx); let a = self.val(lx, &t); lx.eat_id("to"); let tt = m.ty(lx);
                let k = match op { "zext" => CastK::ZExt, "sext" => CastK::SExt, "trunc" => CastK::Trunc, "bitcast" => CastK::Bit, "fpext" => CastK::FPExt, "fptrunc" => CastK::FPTrunc, "uitofp" => CastK::UIToFP, "sitofp" => CastK::SIToFP, "fptoui" => CastK::FPToUI, "fptosi" => CastK::FPToSI, _ => CastK::PtrInt };
                Inst::Cast(k, dst, t, tt, a)
            }
            "select" => {
                flags!();
                let ct = m.ty(lx); let c = self.val(lx, &ct); lx.expect(b',');
                let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let t2 = m.ty(lx); let b = self.val(lx, &t2);
                Inst::Select(dst, t, matches!(ct, Ty::Vec(..)), c, a, b)
            }
            "load" => { flags!(); let t = m.ty(lx); lx.expect(b','); let pt = m.ty(lx); let p = self.val(lx, &pt); Inst::Load(dst, t, p) }
            "store" => { flags!(); let t = m.ty(lx); let v = self.val(lx, &t); lx.expect(b','); let pt = m.ty(lx); let p = self.val(lx, &pt); Inst::Store(t, v, p) }
            "getelementptr" => {
                loop { match lx.t { Tok::Id(_) if !lx.is_ty() => { lx.next(); if lx.t == Tok::P(b'(') { lx.skip_paren(); } } _ => break } }
                let et = m.ty(lx); lx.expect(b','); let bt = m.ty(lx);
                if matches!(bt, Ty::Vec(..)) { return Inst::Bad(line.to_string()); }
                let base = self.val(lx, &bt);
                let mut off = 0i64; let mut dynv = vec![]; let mut cur = et; let mut first = true;
                while lx.t == Tok::P(b',') {
                    lx.next();
                    if !lx.is_ty() { break; }
                    let it = m.ty(lx);
                    if matches!(it, Ty::Vec(..)) { return Inst::Bad(line.to_string()); }
                    let iv = self.val(lx, &it);
                    let w = it.bits();
                    if first {
                        first = false;
                        match iv { Opnd::K(Val::C(v)) => off += crate::expr::sx(v, w as u8).wrapping_mul(cur.size() as i64), o => dynv.push((o, cur.size() as i64, w)) }
                    } else {
                        match iv {
                            Opnd::K(Val::C(v)) => { let v = crate::expr::sx(v, w as u8); match &cur { Ty::Struct(..) => off += cur.field_off(v as usize) as i64, Ty::Arr(_, e) => off += v * e.size() as i64, _ => off += v * cur.field(0).size() as i64 } cur = cur.field(if let Ty::Struct(..) = cur { v as usize } else { 0 }); }
                            o => { let e = cur.field(0); dynv.push((o, e.size() as i64, w)); cur = e; }
                        }
                    }
                }
                Inst::Gep(dst, base, off, dynv)
            }
            "alloca" => {
                flags!();
                let t = m.ty(lx); let mut cnt = None;
                if lx.t == Tok::P(b',') { lx.next(); if lx.is_ty() { let it = m.ty(lx); let v = self.val(lx, &it); cnt = Some((v, it.bits())); } }
                Inst::Alloca(dst, t.size(), cnt)
            }
            "br" => {
                if lx.t == Tok::Id("label") { return Inst::Br(self.edge(lx, bi, bidx, pcs, phis)); }
                let t = m.ty(lx); let c = self.val(lx, &t); lx.expect(b',');
                let a = self.edge(lx, bi, bidx, pcs, phis); lx.expect(b',');
                let b = self.edge(lx, bi, bidx, pcs, phis);
                Inst::CondBr(c, a, b)
            }
            "switch" => {
                let t = m.ty(lx); let c = self.val(lx, &t); lx.expect(b',');
                let d = self.edge(lx, bi, bidx, pcs, phis); lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') { let ct = m.ty(lx); let v = m.konst(lx, &ct).c().unwrap_or_else(|| panic!("switch128")); lx.expect(b','); let e = self.edge(lx, bi, bidx, pcs, phis); cs.push((v, e)); }
                Inst::Switch(c, t.bits(), d, cs)
            }
            "ret" => { let t = m.ty(lx); if t == Ty::Void { Inst::Ret(None) } else { Inst::Ret(Some(self.val(lx, &t))) } }
            "unreachable" => Inst::Unreachable,
            "resume" | "cleanupret" | "landingpad" => Inst::Unreachable,
            "fence" => Inst::Fence,
            "freeze" => { let t = m.ty(lx); let a = self.val(lx, &t); Inst::Freeze(dst, a) }
            "extractvalue" => { let t = m.ty(lx); let a = self.val(lx, &t); let mut ix = vec![]; while lx.eat(b',') { match lx.t { Tok::Id(_) => ix.push(num(lx.next()) as u32), _ => break } } Inst::ExtractValue(dst, a, ix) }
            "insertvalue" => { let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let vt = m.ty(lx); let v = self.val(lx, &vt); let mut ix = vec![]; while lx.eat(b',') { match lx.t { Tok::Id(_) => ix.push(num(lx.next()) as u32), _ => break } } Inst::InsertValue(dst, t, a, v, ix) }
            "extractelement" => { let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let it = m.ty(lx); let i = self.val(lx, &it); Inst::ExtractElement(dst, a, i) }
            "insertelement" => { let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let et = m.ty(lx); let e = self.val(lx, &et); lx.expect(b','); let it = m.ty(lx); let i = self.val(lx, &it); Inst::InsertElement(dst, t, a, e, i) }
            "shufflevector" => {
                let t = m.ty(lx); let a = self.val(lx, &t); lx.expect(b','); let t2 = m.ty(lx); let b = self.val(lx, &t2); lx.expect(b',');
                let mt = m.ty(lx); let k = m.konst(lx, &mt);
                let mk = match k { Val::A(v) => v.iter().map(|x| x.c().unwrap() as u32 as i32).collect(), _ => panic!() };
                Inst::Shuffle(dst, t, a, b, mk)
            }
            "atomicrmw" => { lx.eat_id("volatile"); let k = match lx.next() { Tok::Id(s) => s.to_string(), _ => panic!() }; let pt = m.ty(lx); let p = self.val(lx, &pt); lx.expect(b','); let t = m.ty(lx); let v = self.val(lx, &t); Inst::AtomicRmw(dst, k, t, p, v) }
            "cmpxchg" => { flags!(); let pt = m.ty(lx); let p = self.val(lx, &pt); lx.expect(b','); let t = m.ty(lx); let c = self.val(lx, &t); lx.expect(b','); let t2 = m.ty(lx); let n = self.val(lx, &t2); Inst::CmpXchg(dst, t, p, c, n) }
            "call" | "invoke" => {
                // skip fmf / cc / return attributes
                loop {
                    if lx.is_ty() { break; }
                    match lx.t.clone() { Tok::Id("cc") => { lx.next(); lx.next(); } Tok::Id("align") => { lx.next(); lx.next(); } Tok::Id(_) => { lx.next(); if lx.t == Tok::P(b'(') { lx.skip_paren(); } } Tok::Str(_) => { lx.next(); if lx.eat(b'=') { lx.next(); } } Tok::Loc(_) => break, _ => panic!("call {}", line) }
                }
                let rt = m.ty(lx);
                if lx.t == Tok::P(b'(') { lx.skip_paren(); }
                let callee = match lx.next() {
                    Tok::Glob(n) => { let n = m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n); Callee::Direct(*m.fn_by_name.get(n).unwrap_or_else(|| panic!("callee {}", n))) }
                    Tok::Loc(n) => Callee::Indirect(Opnd::R(self.reg(n))),
                    Tok::Id("asm") => { return if line.contains("asm sideeffect \"\"") && !has { Inst::Fence } else { Inst::Bad(line.to_string()) }; }
                    Tok::Id("inttoptr") => { lx.skip_paren(); return Inst::Bad(line.to_string()); }
                    x => panic!("callee {:?} {}", x, line),
                };
                lx.expect(b'(');
                let mut args = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = m.ty(lx);
                        if t == Ty::Meta { // skip to , or )
                            let mut d = 0;
                            loop { match lx.t { Tok::P(b'(') => { d += 1; lx.next(); } Tok::P(b')') if d > 0 => { d -= 1; lx.next(); } Tok::P(b')') | Tok::P(b',') if d == 0 => break, Tok::Eof => break, _ => { lx.next(); } } }
                            args.push((t, Opnd::K(Val::C(0))));
                        } else {
                            self.skip_attrs(lx);
                            let v = self.val(lx, &t);
                            args.push((t, v));
                        }
                        if lx.eat(b')') { break; }
                        lx.expect(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while lx.t != Tok::Id("to") { if lx.t == Tok::Eof { panic!("invoke {}", line); } lx.next(); }
                    lx.next();
                    normal = Some(self.edge(lx, bi, bidx, pcs, phis));
                }
                Inst::Call { dst: if has && rt != Ty::Void { Some(dst) } else { None }, ty: rt, callee, args, normal }
            }
            _ => Inst::Bad(line.to_string()),
        }
    }
}
