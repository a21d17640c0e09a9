//! The symbolic interpreter.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use crate::dom::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub pc: u32, pub regs: Vec<Val>, pub allocas: Vec<u64>, pub dst: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub dom: Dom,
    pub inputs: Vec<u32>, // variables in creation order (harness inputs only)
    pub obs: Vec<Val>,
    pub undecided: bool,
    pub steps: u64,
    pub forks: u32,
    pub covered: Vec<u32>,
}

pub enum Stop {
    Fork(EId, Vec<u64>),
    Mem(MemErr),
    Panic(String),
    Bound(String),   // engine cannot continue: no answer
    Pruned,          // assumption false
    Violate(EId, String), // condition expr that must hold can be false
    Done,
}
type R<T> = Result<T, Stop>;
impl From<MemErr> for Stop { fn from(e: MemErr) -> Stop { Stop::Mem(e) } }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub trace: Vec<String> }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u64>, pub obs: Vec<u64> }

#[derive(Default)]
pub struct Stats { pub paths: u64, pub pruned: u64, pub steps: u64, pub forks: u64, pub asserts: u64, pub assert_sites: BTreeMap<String, u64>, pub discharged_fd: u64, pub discharged_smt: u64, pub discharged_const: u64, pub assignments: f64, pub max_forks: u32, pub covered: BTreeMap<String, u64>, pub undecided: u64, pub infeasible_dropped: u64, pub panics_expected: u64 }

pub struct Cfg { pub max_steps: u64, pub max_ptr: usize, pub smt_assert: bool, pub samples: usize, pub params: Vec<u64>, pub deadline: std::time::Instant, pub max_viol: usize }

/// Work is shared by forking: a process with pending states hands half of them to a child while fewer than `jobs` are busy.
pub struct Split { pub jobs: u64, pub active: &'static AtomicU64, pub next_id: &'static AtomicU64, pub found: &'static AtomicU64, pub id: u64, pub kids: Vec<i32>, pub last: std::time::Instant }
extern "C" { fn fork() -> i32; }

pub struct Engine {
    pub split: Split,
    pub m: Rc<Module>,
    pub ex: Ex,
    pub cx: DomCtx,
    pub cfg: Cfg,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub errors: Vec<String>,
    pub work: Vec<State>,
    pub fn_used: HashSet<u32>,
    bi: Vec<Bi>,
    pub base: Mem,
    cover_names: Vec<String>,
    next_sample: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, Ignore, Panic, FormatInner,
    Memcpy, Memmove, Memset, Memcmp, Bcmp, Strlen,
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Abort, RetZero, Write,
    Min(bool, bool), // signed, is_max
    SatAdd(bool), SatSub(bool), Ovf(u8, bool), // op 0 add 1 sub 2 mul
    Un(Op), BinF(Op), Fabs, Fma, FpSat(Op), Cmp3(bool), Fsh(bool), Abs, Expect, LoadRel, Ident,
    IsConst, Trap, SseMax, SseMin, VecReduce(Op), VecReduceMM(bool, bool), Powi, SseMovmsk, FpClass, VecReduceF(Op),
    SymBits, SymAssume, SymAssert, SymCover, SymObserve, SymConcrete, SymParam, SymHeapLive, SymPrint, RetMinus1, Sysconf, Errno,
}

fn classify(n: &str, defined: bool) -> Bi {
    if defined {
        if n.contains("4core9panicking") || n.contains("18handle_alloc_error") || n.contains("3std9panicking") || n.contains("3std7process5abort") || n.contains("12handle_error") && n.contains("7raw_vec") || n.contains("17capacity_overflow") || n.contains("17panic_already") || n.contains("panic_already_") { return Bi::Panic; }
        if n.contains("5alloc3fmt6format12format_inner") { return Bi::FormatInner; }
        return Bi::None;
    }
    let is = |p: &str| n.starts_with(p);
    match n {
        "memcpy" => return Bi::Memcpy, "memmove" => return Bi::Memmove, "memset" => return Bi::Memset, "memcmp" => return Bi::Memcmp, "bcmp" => return Bi::Bcmp, "strlen" => return Bi::Strlen,
        "malloc" => return Bi::Malloc, "calloc" => return Bi::Calloc, "realloc" => return Bi::Realloc, "free" => return Bi::Free, "posix_memalign" => return Bi::PosixMemalign, "aligned_alloc" | "memalign" => return Bi::AlignedAlloc,
        "abort" | "_exit" | "exit" => return Bi::Abort, "getenv" => return Bi::RetZero, "sched_getaffinity" | "open64" => return Bi::RetMinus1, "__errno_location" => return Bi::Errno, "sysconf" => return Bi::Sysconf, "write" => return Bi::Write,
        "powf" | "pow" => return Bi::BinF(Op::FPow), "fmodf" | "fmod" => return Bi::BinF(Op::FRem),
        "cbrtf" | "cbrt" => return Bi::Un(Op::FCbrt), "expf" | "exp" => return Bi::Un(Op::FExp), "logf" | "log" => return Bi::Un(Op::FLog),
        "fmaf" | "fma" => return Bi::Fma,
        "sym_bits" => return Bi::SymBits, "sym_assume" => return Bi::SymAssume, "sym_assert" => return Bi::SymAssert, "sym_cover" => return Bi::SymCover, "sym_observe" => return Bi::SymObserve, "sym_concrete" => return Bi::SymConcrete, "sym_param" => return Bi::SymParam, "sym_heap_live" => return Bi::SymHeapLive, "sym_print" => return Bi::SymPrint,
        "llvm.x86.sse.max.ps" | "llvm.x86.sse.max.ss" => return Bi::SseMax, "llvm.x86.sse.min.ps" | "llvm.x86.sse.min.ss" => return Bi::SseMin,
        "llvm.x86.sse2.pmovmskb.128" => return Bi::SseMovmsk,
        _ => {}
    }
    let rules: &[(&str, Bi)] = &[
        ("llvm.memcpy", Bi::Memcpy), ("llvm.memmove", Bi::Memmove), ("llvm.memset", Bi::Memset),
        ("llvm.lifetime", Bi::Ignore), ("llvm.assume", Bi::Ignore), ("llvm.experimental.noalias", Bi::Ignore), ("llvm.dbg", Bi::Ignore), ("llvm.x86.sse2.pause", Bi::Ignore), ("llvm.prefetch", Bi::Ignore), ("llvm.sideeffect", Bi::Ignore), ("llvm.invariant", Bi::Ignore), ("llvm.va_", Bi::Ignore), ("llvm.donothing", Bi::Ignore), ("llvm.stackrestore", Bi::Ignore), ("llvm.stacksave", Bi::RetZero),
        ("llvm.umax", Bi::Min(false, true)), ("llvm.umin", Bi::Min(false, false)), ("llvm.smax", Bi::Min(true, true)), ("llvm.smin", Bi::Min(true, false)),
        ("llvm.uadd.sat", Bi::SatAdd(false)), ("llvm.usub.sat", Bi::SatSub(false)), ("llvm.sadd.sat", Bi::SatAdd(true)), ("llvm.ssub.sat", Bi::SatSub(true)),
        ("llvm.uadd.with", Bi::Ovf(0, false)), ("llvm.usub.with", Bi::Ovf(1, false)), ("llvm.umul.with", Bi::Ovf(2, false)), ("llvm.sadd.with", Bi::Ovf(0, true)), ("llvm.ssub.with", Bi::Ovf(1, true)), ("llvm.smul.with", Bi::Ovf(2, true)),
        ("llvm.ctlz", Bi::Un(Op::Ctlz)), ("llvm.cttz", Bi::Un(Op::Cttz)), ("llvm.ctpop", Bi::Un(Op::Ctpop)), ("llvm.bswap", Bi::Un(Op::Bswap)), ("llvm.bitreverse", Bi::Un(Op::Bitrev)),
        ("llvm.sqrt", Bi::Un(Op::FSqrt)), ("llvm.floor", Bi::Un(Op::FFloor)), ("llvm.ceil", Bi::Un(Op::FCeil)), ("llvm.trunc", Bi::Un(Op::FTrunc)), ("llvm.roundeven", Bi::Un(Op::FRint)), ("llvm.round", Bi::Un(Op::FRound)), ("llvm.rint", Bi::Un(Op::FRint)), ("llvm.nearbyint", Bi::Un(Op::FRint)),
        ("llvm.exp.", Bi::Un(Op::FExp)), ("llvm.log.", Bi::Un(Op::FLog)),
        ("llvm.fabs", Bi::Fabs), ("llvm.fma.", Bi::Fma), ("llvm.powi", Bi::Powi), ("llvm.pow.", Bi::BinF(Op::FPow)), ("llvm.copysign", Bi::BinF(Op::FCopysign)),
        ("llvm.minimumnum", Bi::BinF(Op::FMinNum)), ("llvm.maximumnum", Bi::BinF(Op::FMaxNum)), ("llvm.minnum", Bi::BinF(Op::FMinNum)), ("llvm.maxnum", Bi::BinF(Op::FMaxNum)), ("llvm.minimum.", Bi::BinF(Op::FMinimum)), ("llvm.maximum.", Bi::BinF(Op::FMaximum)),
        ("llvm.fptoui.sat", Bi::FpSat(Op::FPToUISat)), ("llvm.fptosi.sat", Bi::FpSat(Op::FPToSISat)),
        ("llvm.ucmp", Bi::Cmp3(false)), ("llvm.scmp", Bi::Cmp3(true)), ("llvm.fshl", Bi::Fsh(true)), ("llvm.fshr", Bi::Fsh(false)), ("llvm.abs", Bi::Abs), ("llvm.expect", Bi::Expect), ("llvm.load.relative", Bi::LoadRel), ("llvm.threadlocal.address", Bi::Ident), ("llvm.ptrmask", Bi::None), ("llvm.is.constant", Bi::IsConst), ("llvm.trap", Bi::Trap), ("llvm.ubsantrap", Bi::Trap),
        ("llvm.is.fpclass", Bi::FpClass), ("llvm.vector.reduce.fadd", Bi::VecReduceF(Op::FAdd)), ("llvm.vector.reduce.fmul", Bi::VecReduceF(Op::FMul)),
        ("llvm.vector.reduce.add", Bi::VecReduce(Op::Add)), ("llvm.vector.reduce.or", Bi::VecReduce(Op::Or)), ("llvm.vector.reduce.and", Bi::VecReduce(Op::And)), ("llvm.vector.reduce.xor", Bi::VecReduce(Op::Xor)), ("llvm.vector.reduce.mul", Bi::VecReduce(Op::Mul)),
        ("llvm.vector.reduce.umax", Bi::VecReduceMM(false, true)), ("llvm.vector.reduce.umin", Bi::VecReduceMM(false, false)), ("llvm.vector.reduce.smax", Bi::VecReduceMM(true, true)), ("llvm.vector.reduce.smin", Bi::VecReduceMM(true, false)),
    ];
    for (p, b) in rules { if is(p) { return *b; } }
    Bi::None
}

impl Engine {
    pub fn new(mut m: Module, cfg: Cfg, cx: DomCtx, split: Split) -> Engine {
        // globals
        let mut mem = Mem::new();
        let mut slots = vec![];
        for i in 0..m.globs.len() {
            let (a, b) = m.globs[i].text;
            let t = { let mut lx = Lex::new(&m.text[a..b]); m.ty(&mut lx) };
            let sz = if m.globs[i].external { t.size().max(8) } else { t.size() };
            let slot = mem.reserve_slots(sz);
            m.globs[i].addr = Mem::addr_of(slot);
            m.globs[i].size = sz;
            slots.push(slot);
        }
        for i in 0..m.globs.len() {
            let g = &m.globs[i];
            let mut data = vec![0u8; g.size as usize];
            if !g.external {
                let (a, b) = g.text;
                let mut lx = Lex::new(&m.text[a..b]);
                let t = m.ty(&mut lx);
                let v = m.konst(&mut lx, &t);
                if t.size() > 0 { m.ser(&t, &v, &mut data); }
            }
            let k = if g.constant { Kind::Const } else { Kind::Global };
            mem.place(slots[i], data, k);
        }
        let bi = m.fns.iter().map(|f| classify(&f.name, f.sig.is_some())).collect();
        Engine { split, m: Rc::new(m), ex: Ex::new(), cx, cfg, st: Stats::default(), viol: vec![], samples: vec![], errors: vec![], work: vec![], fn_used: HashSet::new(), bi, base: mem, cover_names: vec![], next_sample: 1 }
    }
    pub fn start(&mut self, name: &str) {
        let id = *self.m.fn_by_name.get(name).unwrap_or_else(|| { eprintln!("no harness {}", name); std::process::exit(3) });
        let f = self.m.func(id);
        self.fn_used.insert(id);
        let fr = Frame { regs: vec![Val::C(0); f.nregs as usize], f, pc: 0, allocas: vec![], dst: None };
        let s = State { frames: vec![fr], mem: self.base.clone(), dom: Dom::new(), inputs: vec![], obs: vec![], undecided: false, steps: 0, forks: 0, covered: vec![] };
        self.work.push(s);
    }
    pub fn trace(&self, s: &State) -> Vec<String> { s.frames.iter().rev().map(|f| f.f.name.clone()).collect() }

    /// True in a new process, which has taken over part of the pending work (and not the current path).
    fn maybe_split(&mut self) -> bool {
        if self.work.is_empty() || self.split.active.load(SeqCst) >= self.split.jobs || self.split.last.elapsed().as_millis() < 15 { return false; }
        if self.split.active.fetch_add(1, SeqCst) >= self.split.jobs { self.split.active.fetch_sub(1, SeqCst); return false; }
        let pid = unsafe { fork() };
        let (mut a, mut b) = (vec![], vec![]);
        for (i, s) in std::mem::take(&mut self.work).into_iter().enumerate() { if i % 2 == 0 { a.push(s) } else { b.push(s) } }
        if pid == 0 {
            self.split.id = self.split.next_id.fetch_add(1, SeqCst);
            self.split.kids.clear();
            self.st = Stats::default(); self.viol.clear(); self.samples.clear(); self.errors.clear(); self.fn_used.clear(); self.next_sample = 1;
            self.cx.fd_queries = 0; self.cx.fd_time = 0.; self.cx.evals = 0; self.cx.smt.disown();
            self.work = a;
        } else if pid > 0 { self.split.kids.push(pid); self.work = b; }
        else { self.split.active.fetch_sub(1, SeqCst); a.extend(b); self.work = a; }
        self.split.last = std::time::Instant::now();
        pid == 0
    }
    /// Runs one state to the end of its path; forked siblings go to self.work.
    pub fn run(&mut self, mut s: State) {
        loop {
            let r = self.exec(&mut s);
            self.st.steps += s.steps; s.steps = 0;
            match r {
                Ok(()) | Err(Stop::Done) => { self.finish(&mut s); return; }
                Err(Stop::Fork(e, vals)) => {
                    self.st.forks += vals.len() as u64 - 1;
                    s.forks += 1;
                    let n = vals.len();
                    let mut it = vals.into_iter();
                    let first = it.next().unwrap();
                    if n > 1 { for v in it { let mut c = s.clone(); self.pin(&mut c, e, v); self.work.push(c); } }
                    self.pin(&mut s, e, first);
                    if self.maybe_split() { return; }
                }
                Err(Stop::Pruned) => { self.st.pruned += 1; return; }
                Err(Stop::Mem(e)) => { self.report(&mut s, "memory", e.0); return; }
                Err(Stop::Panic(p)) => { self.report(&mut s, "panic", p); return; }
                Err(Stop::Bound(b)) => { if self.errors.len() < 20 { let t = self.trace(&s); self.errors.push(format!("{} in {:?}", b, &t[..t.len().min(4)])); } return; }
                Err(Stop::Violate(c, msg)) => {
                    // record violation under NOT c, continue under c
                    let nc = self.ex.not(c);
                    let mut v = s.clone();
                    v.dom.constrain(&mut self.ex, &mut self.cx, nc);
                    self.report(&mut v, "assert", msg);
                    let (t, _) = s.dom.feas(&mut self.ex, &mut self.cx, c, &mut s.undecided);
                    if !t { return; }
                    self.pin(&mut s, c, 1);
                }
            }
            if self.viol.len() >= self.cfg.max_viol { return; }
        }
    }
    fn pin(&mut self, s: &mut State, e: EId, v: u64) {
        let c = self.ex.eqc(e, v);
        s.dom.constrain(&mut self.ex, &mut self.cx, c);
        s.dom.subst.insert(e, v);
        s.dom.subst.insert(c, 1);
    }
    fn report(&mut self, s: &mut State, kind: &str, msg: String) {
        let mut inf = false;
        let vars = s.inputs.clone();
        match s.dom.model(&self.ex, &mut self.cx, &vars, &mut inf) {
            Some(m) => {
                let inputs = vars.iter().map(|v| m[v]).collect();
                let trace = self.trace(s);
                self.viol.push(Violation { kind: kind.into(), msg, inputs, trace });
            }
            None if inf => { self.st.infeasible_dropped += 1; }
            None => { self.errors.push(format!("undecided path condition at a possible {} violation: {}", kind, msg)); }
        }
    }
    fn finish(&mut self, s: &mut State) {
        let vars = s.inputs.clone();
        if s.undecided {
            self.st.undecided += 1;
        }
        self.st.paths += 1;
        self.st.assignments += s.dom.count(&vars);
        if s.forks > self.st.max_forks { self.st.max_forks = s.forks; }
        for c in &s.covered { *self.st.covered.entry(self.cover_names[*c as usize].clone()).or_insert(0) += 1; }
        if self.samples.len() < self.cfg.samples && self.st.paths >= self.next_sample {
            self.next_sample = self.st.paths + 1 + self.st.paths / 4;
            let mut inf = false;
            if let Some(m) = s.dom.model(&self.ex, &mut self.cx, &vars, &mut inf) {
                let mut memo = HashMap::default();
                let obs = s.obs.iter().map(|o| match o { Val::C(v) => *v, Val::S(e) => self.ex.eval(*e, &|v| m.get(&v).copied().unwrap_or(0), &mut memo), _ => 0 }).collect();
                self.samples.push(Sample { inputs: vars.iter().map(|v| m[v]).collect(), obs });
            }
        }
    }

    // ---- value helpers ----
    #[inline]
    fn get(s: &State, o: &Opnd) -> Val { match o { Opnd::R(r) => s.frames[s.frames.len() - 1].regs[*r as usize].clone(), Opnd::K(v) => v.clone() } }
    fn norm(&mut self, s: &mut State, v: Val) -> Val { if let Val::S(e) = v { if let Some(c) = s.dom.quick(&self.ex, e) { return Val::C(c); } } v }
    fn eid(&mut self, v: &Val, w: u8) -> EId { match v { Val::C(c) => self.ex.c(w, *c), Val::S(e) => *e, Val::A(_) => panic!("aggregate as scalar") } }
    fn wrap(&self, e: EId) -> Val { match self.ex.is_c(e) { Some(c) => Val::C(c), None => Val::S(e) } }
    pub fn op(&mut self, s: &mut State, op: Op, w: u8, aw: u8, aux: u32, args: &[Val]) -> Val {
        if let Some(a) = args[0].c() {
            match args.len() {
                1 => return Val::C(ev(op, w, aw, aux, a, 0, 0)),
                2 => if let Some(b) = args[1].c() { return Val::C(ev(op, w, aw, aux, a, b, 0)); },
                _ => if let (Some(b), Some(c)) = (args[1].c(), args[2].c()) { return Val::C(ev(op, w, aw, aux, a, b, c)); },
            }
        }
        let mut n = [0u32; 3];
        for (i, x) in args.iter().enumerate() {
            let x = self.norm(s, x.clone());
            let xw = if op == Op::Ite { if i == 0 { 1 } else { w } } else if op == Op::Concat { if i == 0 { w - aux as u8 } else { aux as u8 } } else if op == Op::FPowi && i == 1 { 32 } else { aw };
            n[i] = self.eid(&x, xw);
        }
        let e = self.ex.mk(op, w, aux, &n[..args.len()]);
        self.wrap(e)
    }
    /// Concrete value, or fork over all feasible values.
    fn conc(&mut self, s: &mut State, v: &Val, what: &str) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if let Some(c) = s.dom.quick(&self.ex, *e) { return Ok(c); }
                match s.dom.values(&mut self.ex, &mut self.cx, *e, self.cfg.max_ptr) {
                    Some(vs) if vs.is_empty() => Err(Stop::Pruned),
                    Some(vs) if vs.len() == 1 => { s.dom.subst.insert(*e, vs[0]); Ok(vs[0]) }
                    Some(vs) => { self.no_undef(s, *e)?; Err(Stop::Fork(*e, vs)) }
                    None => Err(Stop::Bound(format!("too many values for a symbolic {}", what))),
                }
            }
            _ => Err(Stop::Bound(format!("aggregate as {}", what))),
        }
    }
    /// What the program does next may not depend on memory it never initialised. (Where it also depends on an
    /// input, the input is fixed first, so that the dependence on the uninitialised byte is real.)
    fn no_undef(&mut self, s: &mut State, e: EId) -> R<()> {
        let sup = self.ex.support(e);
        if !sup.iter().any(|v| self.ex.vars[*v as usize].undef) { return Ok(()); }
        for v in sup.iter() {
            if self.ex.vars[*v as usize].undef { continue; }
            let n = self.ex.var_node(self.ex.vars[*v as usize].w, *v);
            if s.dom.quick(&self.ex, n).is_some() { continue; }
            match s.dom.values(&mut self.ex, &mut self.cx, n, 256) { Some(vs) if vs.len() > 1 => return Err(Stop::Fork(n, vs)), Some(_) => {} None => return Ok(()) }
        }
        Err(Stop::Mem(MemErr("what happens next depends on uninitialised memory".into())))
    }
    fn cond(&mut self, s: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 != 0),
            Val::S(e) => {
                let e = *e;
                if let Some(c) = s.dom.quick(&self.ex, e) { return Ok(c != 0); }
                let mut und = s.undecided;
                let (t, f) = s.dom.feas(&mut self.ex, &mut self.cx, e, &mut und);
                s.undecided = und;
                match (t, f) {
                    (true, true) => { self.no_undef(s, e)?; Err(Stop::Fork(e, vec![1, 0])) }
                    (true, false) => { s.dom.subst.insert(e, 1); Ok(true) }
                    (false, true) => { s.dom.subst.insert(e, 0); Ok(false) }
                    (false, false) => Err(Stop::Pruned),
                }
            }
            _ => Err(Stop::Bound("aggregate condition".into())),
        }
    }

    // ---- memory ----
    fn load_scalar(&mut self, s: &mut State, addr: u64, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as usize;
        let (slot, off) = s.mem.resolve(addr, n as u64, false)?;
        let o = s.mem.get(slot).unwrap();
        let m = mask(bits as u8);
        if o.st[off..off + n].iter().all(|&x| x == 0) {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return Ok(Val::C(u64::from_le_bytes(b) & m));
        }
        let o = o.clone();
        // whole-expression fast path
        if o.st[off] == 2 {
            let (e0, b0) = o.sym.as_ref().unwrap()[&(off as u32)];
            if b0 == 0 && self.ex.w(e0) as usize == n * 8 && (1..n).all(|i| o.st[off + i] == 2 && o.sym.as_ref().unwrap()[&((off + i) as u32)] == (e0, i as u8)) {
                let e = if bits as usize == n * 8 { e0 } else { self.ex.extract(e0, 0, bits as u8) };
                let v = self.wrap(e);
                return Ok(self.norm(s, v));
            }
        }
        let mut acc: Option<EId> = None;
        let mut uninit: Vec<usize> = vec![];
        for i in 0..n {
            let b = match o.st[off + i] {
                0 => self.ex.c(8, o.data[off + i] as u64),
                2 => { let (e, k) = o.sym.as_ref().unwrap()[&((off + i) as u32)]; self.ex.extract(e, k as u32 * 8, 8) }
                _ => { uninit.push(i); let (e, _) = self.ex.var(8, "uninit".into(), true); e }
            };
            acc = Some(match acc { None => b, Some(a) => self.ex.concat(b, a) });
            if o.st[off + i] == 1 {
                // the value of an uninitialised byte is fixed by this first read
                let om = s.mem.obj_mut(slot);
                om.st[off + i] = 2;
                om.sym.get_or_insert_with(Default::default).insert((off + i) as u32, (b, 0));
            }
        }
        let mut e = acc.unwrap();
        if (bits as usize) < n * 8 { e = self.ex.extract(e, 0, bits as u8); }
        let v = self.wrap(e);
        Ok(self.norm(s, v))
    }
    fn store_scalar(&mut self, s: &mut State, addr: u64, bits: u32, v: &Val) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        let (slot, off) = s.mem.resolve(addr, n as u64, true)?;
        match v {
            Val::C(c) => {
                let o = s.mem.obj_mut(slot);
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if o.sym.is_some() { for i in 0..n { if o.st[off + i] == 2 { o.sym.as_mut().unwrap().remove(&((off + i) as u32)); } } }
                o.st[off..off + n].fill(0);
            }
            Val::S(e) => {
                let mut e = *e;
                if bits as usize != n * 8 { e = self.ex.mk(Op::ZExt, (n * 8) as u8, 0, &[e]); }
                let o = s.mem.obj_mut(slot);
                let m = o.sym.get_or_insert_with(Default::default);
                for i in 0..n { m.insert((off + i) as u32, (e, i as u8)); }
                o.st[off..off + n].fill(2);
            }
            Val::A(_) => return Err(Stop::Bound("store aggregate scalar".into())),
        }
        Ok(())
    }
    fn load_at(&mut self, s: &mut State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(n) if *n > 64 => { let lo = self.load_scalar(s, addr, 64)?; let hi = self.load_scalar(s, addr + 8, n - 64)?; Ok(Val::A(Rc::new(vec![lo, hi]))) }
            Ty::Vec(n, e) => {
                let eb = e.bits();
                if eb % 8 != 0 { // packed bits
                    let tot = n * eb;
                    let v = self.load_scalar(s, addr, tot)?;
                    let mut r = vec![];
                    for i in 0..*n { r.push(self.op(s, Op::Extract, eb as u8, tot as u8, i * eb, &[v.clone()])); }
                    return Ok(Val::A(Rc::new(r)));
                }
                s.mem.resolve(addr, (n * eb / 8) as u64, false)?;
                let mut r = Vec::with_capacity(*n as usize);
                for i in 0..*n { r.push(self.load_scalar(s, addr + (i * eb / 8) as u64, eb)?); }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Arr(..) | Ty::Struct(..) => { let mut r = vec![]; for i in 0..t.nfields() { r.push(self.load_at(s, addr + t.field_off(i), &t.field(i))?); } Ok(Val::A(Rc::new(r))) }
            _ => self.load_scalar(s, addr, t.bits()),
        }
    }
    fn store_at(&mut self, s: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Int(n), Val::A(a)) if *n > 64 => { self.store_scalar(s, addr, 64, &a[0])?; self.store_scalar(s, addr + 8, n - 64, &a[1]) }
            (Ty::Vec(n, e), Val::A(a)) => {
                let eb = e.bits();
                if eb % 8 != 0 { let w = (n * eb) as u8; let x = self.pack(s, a, eb as u8); return self.store_scalar(s, addr, w as u32, &x); }
                s.mem.resolve(addr, (n * eb / 8) as u64, true)?;
                for i in 0..*n { self.store_scalar(s, addr + (i * eb / 8) as u64, eb, &a[i as usize])?; }
                Ok(())
            }
            (Ty::Arr(..) | Ty::Struct(..), Val::A(a)) => { for i in 0..t.nfields() { self.store_at(s, addr + t.field_off(i), &t.field(i), &a[i])?; } Ok(()) }
            _ => self.store_scalar(s, addr, t.bits(), v),
        }
    }
    fn pack(&mut self, s: &mut State, a: &[Val], eb: u8) -> Val {
        let mut acc = a[0].clone(); let mut w = eb;
        for x in &a[1..] { acc = self.op(s, Op::Concat, w + eb, eb, w as u32, &[x.clone(), acc]); w += eb; }
        acc
    }
    fn load(&mut self, s: &mut State, p: &Val, t: &Ty) -> R<Val> {
        let e = match p { Val::C(a) => return self.load_at(s, *a, t), Val::S(e) => *e, _ => return Err(Stop::Bound("aggregate pointer".into())) };
        if let Some(a) = s.dom.quick(&self.ex, e) { return self.load_at(s, a, t); }
        let vals = match s.dom.values(&mut self.ex, &mut self.cx, e, self.cfg.max_ptr) { Some(v) => v, None => return Err(Stop::Bound("unbounded symbolic load address".into())) };
        if vals.is_empty() { return Err(Stop::Pruned); }
        // invalid addresses must be explored separately
        let n = t.size();
        let bad = vals.iter().any(|&a| s.mem.resolve(a, n, false).is_err());
        if bad && vals.len() > 1 { self.no_undef(s, e)?; return Err(Stop::Fork(e, vals)); }
        let mut rs = vec![];
        for &a in &vals { rs.push(self.load_at(s, a, t)?); }
        Ok(self.merge(s, e, &vals, &rs, t))
    }
    fn merge(&mut self, s: &mut State, e: EId, keys: &[u64], rs: &[Val], t: &Ty) -> Val {
        match &rs[0] {
            Val::A(a) => {
                let n = a.len();
                let ft = |i: usize| -> Ty { match t { Ty::Int(b) => Ty::Int(if i == 0 { 64 } else { b - 64 }), _ => t.field(i) } };
                let mut out = vec![];
                for i in 0..n { let col: Vec<Val> = rs.iter().map(|r| if let Val::A(x) = r { x[i].clone() } else { unreachable!() }).collect(); out.push(self.merge(s, e, keys, &col, &ft(i))); }
                Val::A(Rc::new(out))
            }
            _ => {
                let w = t.bits() as u8;
                if rs.iter().all(|r| r.c().is_some()) {
                    let ents: Vec<(u64, u64)> = keys.iter().copied().zip(rs.iter().map(|r| r.c().unwrap())).collect();
                    let x = self.ex.mk_lut(e, ents, w);
                    return self.wrap(x);
                }
                let mut acc = self.eid(&rs[rs.len() - 1], w);
                for i in (0..rs.len() - 1).rev() { let c = self.ex.eqc(e, keys[i]); let v = self.eid(&rs[i], w); acc = self.ex.mk(Op::Ite, w, 0, &[c, v, acc]); }
                self.wrap(acc)
            }
        }
    }
    fn ite(&mut self, s: &mut State, c: &Val, a: &Val, b: &Val, t: &Ty) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let ft = |i: usize| -> Ty { match t { Ty::Int(b) => Ty::Int(if i == 0 { 64 } else { b - 64 }), _ => t.field(i) } };
                let (x, y) = (x.clone(), y.clone());
                let mut o = vec![]; for i in 0..x.len() { o.push(self.ite(s, c, &x[i], &y[i], &ft(i))); } Val::A(Rc::new(o))
            }
            _ => { let w = t.bits() as u8; self.op(s, Op::Ite, w, w, 0, &[c.clone(), a.clone(), b.clone()]) }
        }
    }

    // ---- arithmetic on typed values ----
    fn bin(&mut self, s: &mut State, op: Op, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        match t {
            Ty::Vec(_, e) => { let (x, y) = (agg(a), agg(b)); let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.bin(s, op, e, &x[i], &y[i])?); } Ok(Val::A(Rc::new(r))) }
            Ty::Int(n) if *n > 64 => self.bin128(s, op, *n, a, b),
            _ => { let w = t.bits() as u8; Ok(self.op(s, op, w, w, 0, &[a.clone(), b.clone()])) }
        }
    }
    fn bin128(&mut self, s: &mut State, op: Op, n: u32, a: &Val, b: &Val) -> R<Val> {
        let (x, y) = (agg(a), agg(b));
        let hw = (n - 64) as u8;
        if let (Some(xl), Some(xh), Some(yl), Some(yh)) = (x[0].c(), x[1].c(), y[0].c(), y[1].c()) {
            let p = xl as u128 | (xh as u128) << 64; let q = yl as u128 | (yh as u128) << 64;
            let m = if n >= 128 { !0u128 } else { (1u128 << n) - 1 };
            let r = match op {
                Op::Add => p.wrapping_add(q), Op::Sub => p.wrapping_sub(q), Op::Mul => p.wrapping_mul(q), Op::UDiv => if q == 0 { 0 } else { p / q }, Op::URem => if q == 0 { p } else { p % q },
                Op::And => p & q, Op::Or => p | q, Op::Xor => p ^ q, Op::Shl => if q >= n as u128 { 0 } else { p << q }, Op::LShr => if q >= n as u128 { 0 } else { p >> q },
                Op::AShr => { let sh = 128 - n; let v = ((p << sh) as i128) >> sh; (v >> (q.min(127) as u32)) as u128 }
                _ => return Err(Stop::Bound(format!("i{} {:?}", n, op))),
            } & m;
            return Ok(Val::A(Rc::new(vec![Val::C(r as u64), Val::C((r >> 64) as u64)])));
        }
        match op {
            Op::And | Op::Or | Op::Xor => { let lo = self.op(s, op, 64, 64, 0, &[x[0].clone(), y[0].clone()]); let hi = self.op(s, op, hw, hw, 0, &[x[1].clone(), y[1].clone()]); Ok(Val::A(Rc::new(vec![lo, hi]))) }
            Op::Mul if n == 128 && x[1].c() == Some(0) && y[1].c() == Some(0) => {
                let lo = self.op(s, Op::Mul, 64, 64, 0, &[x[0].clone(), y[0].clone()]); let hi = self.op(s, Op::UMulHi, 64, 64, 0, &[x[0].clone(), y[0].clone()]);
                Ok(Val::A(Rc::new(vec![lo, hi])))
            }
            Op::LShr | Op::Shl if y[0].c().is_some() && n == 128 => {
                let k = y[0].c().unwrap();
                let z = Val::C(0);
                let (lo, hi) = if op == Op::LShr {
                    if k >= 64 { (self.op(s, Op::LShr, 64, 64, 0, &[x[1].clone(), Val::C(k - 64)]), z) }
                    else if k == 0 { (x[0].clone(), x[1].clone()) }
                    else { let a1 = self.op(s, Op::LShr, 64, 64, 0, &[x[0].clone(), Val::C(k)]); let b1 = self.op(s, Op::Shl, 64, 64, 0, &[x[1].clone(), Val::C(64 - k)]); (self.op(s, Op::Or, 64, 64, 0, &[b1, a1]), self.op(s, Op::LShr, 64, 64, 0, &[x[1].clone(), Val::C(k)])) }
                } else if k >= 64 { (z, self.op(s, Op::Shl, 64, 64, 0, &[x[0].clone(), Val::C(k - 64)])) }
                else if k == 0 { (x[0].clone(), x[1].clone()) }
                else { let a1 = self.op(s, Op::Shl, 64, 64, 0, &[x[1].clone(), Val::C(k)]); let b1 = self.op(s, Op::LShr, 64, 64, 0, &[x[0].clone(), Val::C(64 - k)]); (self.op(s, Op::Shl, 64, 64, 0, &[x[0].clone(), Val::C(k)]), self.op(s, Op::Or, 64, 64, 0, &[a1, b1])) };
                Ok(Val::A(Rc::new(vec![lo, hi])))
            }
            Op::Add if n == 128 => {
                let lo = self.op(s, Op::Add, 64, 64, 0, &[x[0].clone(), y[0].clone()]);
                let c = self.op(s, Op::Ult, 1, 64, 0, &[lo.clone(), x[0].clone()]);
                let c = self.op(s, Op::ZExt, 64, 1, 0, &[c]);
                let hi = self.op(s, Op::Add, 64, 64, 0, &[x[1].clone(), y[1].clone()]);
                let hi = self.op(s, Op::Add, 64, 64, 0, &[hi, c]);
                Ok(Val::A(Rc::new(vec![lo, hi])))
            }
            _ => Err(Stop::Bound(format!("symbolic i{} {:?}", n, op))),
        }
    }
    fn icmp(&mut self, s: &mut State, p: u8, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        match t {
            Ty::Vec(_, e) => { let (x, y) = (agg(a), agg(b)); let mut r = Vec::with_capacity(x.len()); for i in 0..x.len() { r.push(self.icmp(s, p, e, &x[i], &y[i])?); } Ok(Val::A(Rc::new(r))) }
            Ty::Int(n) if *n > 64 => {
                let (x, y) = (agg(a), agg(b));
                let el = self.op(s, Op::Eq, 1, 64, 0, &[x[0].clone(), y[0].clone()]);
                let hw = (*n - 64) as u8;
                let eh = self.op(s, Op::Eq, 1, hw, 0, &[x[1].clone(), y[1].clone()]);
                match p {
                    0 | 1 => { let r = self.op(s, Op::And, 1, 1, 0, &[el, eh]); Ok(if p == 1 { self.op(s, Op::Xor, 1, 1, 0, &[r, Val::C(1)]) } else { r }) }
                    _ => {
                        let ht = Ty::Int(*n - 64); let lt = Ty::Int(64);
                        let strict = match p { 2 | 3 => 2, 4 | 5 => 4, 6 | 7 => 6, _ => 8 };
                        let h = self.icmp(s, strict, &ht, &x[1], &y[1])?;
                        let lp = match p { 2 | 6 => 2, 3 | 7 => 3, 4 | 8 => 4, _ => 5 };
                        let l = self.icmp(s, lp, &lt, &x[0], &y[0])?;
                        let r = self.op(s, Op::And, 1, 1, 0, &[eh, l]);
                        Ok(self.op(s, Op::Or, 1, 1, 0, &[h, r]))
                    }
                }
            }
            _ => {
                let w = t.bits() as u8;
                let (op, sw, neg) = match p { 0 => (Op::Eq, false, false), 1 => (Op::Eq, false, true), 2 => (Op::Ult, true, false), 3 => (Op::Ule, true, false), 4 => (Op::Ult, false, false), 5 => (Op::Ule, false, false), 6 => (Op::Slt, true, false), 7 => (Op::Sle, true, false), 8 => (Op::Slt, false, false), _ => (Op::Sle, false, false) };
                let r = if sw { self.op(s, op, 1, w, 0, &[b.clone(), a.clone()]) } else { self.op(s, op, 1, w, 0, &[a.clone(), b.clone()]) };
                Ok(if neg { self.op(s, Op::Xor, 1, 1, 0, &[r, Val::C(1)]) } else { r })
            }
        }
    }
    fn map1(&mut self, s: &mut State, op: Op, t: &Ty, a: &Val) -> Val {
        match t { Ty::Vec(_, e) => { let x = agg(a); let mut r = vec![]; for v in x.iter() { r.push(self.map1(s, op, e, v)); } Val::A(Rc::new(r)) } _ => { let w = t.bits() as u8; self.op(s, op, w, w, 0, &[a.clone()]) } }
    }
    fn cast(&mut self, s: &mut State, k: CastK, t: &Ty, tt: &Ty, a: &Val) -> R<Val> {
        if k == CastK::Bit {
            if !matches!(a, Val::A(_)) && tt.bits() <= 64 && !matches!(tt, Ty::Vec(..)) { return Ok(a.clone()); }
            // flatten to bit pieces, little endian
            let mut pieces: Vec<(Val, u8)> = vec![];
            match (t, a) {
                (Ty::Vec(_, e), Val::A(x)) => for v in x.iter() { pieces.push((v.clone(), e.bits() as u8)); },
                (Ty::Int(n), Val::A(x)) => { pieces.push((x[0].clone(), 64)); pieces.push((x[1].clone(), (*n - 64) as u8)); }
                (_, v) => pieces.push((v.clone(), t.bits() as u8)),
            }
            let targets: Vec<u8> = match tt { Ty::Vec(n, e) => vec![e.bits() as u8; *n as usize], Ty::Int(n) if *n > 64 => vec![64, (*n - 64) as u8], _ => vec![tt.bits() as u8] };
            let mut out = vec![]; let mut pi = 0; let mut used = 0u8;
            for w in targets {
                let mut acc: Option<(Val, u8)> = None;
                let mut need = w;
                while need > 0 {
                    let (v, pw) = pieces[pi].clone();
                    let take = need.min(pw - used);
                    let part = if take == pw { v } else { self.op(s, Op::Extract, take, pw, used as u32, &[v]) };
                    used += take; if used == pw { pi += 1; used = 0; }
                    need -= take;
                    acc = Some(match acc { None => (part, take), Some((lo, lw)) => (self.op(s, Op::Concat, lw + take, take, lw as u32, &[part, lo]), lw + take) });
                }
                out.push(acc.unwrap().0);
            }
            return Ok(match tt { Ty::Vec(..) => Val::A(Rc::new(out)), Ty::Int(n) if *n > 64 => Val::A(Rc::new(out)), _ => out.pop().unwrap() });
        }
        if let (Ty::Vec(_, e), Ty::Vec(_, te)) = (t, tt) { let x = agg(a); let mut r = vec![]; for v in x.iter() { r.push(self.cast(s, k, e, te, v)?); } return Ok(Val::A(Rc::new(r))); }
        let (w, tw) = (t.bits(), tt.bits());
        if w > 64 || tw > 64 {
            return match k {
                CastK::ZExt => { if w > 64 { return Ok(a.clone()); } let lo = self.op(s, Op::ZExt, 64, w as u8, 0, &[a.clone()]); Ok(Val::A(Rc::new(vec![lo, Val::C(0)]))) }
                CastK::SExt => { let lo = self.op(s, Op::SExt, 64, w as u8, 0, &[a.clone()]); let hi = self.op(s, Op::AShr, 64, 64, 0, &[lo.clone(), Val::C(63)]); let hi = if tw < 128 { self.op(s, Op::Extract, (tw - 64) as u8, 64, 0, &[hi]) } else { hi }; Ok(Val::A(Rc::new(vec![lo, hi]))) }
                CastK::Trunc => { let x = agg(a); if tw <= 64 { if tw == 64 { Ok(x[0].clone()) } else { Ok(self.op(s, Op::Extract, tw as u8, 64, 0, &[x[0].clone()])) } } else { let hi = self.op(s, Op::Extract, (tw - 64) as u8, (w - 64) as u8, 0, &[x[1].clone()]); Ok(Val::A(Rc::new(vec![x[0].clone(), hi]))) } }
                CastK::UIToFP => { let x = agg(a); if let (Some(l), Some(h)) = (x[0].c(), x[1].c()) { let v = l as u128 | (h as u128) << 64; return Ok(Val::C(if tw == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() })); } Err(Stop::Bound("i128 to fp".into())) }
                _ => Err(Stop::Bound(format!("cast {:?} {:?}->{:?}", k, t, tt))),
            };
        }
        let (w, tw) = (w as u8, tw as u8);
        Ok(match k {
            CastK::ZExt => self.op(s, Op::ZExt, tw, w, 0, &[a.clone()]),
            CastK::SExt => self.op(s, Op::SExt, tw, w, 0, &[a.clone()]),
            CastK::Trunc => self.op(s, Op::Extract, tw, w, 0, &[a.clone()]),
            CastK::PtrInt => if tw == w { a.clone() } else if tw < w { self.op(s, Op::Extract, tw, w, 0, &[a.clone()]) } else { self.op(s, Op::ZExt, tw, w, 0, &[a.clone()]) },
            CastK::FPExt => self.op(s, Op::FPExt, tw, w, 0, &[a.clone()]),
            CastK::FPTrunc => self.op(s, Op::FPTrunc, tw, w, 0, &[a.clone()]),
            CastK::UIToFP => self.op(s, Op::UIToFP, tw, w, 0, &[a.clone()]),
            CastK::SIToFP => self.op(s, Op::SIToFP, tw, w, 0, &[a.clone()]),
            CastK::FPToUI => self.op(s, Op::FPToUI, tw, w, 0, &[a.clone()]),
            CastK::FPToSI => self.op(s, Op::FPToSI, tw, w, 0, &[a.clone()]),
            CastK::Bit => unreachable!(),
        })
    }

    fn jump(s: &mut State, e: &Edge) {
        let fr = s.frames.last_mut().unwrap();
        match e.phis.len() {
            0 => {}
            1 => { let (d, o) = &e.phis[0]; let v = match o { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() }; fr.regs[*d as usize] = v; }
            _ => { let vs: Vec<Val> = e.phis.iter().map(|(_, o)| match o { Opnd::R(r) => fr.regs[*r as usize].clone(), Opnd::K(v) => v.clone() }).collect(); for ((d, _), v) in e.phis.iter().zip(vs) { fr.regs[*d as usize] = v; } }
        }
        fr.pc = e.pc;
    }

    fn exec(&mut self, s: &mut State) -> R<()> {
        loop {
            let f = s.frames.last().unwrap().f.clone();
            let depth = s.frames.len();
            // run within this frame until call/ret changes it
            while s.frames.len() == depth {
                let pc = s.frames[depth - 1].pc as usize;
                s.steps += 1;
                if s.steps & 0xfffff == 0 {
                    if std::time::Instant::now() > self.cfg.deadline { return Err(Stop::Bound("time budget exhausted".into())); }
                    if s.steps > self.cfg.max_steps { return Err(Stop::Bound("step bound per segment exhausted".into())); }
                }
                macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = &mut s.frames[depth - 1]; fr.regs[$d as usize] = v; fr.pc += 1; }} }
                match &f.code[pc] {
                    Inst::Bin(op, d, t, a, b) => {
                        let x = Self::get(s, a); let y = Self::get(s, b);
                        let v = match (&x, &y) { (Val::C(p), Val::C(q)) => { let w = t.bits() as u8; Val::C(ev(*op, w, w, 0, *p, *q, 0)) } _ => self.bin(s, *op, t, &x, &y)? };
                        set!(*d, v);
                    }
                    Inst::Cmp(p, d, t, a, b) => {
                        let x = Self::get(s, a); let y = Self::get(s, b);
                        let v = match (&x, &y) {
                            (Val::C(m), Val::C(n)) => { let w = t.bits() as u8; let (m, n) = (*m, *n); Val::C(match p { 0 => m == n, 1 => m != n, 2 => m > n, 3 => m >= n, 4 => m < n, 5 => m <= n, 6 => sx(m, w) > sx(n, w), 7 => sx(m, w) >= sx(n, w), 8 => sx(m, w) < sx(n, w), _ => sx(m, w) <= sx(n, w) } as u64) }
                            _ => self.icmp(s, *p, t, &x, &y)?,
                        };
                        set!(*d, v);
                    }
                    Inst::FCmp(p, d, t, a, b) => {
                        let x = Self::get(s, a); let y = Self::get(s, b);
                        let v = match t { Ty::Vec(_, e) => { let (x, y) = (agg(&x), agg(&y)); let w = e.bits() as u8; let mut r = vec![]; for i in 0..x.len() { r.push(self.op(s, Op::FCmp, 1, w, *p, &[x[i].clone(), y[i].clone()])); } Val::A(Rc::new(r)) } _ => { let w = t.bits() as u8; self.op(s, Op::FCmp, 1, w, *p, &[x, y]) } };
                        set!(*d, v);
                    }
                    Inst::FNeg(d, t, a) => {
                        let x = Self::get(s, a);
                        let v = match t { Ty::Vec(_, e) => { let w = e.bits() as u8; let x = agg(&x); let mut r = vec![]; for q in x.iter() { r.push(self.op(s, Op::Xor, w, w, 0, &[q.clone(), Val::C(1 << (w - 1))])); } Val::A(Rc::new(r)) } _ => { let w = t.bits() as u8; self.op(s, Op::Xor, w, w, 0, &[x, Val::C(1 << (w - 1))]) } };
                        set!(*d, v);
                    }
                    Inst::Cast(k, d, t, tt, a) => { let x = Self::get(s, a); let v = self.cast(s, *k, t, tt, &x)?; set!(*d, v); }
                    Inst::Select(d, t, vc, c, a, b) => {
                        let cv = Self::get(s, c);
                        let v = if *vc {
                            let (cs, x, y) = (agg(&cv), agg(&Self::get(s, a)), agg(&Self::get(s, b)));
                            let et = t.field(0);
                            let mut r = vec![]; for i in 0..cs.len() { r.push(self.ite(s, &cs[i], &x[i], &y[i], &et)); } Val::A(Rc::new(r))
                        } else {
                            let cv = self.norm(s, cv);
                            match cv { Val::C(k) => if k & 1 != 0 { Self::get(s, a) } else { Self::get(s, b) }, _ => { let (x, y) = (Self::get(s, a), Self::get(s, b)); self.ite(s, &cv, &x, &y, t) } }
                        };
                        set!(*d, v);
                    }
                    Inst::Load(d, t, p) => { let pv = Self::get(s, p); let v = self.load(s, &pv, t)?; set!(*d, v); }
                    Inst::Store(t, v, p) => {
                        let pv = Self::get(s, p);
                        let a = self.conc(s, &pv, "store address")?;
                        let v = Self::get(s, v);
                        self.store_at(s, a, t, &v)?;
                        s.frames[depth - 1].pc += 1;
                    }
                    Inst::Gep(d, b, off, dynv) => {
                        let mut v = Self::get(s, b);
                        if *off != 0 { v = match v { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), o => self.op(s, Op::Add, 64, 64, 0, &[o, Val::C(*off as u64)]) }; }
                        for (o, sc, w) in dynv {
                            let i = Self::get(s, o);
                            v = match (&v, &i) {
                                (Val::C(x), Val::C(k)) => Val::C(x.wrapping_add((sx(*k, *w as u8).wrapping_mul(*sc)) as u64)),
                                _ => { let i = self.op(s, Op::SExt, 64, *w as u8, 0, &[i]); let i = self.op(s, Op::Mul, 64, 64, 0, &[i, Val::C(*sc as u64)]); self.op(s, Op::Add, 64, 64, 0, &[v, i]) }
                            };
                        }
                        set!(*d, v);
                    }
                    Inst::Alloca(d, sz, cnt) => {
                        let n = match cnt { None => 1, Some((o, _)) => { let v = Self::get(s, o); self.conc(s, &v, "alloca size")? } };
                        let a = s.mem.alloc(sz * n, Kind::Stack, false);
                        s.frames[depth - 1].allocas.push(a);
                        set!(*d, Val::C(a));
                    }
                    Inst::Br(e) => Self::jump(s, e),
                    Inst::CondBr(c, a, b) => {
                        let cv = Self::get(s, c);
                        let t = match cv { Val::C(k) => k & 1 != 0, _ => self.cond(s, &cv)? };
                        Self::jump(s, if t { a } else { b });
                    }
                    Inst::Switch(c, _w, d, cs) => {
                        let cv = Self::get(s, c);
                        let k = match self.norm(s, cv) {
                            Val::C(k) => k,
                            Val::S(e) => {
                                // fork on cases, the default last
                                let mut rest = None;
                                for (v, ed) in cs {
                                    let q = self.ex.eqc(e, *v);
                                    if self.cond(s, &Val::S(q).simp(&self.ex))? { rest = Some(ed); break; }
                                }
                                match rest { Some(ed) => Self::jump(s, ed), None => Self::jump(s, d) }
                                continue;
                            }
                            _ => return Err(Stop::Bound("switch".into())),
                        };
                        let e = cs.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(d);
                        Self::jump(s, e);
                    }
                    Inst::Ret(o) => {
                        let v = o.as_ref().map(|o| Self::get(s, o));
                        let fr = s.frames.pop().unwrap();
                        for a in fr.allocas { s.mem.free_stack(a); }
                        if s.frames.is_empty() { return Ok(()); }
                        let n = s.frames.len();
                        // caller is at the call instruction
                        let caller = s.frames[n - 1].f.clone();
                        let cpc = s.frames[n - 1].pc as usize;
                        if let (Some(d), Some(v)) = (fr.dst, v) { s.frames[n - 1].regs[d as usize] = v; }
                        if let Inst::Call { normal: Some(e), .. } = &caller.code[cpc] { Self::jump(s, e); } else { s.frames[n - 1].pc += 1; }
                    }
                    Inst::Unreachable => return Err(Stop::Panic("reached code the compiler assumes unreachable (undefined behaviour)".into())),
                    Inst::Fence => { s.frames[depth - 1].pc += 1; }
                    Inst::Freeze(d, a) => { let v = Self::get(s, a); set!(*d, v); }
                    Inst::ExtractValue(d, a, ix) => { let mut v = Self::get(s, a); for i in ix { v = agg(&v)[*i as usize].clone(); } set!(*d, v); }
                    Inst::InsertValue(d, _t, a, e, ix) => { let v = Self::get(s, a); let e = Self::get(s, e); let v = insert(&v, &e, ix); set!(*d, v); }
                    Inst::ExtractElement(d, a, i) => { let v = agg(&Self::get(s, a)); let iv = Self::get(s, i); let k = self.conc(s, &iv, "vector index")?; set!(*d, v[k as usize].clone()); }
                    Inst::InsertElement(d, _t, a, e, i) => { let v = agg(&Self::get(s, a)); let e = Self::get(s, e); let iv = Self::get(s, i); let k = self.conc(s, &iv, "vector index")?; let mut n = (*v).clone(); n[k as usize] = e; set!(*d, Val::A(Rc::new(n))); }
                    Inst::Shuffle(d, _t, a, b, mk) => { let (x, y) = (agg(&Self::get(s, a)), agg(&Self::get(s, b))); let n = x.len(); let r: Vec<Val> = mk.iter().map(|&i| { let i = i as usize; if i < n { x[i].clone() } else if i < 2 * n { y[i - n].clone() } else { Val::C(0) } }).collect(); set!(*d, Val::A(Rc::new(r))); }
                    Inst::AtomicRmw(d, k, t, p, v) => {
                        let pv = Self::get(s, p); let a = self.conc(s, &pv, "atomic address")?; let x = Self::get(s, v);
                        let old = self.load_at(s, a, t)?; let w = t.bits() as u8;
                        let nv = match k.as_str() {
                            "xchg" => x, "add" => self.op(s, Op::Add, w, w, 0, &[old.clone(), x]), "sub" => self.op(s, Op::Sub, w, w, 0, &[old.clone(), x]), "and" => self.op(s, Op::And, w, w, 0, &[old.clone(), x]), "or" => self.op(s, Op::Or, w, w, 0, &[old.clone(), x]), "xor" => self.op(s, Op::Xor, w, w, 0, &[old.clone(), x]),
                            "umax" => { let c = self.op(s, Op::Ult, 1, w, 0, &[old.clone(), x.clone()]); self.op(s, Op::Ite, w, w, 0, &[c, x, old.clone()]) }
                            "umin" => { let c = self.op(s, Op::Ult, 1, w, 0, &[x.clone(), old.clone()]); self.op(s, Op::Ite, w, w, 0, &[c, x, old.clone()]) }
                            _ => return Err(Stop::Bound(format!("atomicrmw {}", k))),
                        };
                        self.store_at(s, a, t, &nv)?;
                        set!(*d, old);
                    }
                    Inst::CmpXchg(d, t, p, c, n) => {
                        let pv = Self::get(s, p); let a = self.conc(s, &pv, "atomic address")?;
                        let old = self.load_at(s, a, t)?; let cv = Self::get(s, c); let nv = Self::get(s, n);
                        let eq = self.icmp(s, 0, t, &old, &cv)?;
                        let ok = self.cond(s, &eq)?;
                        if ok { self.store_at(s, a, t, &nv)?; }
                        set!(*d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
                    }
                    Inst::Bad(l) => return Err(Stop::Bound(format!("unsupported instruction: {}", l))),
                    Inst::Call { dst, ty, callee, args, normal } => {
                        let id = match callee {
                            Callee::Direct(i) => *i,
                            Callee::Indirect(o) => {
                                let v = Self::get(s, o); let a = self.conc(s, &v, "function pointer")?;
                                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 { return Err(Stop::Mem(MemErr(format!("call through invalid function pointer {:#x}", a)))); }
                                ((a - FN_BASE) / 16) as u32
                            }
                        };
                        let b = self.bi[id as usize];
                        if b == Bi::None {
                            if self.m.fns[id as usize].sig.is_none() { return Err(Stop::Bound(format!("call to unmodelled external function {}", self.m.fns[id as usize].name))); }
                            let g = self.m.func(id);
                            if s.frames.len() > 2000 { return Err(Stop::Bound("call depth".into())); }
                            self.fn_used.insert(id);
                            let mut regs = vec![Val::C(0); g.nregs as usize];
                            for (i, (_, o)) in args.iter().enumerate() { if i < g.nargs as usize { regs[i] = Self::get(s, o); } }
                            s.frames.push(Frame { f: g, pc: 0, regs, allocas: vec![], dst: *dst });
                        } else {
                            let av: Vec<Val> = args.iter().map(|(_, o)| Self::get(s, o)).collect();
                            let r = self.builtin(s, b, id, ty, args, &av)?;
                            let fr = &mut s.frames[depth - 1];
                            if let Some(d) = dst { fr.regs[*d as usize] = r; }
                            match normal { Some(e) => Self::jump(s, e), None => s.frames[depth - 1].pc += 1 }
                        }
                    }
                }
            }
        }
    }

    fn cstr(&self, s: &State, p: &Val, n: &Val) -> String { match (p, n) { (Val::C(p), Val::C(n)) => s.mem.bytes(*p, *n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default(), _ => String::new() } }

    fn builtin(&mut self, s: &mut State, b: Bi, id: u32, ty: &Ty, args: &[(Ty, Opnd)], av: &[Val]) -> R<Val> {
        let z = Val::C(0);
        Ok(match b {
            Bi::None => unreachable!(),
            Bi::Ignore => z,
            Bi::Panic => {
                let name = self.m.fns[id as usize].name.clone();
                let mut msg = String::new();
                if av.len() >= 2 { msg = self.cstr(s, &av[0], &av[1]); }
                return Err(Stop::Panic(format!("panic: {} {:?}", name, msg.chars().take(120).collect::<String>())));
            }
            Bi::Abort | Bi::Trap => return Err(Stop::Panic("abort".into())),
            Bi::FormatInner => { // returns String by sret: an empty string
                let p = self.conc(s, &av[0], "sret")?;
                for (o, v) in [(0u64, 0u64), (8, 1), (16, 0)] { self.store_scalar(s, p + o, 64, &Val::C(v))?; }
                z
            }
            Bi::RetZero => self.m.zero(ty),
            Bi::Write => av[2].clone(),
            Bi::IsConst => z,
            Bi::Ident | Bi::Expect => av[0].clone(),
            Bi::Memcpy | Bi::Memmove => {
                let n = self.conc(s, &av[2], "copy length")?;
                if n == 0 { return Ok(av[0].clone()); }
                let d = self.conc(s, &av[0], "copy destination")?; let p = self.conc(s, &av[1], "copy source")?;
                s.mem.copy(d, p, n)?;
                av[0].clone()
            }
            Bi::Memset => {
                let n = self.conc(s, &av[2], "fill length")?;
                if n == 0 { return Ok(av[0].clone()); }
                let d = self.conc(s, &av[0], "fill destination")?;
                let v = self.norm(s, av[1].clone());
                let byte = match v { Val::C(c) => Ok(c as u8), Val::S(e) => { let w = self.ex.w(e); Err(if w > 8 { self.ex.extract(e, 0, 8) } else { e }) } _ => return Err(Stop::Bound("memset".into())) };
                s.mem.fill(d, n, byte)?;
                av[0].clone()
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc(s, &av[2], "compare length")?;
                if n == 0 { return Ok(z); }
                let a = self.conc(s, &av[0], "compare address")?; let c = self.conc(s, &av[1], "compare address")?;
                s.mem.resolve(a, n, false)?; s.mem.resolve(c, n, false)?;
                let mut xs = vec![];
                for i in 0..n { xs.push((self.load_scalar(s, a + i, 8)?, self.load_scalar(s, c + i, 8)?)); }
                let mut acc = z;
                for (x, y) in xs.into_iter().rev() {
                    let eq = self.op(s, Op::Eq, 1, 8, 0, &[x.clone(), y.clone()]);
                    let dv = if b == Bi::Bcmp { Val::C(1) } else { let lt = self.op(s, Op::Ult, 1, 8, 0, &[x, y]); self.op(s, Op::Ite, 32, 32, 0, &[lt, Val::C(0xffff_ffff), Val::C(1)]) };
                    acc = self.op(s, Op::Ite, 32, 32, 0, &[eq, acc, dv]);
                }
                acc
            }
            Bi::Strlen => { let p = self.conc(s, &av[0], "strlen")?; let mut i = 0; loop { let v = self.load_scalar(s, p + i, 8)?; let c = self.op(s, Op::Eq, 1, 8, 0, &[v, Val::C(0)]); if self.cond(s, &c)? { break; } i += 1; } Val::C(i) }
            Bi::Malloc | Bi::Calloc | Bi::AlignedAlloc => {
                let n = match b { Bi::Malloc => self.conc(s, &av[0], "allocation size")?, Bi::AlignedAlloc => self.conc(s, &av[1], "allocation size")?, _ => { let x = self.conc(s, &av[0], "allocation size")?; let y = self.conc(s, &av[1], "allocation size")?; x.checked_mul(y).unwrap_or(u64::MAX) } };
                if n > 1 << 26 { return Ok(Val::C(0)); }
                Val::C(s.mem.alloc(n, Kind::Heap, b == Bi::Calloc))
            }
            Bi::PosixMemalign => {
                let p = self.conc(s, &av[0], "memalign out")?; let n = self.conc(s, &av[2], "allocation size")?;
                if n > 1 << 26 { return Ok(Val::C(12)); }
                let a = s.mem.alloc(n, Kind::Heap, false);
                self.store_scalar(s, p, 64, &Val::C(a))?;
                z
            }
            Bi::Realloc => {
                let p = self.conc(s, &av[0], "realloc")?; let n = self.conc(s, &av[1], "allocation size")?;
                if n > 1 << 26 { return Ok(Val::C(0)); }
                if p == 0 { return Ok(Val::C(s.mem.alloc(n, Kind::Heap, false))); }
                let old = match s.mem.block_size(p) { Some(o) => o, None => return Err(Stop::Mem(MemErr(format!("realloc of invalid pointer {:#x}", p)))) };
                let q = s.mem.alloc(n, Kind::Heap, false);
                s.mem.copy(q, p, old.min(n))?;
                s.mem.free_heap(p)?;
                Val::C(q)
            }
            Bi::Free => { let p = self.conc(s, &av[0], "free")?; if p != 0 { s.mem.free_heap(p)?; } z }
            Bi::Min(sg, mx) => self.minmax(s, sg, mx, &args[0].0, &av[0], &av[1])?,
            Bi::SatAdd(sg) | Bi::SatSub(sg) => {
                let add = matches!(b, Bi::SatAdd(_));
                let t = args[0].0.clone();
                self.zip(s, &t, &av[0], &av[1], &mut |e, s, w, x, y| {
                    let r = e.op(s, if add { Op::Add } else { Op::Sub }, w, w, 0, &[x.clone(), y.clone()]);
                    if !sg {
                        if add { let c = e.op(s, Op::Ult, 1, w, 0, &[r.clone(), x.clone()]); e.op(s, Op::Ite, w, w, 0, &[c, Val::C(mask(w)), r]) }
                        else { let c = e.op(s, Op::Ult, 1, w, 0, &[x.clone(), y.clone()]); e.op(s, Op::Ite, w, w, 0, &[c, Val::C(0), r]) }
                    } else {
                        let o = e.sovf(s, if add { 0 } else { 1 }, w, x, y, &r);
                        let neg = e.op(s, Op::Slt, 1, w, 0, &[x.clone(), Val::C(0)]);
                        let sat = e.op(s, Op::Ite, w, w, 0, &[neg, Val::C(1 << (w - 1)), Val::C(mask(w) >> 1)]);
                        e.op(s, Op::Ite, w, w, 0, &[o, sat, r])
                    }
                })
            }
            Bi::Ovf(k, sg) => {
                let w = args[0].0.bits();
                if w > 64 {
                    let op = [Op::Add, Op::Sub, Op::Mul][k as usize];
                    let (x, y) = (agg(&av[0]), agg(&av[1]));
                    if let (Some(xl), Some(xh), Some(yl), Some(yh)) = (x[0].c(), x[1].c(), y[0].c(), y[1].c()) {
                        let p = xl as u128 | (xh as u128) << 64; let q = yl as u128 | (yh as u128) << 64;
                        let o = match (k, sg) { (0, false) => p.overflowing_add(q).1, (1, false) => p.overflowing_sub(q).1, (2, false) => p.overflowing_mul(q).1, (0, true) => (p as i128).overflowing_add(q as i128).1, (1, true) => (p as i128).overflowing_sub(q as i128).1, _ => (p as i128).overflowing_mul(q as i128).1 };
                        let r = self.bin128(s, op, 128, &av[0], &av[1])?;
                        return Ok(Val::A(Rc::new(vec![r, Val::C(o as u64)])));
                    }
                    return Err(Stop::Bound("i128 overflow op".into()));
                }
                let w = w as u8;
                let op = [Op::Add, Op::Sub, Op::Mul][k as usize];
                let r = self.op(s, op, w, w, 0, &[av[0].clone(), av[1].clone()]);
                let o = if sg { self.sovf(s, k, w, &av[0], &av[1], &r) } else {
                    match k {
                        0 => self.op(s, Op::Ult, 1, w, 0, &[r.clone(), av[0].clone()]),
                        1 => self.op(s, Op::Ult, 1, w, 0, &[av[0].clone(), av[1].clone()]),
                        _ => { let h = self.op(s, Op::UMulHi, w, w, 0, &[av[0].clone(), av[1].clone()]); let e = self.op(s, Op::Eq, 1, w, 0, &[h, Val::C(0)]); self.op(s, Op::Xor, 1, 1, 0, &[e, Val::C(1)]) }
                    }
                };
                Val::A(Rc::new(vec![r, o]))
            }
            Bi::Un(op) => { let t = args[0].0.clone(); if t.bits() > 64 && !matches!(t, Ty::Vec(..)) { return self.un128(s, op, &av[0]); } self.map1(s, op, &t, &av[0]) }
            Bi::BinF(op) => { let t = args[0].0.clone(); self.zip(s, &t, &av[0], &av[1], &mut |e, s, w, x, y| e.op(s, op, w, w, 0, &[x.clone(), y.clone()])) }
            Bi::SseMax => self.zip(s, &args[0].0.clone(), &av[0], &av[1], &mut |e, s, w, x, y| e.op(s, Op::SseMax, w, w, 0, &[x.clone(), y.clone()])),
            Bi::SseMin => self.zip(s, &args[0].0.clone(), &av[0], &av[1], &mut |e, s, w, x, y| e.op(s, Op::SseMin, w, w, 0, &[x.clone(), y.clone()])),
            Bi::SseMovmsk => { let v = agg(&av[0]); let mut bits = vec![]; for x in v.iter() { bits.push(self.op(s, Op::Extract, 1, 8, 7, &[x.clone()])); } let p = self.pack(s, &bits, 1); self.op(s, Op::ZExt, 32, 16, 0, &[p]) }
            Bi::Fabs => { let t = args[0].0.clone(); self.zip(s, &t, &av[0], &av[0], &mut |e, s, w, x, _| e.op(s, Op::And, w, w, 0, &[x.clone(), Val::C(mask(w) >> 1)])) }
            Bi::Fma => { let w = args[0].0.bits() as u8; if let Ty::Vec(_, e) = &args[0].0 { let w = e.bits() as u8; let (x, y, q) = (agg(&av[0]), agg(&av[1]), agg(&av[2])); let mut r = vec![]; for i in 0..x.len() { r.push(self.op(s, Op::FMA, w, w, 0, &[x[i].clone(), y[i].clone(), q[i].clone()])); } Val::A(Rc::new(r)) } else { self.op(s, Op::FMA, w, w, 0, av) } }
            Bi::Powi => { let w = args[0].0.bits() as u8; self.op(s, Op::FPowi, w, w, 0, &av[..2]) }
            Bi::FpSat(op) => { match (&args[0].0, ty) { (Ty::Vec(_, e), Ty::Vec(_, te)) => { let (w, tw) = (e.bits() as u8, te.bits() as u8); let x = agg(&av[0]); let mut r = vec![]; for v in x.iter() { r.push(self.op(s, op, tw, w, 0, &[v.clone()])); } Val::A(Rc::new(r)) } (t, tt) => { let (w, tw) = (t.bits() as u8, tt.bits() as u8); self.op(s, op, tw, w, 0, &av[..1]) } } }
            Bi::Cmp3(sg) => { let w = args[0].0.bits() as u8; let tw = ty.bits() as u8; let lt = self.op(s, if sg { Op::Slt } else { Op::Ult }, 1, w, 0, av); let eq = self.op(s, Op::Eq, 1, w, 0, av); let r = self.op(s, Op::Ite, tw, tw, 0, &[eq, Val::C(0), Val::C(1)]); self.op(s, Op::Ite, tw, tw, 0, &[lt, Val::C(mask(tw)), r]) }
            Bi::Fsh(left) => {
                let w = args[0].0.bits();
                if w > 64 || matches!(args[0].0, Ty::Vec(..)) { return Err(Stop::Bound("fsh".into())); }
                let w = w as u8;
                let k = self.op(s, Op::URem, w, w, 0, &[av[2].clone(), Val::C(w as u64)]);
                let inv = self.op(s, Op::Sub, w, w, 0, &[Val::C(w as u64), k.clone()]);
                let (a, c) = if left { (self.op(s, Op::Shl, w, w, 0, &[av[0].clone(), k]), self.op(s, Op::LShr, w, w, 0, &[av[1].clone(), inv])) } else { (self.op(s, Op::Shl, w, w, 0, &[av[0].clone(), inv]), self.op(s, Op::LShr, w, w, 0, &[av[1].clone(), k])) };
                self.op(s, Op::Or, w, w, 0, &[a, c])
            }
            Bi::Abs => { let t = args[0].0.clone(); self.zip(s, &t, &av[0], &av[0], &mut |e, s, w, x, _| { let n = e.op(s, Op::Sub, w, w, 0, &[Val::C(0), x.clone()]); let c = e.op(s, Op::Slt, 1, w, 0, &[x.clone(), Val::C(0)]); e.op(s, Op::Ite, w, w, 0, &[c, n, x.clone()]) }) }
            Bi::LoadRel => { let p = self.conc(s, &av[0], "load.relative")?; let o = self.conc(s, &av[1], "load.relative")?; let v = self.load_scalar(s, p.wrapping_add(o), 32)?; let v = self.conc(s, &v, "rel")?; Val::C(p.wrapping_add(sx(v, 32) as u64)) }
            Bi::VecReduce(op) => { let t = args[0].0.field(0); let w = t.bits() as u8; let v = agg(&av[0]); let mut a = v[0].clone(); for x in &v[1..] { a = self.op(s, op, w, w, 0, &[a, x.clone()]); } a }
            Bi::VecReduceF(op) => { let w = args[0].0.bits() as u8; let mut a = av[0].clone(); for x in agg(&av[1]).iter() { a = self.op(s, op, w, w, 0, &[a, x.clone()]); } a }
            Bi::FpClass => {
                let k = self.conc(s, &av[1], "fpclass mask")?;
                let t = args[0].0.clone();
                let one = |e: &mut Self, s: &mut State, w: u8, x: &Val| -> Val {
                    let mb = if w == 32 { 23u32 } else { 52 };
                    let inf = (mask(w) >> 1) & !((1u64 << mb) - 1);
                    let a = e.op(s, Op::And, w, w, 0, &[x.clone(), Val::C(mask(w) >> 1)]);
                    let neg = e.op(s, Op::Slt, 1, w, 0, &[x.clone(), Val::C(0)]);
                    // classes of |x| as half-open ranges [lo, hi)
                    let q = inf | (1 << (mb - 1));
                    let rs = [(0u64, 1u64, 5u32, 6u32), (1, 1 << mb, 4, 7), (1 << mb, inf, 3, 8), (inf, inf + 1, 2, 9), (inf + 1, q, 0, 0), (q, mask(w) >> 1, 1, 1)];
                    let mut r = Val::C(0);
                    for (lo, hi, nb, pb) in rs {
                        let (n, p) = (k >> nb & 1, k >> pb & 1);
                        if n == 0 && p == 0 { continue; }
                        let ge = e.op(s, Op::Ult, 1, w, 0, &[a.clone(), Val::C(lo)]);
                        let ge = e.op(s, Op::Xor, 1, 1, 0, &[ge, Val::C(1)]);
                        let lt = if nb == 1 { Val::C(1) } else { e.op(s, Op::Ult, 1, w, 0, &[a.clone(), Val::C(hi)]) };
                        let mut c = e.op(s, Op::And, 1, 1, 0, &[ge, lt]);
                        if n != p { let sg = if n == 1 { neg.clone() } else { e.op(s, Op::Xor, 1, 1, 0, &[neg.clone(), Val::C(1)]) }; c = e.op(s, Op::And, 1, 1, 0, &[c, sg]); }
                        r = e.op(s, Op::Or, 1, 1, 0, &[r, c]);
                    }
                    r
                };
                if let Ty::Vec(_, el) = &t { let w = el.bits() as u8; let mut r = vec![]; for x in agg(&av[0]).iter() { r.push(one(self, s, w, x)); } Val::A(Rc::new(r)) } else { one(self, s, t.bits() as u8, &av[0]) }
            }
            Bi::VecReduceMM(sg, mx) => { let t = args[0].0.field(0); let v = agg(&av[0]); let mut a = v[0].clone(); for x in &v[1..] { a = self.minmax(s, sg, mx, &t, &a, x)?; } a }
            // ---- harness interface ----
            Bi::SymBits => {
                let w = self.conc(s, &av[0], "width")? as u8;
                let name = self.cstr(s, &av[1], &av[2]);
                let k = s.inputs.len();
                // the k-th input of a path: reuse the variable when the same name/width was created at this position
                let (e, v) = self.input(k, w, name);
                s.inputs.push(v);
                let r = self.ex.mk(Op::ZExt, 64, 0, &[e]);
                self.wrap(r)
            }
            Bi::SymAssume => {
                let c = self.low1(s, &av[0], &args[0].0);
                match self.norm(s, c) {
                    Val::C(k) => if k == 0 { return Err(Stop::Pruned); },
                    Val::S(e) => { let mut u = s.undecided; let (t, f) = s.dom.feas(&mut self.ex, &mut self.cx, e, &mut u); s.undecided = u; if !t { return Err(Stop::Pruned); } if f { self.pin(s, e, 1); } }
                    _ => {}
                }
                z
            }
            Bi::SymAssert => {
                let c = self.low1(s, &av[0], &args[0].0);
                let msg = self.cstr(s, &av[1], &av[2]);
                match self.norm(s, c) {
                    Val::C(k) => { self.count_assert(&msg); if k == 0 { let t = self.ex.c(1, 0); let _ = t; return Err(Stop::Panic(format!("assert: {}", msg))); } self.st.discharged_const += 1; }
                    Val::S(e) => {
                        let mut u = s.undecided;
                        let (_t, f) = s.dom.feas(&mut self.ex, &mut self.cx, e, &mut u);
                        s.undecided = u;
                        if f { return Err(Stop::Violate(e, msg)); }
                        self.count_assert(&msg);
                        if self.cfg.smt_assert {
                            match s.dom.discharge(&mut self.ex, &mut self.cx, e) { Sat::Unsat => self.st.discharged_smt += 1, Sat::Sat => self.errors.push(format!("SMT solver contradicts the finite-domain verdict on '{}'", msg)), Sat::Unknown => self.st.discharged_fd += 1 }
                        } else { self.st.discharged_fd += 1; }
                        s.dom.subst.insert(e, 1);
                    }
                    _ => {}
                }
                z
            }
            Bi::SymCover => {
                let msg = self.cstr(s, &av[0], &av[1]);
                let i = match self.cover_names.iter().position(|x| *x == msg) { Some(i) => i, None => { self.cover_names.push(msg); self.cover_names.len() - 1 } } as u32;
                if !s.covered.contains(&i) { s.covered.push(i); }
                z
            }
            Bi::SymObserve => { s.obs.push(av[0].clone()); z }
            Bi::SymConcrete => Val::C(self.conc(s, &av[0], "concretised value")?),
            Bi::SymParam => { let i = self.conc(s, &av[0], "param")?; Val::C(self.cfg.params.get(i as usize).copied().unwrap_or(0)) }
            Bi::RetMinus1 => Val::C(0xffff_ffff),
            Bi::Errno => { let a = s.mem.alloc(4, Kind::Stack, true); self.store_scalar(s, a, 32, &Val::C(2))?; Val::C(a) } // ENOENT
            // the number of processors is parameter 13 (2 if not given)
            Bi::Sysconf => { let i = self.conc(s, &av[0], "sysconf")?; if i != 84 { return Err(Stop::Bound(format!("sysconf {i}"))); } let n = self.cfg.params.get(13).copied().unwrap_or(0); Val::C(if n == 0 { 2 } else { n }) }
            Bi::SymHeapLive => Val::C(s.mem.heap_live as u64),
            Bi::SymPrint => { eprintln!("[print] {:?}", av[0]); z }
        })
    }
    fn count_assert(&mut self, msg: &str) { self.st.asserts += 1; if let Some(n) = self.st.assert_sites.get_mut(msg) { *n += 1; } else { self.st.assert_sites.insert(msg.into(), 1); } }
    fn input(&mut self, k: usize, w: u8, name: String) -> (EId, u32) {
        let key = format!("{}#{}", name, k);
        for (i, v) in self.ex.vars.iter().enumerate() { if v.w == w && v.name == key { let i = i as u32; return (self.ex_var(i), i); } }
        self.ex.var(w, key, false)
    }
    fn ex_var(&mut self, i: u32) -> EId { let w = self.ex.vars[i as usize].w; self.ex.var_node(w, i) }
    fn low1(&mut self, s: &mut State, v: &Val, t: &Ty) -> Val { let w = t.bits() as u8; if w == 1 { v.clone() } else { let c = self.op(s, Op::Eq, 1, w, 0, &[v.clone(), Val::C(0)]); self.op(s, Op::Xor, 1, 1, 0, &[c, Val::C(1)]) } }
    fn sovf(&mut self, s: &mut State, k: u8, w: u8, x: &Val, y: &Val, r: &Val) -> Val {
        match k {
            0 => { let a = self.op(s, Op::Xor, w, w, 0, &[x.clone(), r.clone()]); let b = self.op(s, Op::Xor, w, w, 0, &[y.clone(), r.clone()]); let c = self.op(s, Op::And, w, w, 0, &[a, b]); self.op(s, Op::Extract, 1, w, w as u32 - 1, &[c]) }
            1 => { let a = self.op(s, Op::Xor, w, w, 0, &[x.clone(), y.clone()]); let b = self.op(s, Op::Xor, w, w, 0, &[x.clone(), r.clone()]); let c = self.op(s, Op::And, w, w, 0, &[a, b]); self.op(s, Op::Extract, 1, w, w as u32 - 1, &[c]) }
            _ => { let h = self.op(s, Op::SMulHi, w, w, 0, &[x.clone(), y.clone()]); let q = self.op(s, Op::AShr, w, w, 0, &[r.clone(), Val::C(w as u64 - 1)]); let e = self.op(s, Op::Eq, 1, w, 0, &[h, q]); self.op(s, Op::Xor, 1, 1, 0, &[e, Val::C(1)]) }
        }
    }
    fn un128(&mut self, s: &mut State, op: Op, a: &Val) -> R<Val> {
        let x = agg(a);
        if let (Some(l), Some(h)) = (x[0].c(), x[1].c()) {
            let v = l as u128 | (h as u128) << 64;
            let r: u128 = match op { Op::Ctlz => v.leading_zeros() as u128, Op::Cttz => v.trailing_zeros() as u128, Op::Ctpop => v.count_ones() as u128, Op::Bswap => v.swap_bytes(), Op::Bitrev => v.reverse_bits(), _ => return Err(Stop::Bound("un128".into())) };
            return Ok(Val::A(Rc::new(vec![Val::C(r as u64), Val::C((r >> 64) as u64)])));
        }
        let _ = s;
        Err(Stop::Bound("symbolic i128 unary".into()))
    }
    fn minmax(&mut self, s: &mut State, sg: bool, mx: bool, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if t.bits() > 64 && !matches!(t, Ty::Vec(..)) { let c = self.icmp(s, if sg { 8 } else { 4 }, t, a, b)?; let c = self.cond(s, &c)?; return Ok(if c != mx { a.clone() } else { b.clone() }); }
        Ok(self.zip(s, t, a, b, &mut |e, s, w, x, y| { let c = e.op(s, if sg { Op::Slt } else { Op::Ult }, 1, w, 0, &[x.clone(), y.clone()]); if mx { e.op(s, Op::Ite, w, w, 0, &[c, y.clone(), x.clone()]) } else { e.op(s, Op::Ite, w, w, 0, &[c, x.clone(), y.clone()]) } }))
    }
    fn zip(&mut self, s: &mut State, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, &mut State, u8, &Val, &Val) -> Val) -> Val {
        match t { Ty::Vec(_, e) => { let w = e.bits() as u8; let (x, y) = (agg(a), agg(b)); let mut r = vec![]; for i in 0..x.len() { r.push(f(self, s, w, &x[i], &y[i])); } Val::A(Rc::new(r)) } _ => f(self, s, t.bits() as u8, a, b) }
    }
}
fn agg(v: &Val) -> Rc<Vec<Val>> { match v { Val::A(a) => a.clone(), o => panic!("expected aggregate, got {:?}", o) } }
fn insert(v: &Val, e: &Val, ix: &[u32]) -> Val { if ix.is_empty() { return e.clone(); } let a = agg(v); let mut n = (*a).clone(); n[ix[0] as usize] = insert(&n[ix[0] as usize].clone(), e, &ix[1..]); Val::A(Rc::new(n)) }
impl Val { fn simp(self, ex: &Ex) -> Val { match self { Val::S(e) => match ex.is_c(e) { Some(c) => Val::C(c), None => Val::S(e) }, o => o } } }
