//! SMT-LIB2 back end: one long-lived solver process, one push/pop per query.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Smt {
    pub cmd: Vec<String>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub queries: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub timeout_ms: u64,
    pub dump: Option<String>,
}

impl Drop for Smt { fn drop(&mut self) { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } } }

impl Smt {
    /// after fork: the solver process belongs to the parent
    pub fn disown(&mut self) { if let Some((c, _, _)) = self.child.take() { std::mem::forget(c); } self.queries = 0; self.unsat = 0; self.unknown = 0; self.time = 0.; }
    pub fn new(cmd: &str, timeout_ms: u64) -> Smt {
        Smt { cmd: cmd.split_whitespace().map(|s| s.to_string()).collect(), child: None, queries: 0, unsat: 0, unknown: 0, time: 0., timeout_ms, dump: None }
    }
    fn start(&mut self) {
        if self.child.is_some() { return; }
        let mut c = Command::new(&self.cmd[0]).args(&self.cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start solver");
        let mut i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        if self.cmd[0].contains("z3") { write!(i, "(set-option :timeout {})\n", self.timeout_ms).unwrap(); }
        self.child = Some((c, i, o));
    }
    /// Checks satisfiability of the conjunction; on Sat returns values of `vals`.
    pub fn check(&mut self, ex: &Ex, cons: &[EId], extra: &str, vars: &[u32]) -> (Sat, HashMap<u32, u64>) {
        let t0 = std::time::Instant::now();
        self.start();
        self.queries += 1;
        let mut p = Printer::new(ex);
        for &v in vars { p.var(v); }
        let names: Vec<String> = cons.iter().map(|&c| p.term(c)).collect();
        let mut s = String::new();
        s.push_str("(push 1)\n");
        s.push_str(&p.out);
        for n in &names { let _ = write!(s, "(assert (= {} #b1))\n", n); }
        s.push_str(extra);
        s.push_str("(check-sat)\n");
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), &s); }
        let mut vs: Vec<u32> = p.vars.iter().copied().collect();
        vs.sort();
        let (_, i, o) = self.child.as_mut().unwrap();
        let mut res = Sat::Unknown;
        let mut model = HashMap::new();
        let r: std::io::Result<()> = (|| {
            i.write_all(s.as_bytes())?;
            i.flush()?;
            let mut line = String::new();
            o.read_line(&mut line)?;
            res = match line.trim() { "sat" => Sat::Sat, "unsat" => Sat::Unsat, "unknown" | "timeout" => Sat::Unknown, x => { eprintln!("solver said: {}", x); Sat::Unknown } };
            if line.trim().starts_with("(error") { return Err(std::io::Error::new(std::io::ErrorKind::Other, "solver error")); }
            if res == Sat::Sat && !vs.is_empty() {
                let mut q = String::from("(get-value (");
                for v in &vs { let _ = write!(q, "v{} ", v); }
                q.push_str("))\n");
                i.write_all(q.as_bytes())?;
                i.flush()?;
                let mut depth = 0i32; let mut txt = String::new();
                loop {
                    let mut b = [0u8; 1];
                    o.read_exact(&mut b)?;
                    txt.push(b[0] as char);
                    if b[0] == b'(' { depth += 1; } else if b[0] == b')' { depth -= 1; if depth == 0 { break; } }
                }
                let mut rest = String::new(); o.read_line(&mut rest)?;
                let toks: Vec<&str> = txt.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|t| !t.is_empty()).collect();
                let mut k = 0;
                while k + 1 < toks.len() {
                    let id: u32 = toks[k][1..].parse().unwrap_or(0);
                    let v = toks[k + 1];
                    let val = if let Some(h) = v.strip_prefix("#x") { u64::from_str_radix(h, 16).unwrap_or(0) } else if let Some(h) = v.strip_prefix("#b") { u64::from_str_radix(h, 2).unwrap_or(0) } else { 0 };
                    model.insert(id, val);
                    k += 2;
                }
            }
            i.write_all(b"(pop 1)\n")?;
            i.flush()?;
            Ok(())
        })();
        if r.is_err() { if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); } res = Sat::Unknown; }
        if res == Sat::Unsat { self.unsat += 1; }
        if res == Sat::Unknown { self.unknown += 1; }
        self.time += t0.elapsed().as_secs_f64();
        (res, model)
    }
}

pub struct Printer<'a> {
    ex: &'a Ex,
    pub out: String,
    done: HashMap<EId, String>,
    pub vars: std::collections::BTreeSet<u32>,
}
impl<'a> Printer<'a> {
    pub fn new(ex: &'a Ex) -> Self { Printer { ex, out: String::new(), done: HashMap::new(), vars: Default::default() } }
    pub fn var(&mut self, v: u32) { if self.vars.insert(v) { let _ = write!(self.out, "(declare-const v{} (_ BitVec {}))\n", v, self.ex.vars[v as usize].w); } }
    pub fn term(&mut self, e: EId) -> String {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.done.contains_key(&x) { stack.pop(); continue; }
            let n = self.ex.nodes[x as usize];
            let k = nargs(n.op);
            let mut ready = true;
            for i in 0..k { if !self.done.contains_key(&n.a[i]) { stack.push(n.a[i]); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let g = |i: usize| self.done[&n.a[i]].clone();
            let t = match n.op {
                Op::Const => format!("(_ bv{} {})", n.a[0] as u64 | (n.a[1] as u64) << 32, n.w),
                Op::Var => { self.var(n.aux); format!("v{}", n.aux) }
                _ => {
                    let a: Vec<String> = (0..k).map(g).collect();
                    let d = self.def(&n, &a);
                    let _ = write!(self.out, "(define-fun e{} () (_ BitVec {}) {})\n", x, n.w, d);
                    format!("e{}", x)
                }
            };
            self.done.insert(x, t);
        }
        self.done[&e].clone()
    }
    fn def(&self, n: &Node, a: &[String]) -> String {
        use Op::*;
        let b2 = |o: &str| format!("({} {} {})", o, a[0], a[1]);
        let cmp = |o: &str| format!("(ite ({} {} {}) #b1 #b0)", o, a[0], a[1]);
        let fs = |w: u8| if w == 32 { "8 24" } else { "11 53" };
        let f = |s: &String, w: u8| format!("((_ to_fp {}) {})", fs(w), s);
        // result of an FP op back to bits: via to_ieee_bv (z3)
        let fb = |s: String| format!("(fp.to_ieee_bv {})", s);
        match n.op {
            Add => b2("bvadd"), Sub => b2("bvsub"), Mul => b2("bvmul"), UDiv => b2("bvudiv"), SDiv => b2("bvsdiv"), URem => b2("bvurem"), SRem => b2("bvsrem"),
            And => b2("bvand"), Or => b2("bvor"), Xor => b2("bvxor"), Shl => b2("bvshl"), LShr => b2("bvlshr"), AShr => b2("bvashr"),
            Eq => cmp("="), Ult => cmp("bvult"), Ule => cmp("bvule"), Slt => cmp("bvslt"), Sle => cmp("bvsle"),
            Ite => format!("(ite (= {} #b1) {} {})", a[0], a[1], a[2]),
            ZExt => format!("((_ zero_extend {}) {})", n.w - n.aw, a[0]),
            SExt => format!("((_ sign_extend {}) {})", n.w - n.aw, a[0]),
            Extract => format!("((_ extract {} {}) {})", n.aux + n.w as u32 - 1, n.aux, a[0]),
            Concat => b2("concat"),
            FAdd => fb(format!("(fp.add RNE {} {})", f(&a[0], n.w), f(&a[1], n.w))),
            FSub => fb(format!("(fp.sub RNE {} {})", f(&a[0], n.w), f(&a[1], n.w))),
            FMul => fb(format!("(fp.mul RNE {} {})", f(&a[0], n.w), f(&a[1], n.w))),
            FDiv => fb(format!("(fp.div RNE {} {})", f(&a[0], n.w), f(&a[1], n.w))),
            FSqrt => fb(format!("(fp.sqrt RNE {})", f(&a[0], n.w))),
            FMA => fb(format!("(fp.fma RNE {} {} {})", f(&a[0], n.w), f(&a[1], n.w), f(&a[2], n.w))),
            FPExt => fb(format!("((_ to_fp 11 53) RNE {})", f(&a[0], 32))),
            FPTrunc => fb(format!("((_ to_fp 8 24) RNE {})", f(&a[0], 64))),
            UIToFP => fb(format!("((_ to_fp_unsigned {}) RNE {})", fs(n.w), a[0])),
            SIToFP => fb(format!("((_ to_fp {}) RNE {})", fs(n.w), a[0])),
            FCmp => {
                let (x, y) = (f(&a[0], n.aw), f(&a[1], n.aw));
                let mut d = vec![];
                if n.aux & 1 != 0 { d.push(format!("(fp.eq {} {})", x, y)); }
                if n.aux & 2 != 0 { d.push(format!("(fp.gt {} {})", x, y)); }
                if n.aux & 4 != 0 { d.push(format!("(fp.lt {} {})", x, y)); }
                if n.aux & 8 != 0 { d.push(format!("(fp.isNaN {})", x)); d.push(format!("(fp.isNaN {})", y)); }
                if d.is_empty() { return "#b0".into(); }
                format!("(ite (or {}) #b1 #b0)", d.join(" "))
            }
            SseMax => format!("(ite (fp.gt {} {}) {} {})", f(&a[0], n.w), f(&a[1], n.w), a[0], a[1]),
            SseMin => format!("(ite (fp.lt {} {}) {} {})", f(&a[0], n.w), f(&a[1], n.w), a[0], a[1]),
            FMinNum | FMaxNum => { // same-zero sign: treat -0/+0 by choosing as in ev()
                let (x, y) = (f(&a[0], n.w), f(&a[1], n.w));
                let (o, bw) = if n.op == FMinNum { ("fp.lt", "bvor") } else { ("fp.gt", "bvand") };
                format!("(ite (fp.isNaN {x}) {1} (ite (fp.isNaN {y}) {0} (ite (and (fp.isZero {x}) (fp.isZero {y})) ({bw} {0} {1}) (ite ({o} {x} {y}) {0} {1}))))", a[0], a[1])
            }
            FPToUI | FPToUISat => {
                // saturating conversion as in ev()
                let x = f(&a[0], n.aw);
                let maxf = format!("((_ to_fp_unsigned {}) RTZ (_ bv{} {}))", fs(n.aw), mask(n.w), n.w);
                format!("(ite (or (fp.isNaN {x}) (fp.lt {x} ((_ to_fp {fs}) RNE 0.0))) (_ bv0 {w}) (ite (fp.gt {x} {maxf}) (ite (fp.geq {x} (fp.add RNE {maxf} ((_ to_fp {fs}) RNE 1.0))) (_ bv{m} {w}) ((_ fp.to_ubv {w}) RTZ {x})) ((_ fp.to_ubv {w}) RTZ {x})))", x = x, fs = fs(n.aw), w = n.w, m = mask(n.w), maxf = maxf)
            }
            Ctlz => { let mut s = format!("(_ bv{} {})", n.w, n.w); for i in 0..n.w { s = format!("(ite (= ((_ extract {} {}) {}) #b1) (_ bv{} {}) {})", i, i, a[0], n.w - 1 - i, n.w, s); } s }
            Cttz => { let mut s = format!("(_ bv{} {})", n.w, n.w); for i in (0..n.w).rev() { s = format!("(ite (= ((_ extract {} {}) {}) #b1) (_ bv{} {}) {})", i, i, a[0], i, n.w, s); } s }
            Ctpop => { let mut s = format!("(_ bv0 {})", n.w); for i in 0..n.w { s = format!("(bvadd {} ((_ zero_extend {}) ((_ extract {} {}) {})))", s, n.w - 1, i, i, a[0]); } s }
            Bswap => { let k = n.w / 8; let mut s = String::from("(concat"); for i in 0..k { s += &format!(" ((_ extract {} {}) {})", i * 8 + 7, i * 8, a[0]); } s + ")" }
            UMulHi => format!("((_ extract {} {}) (bvmul ((_ zero_extend {}) {}) ((_ zero_extend {}) {})))", 2 * n.w as u32 - 1, n.w, n.w, a[0], n.w, a[1]),
            SMulHi => format!("((_ extract {} {}) (bvmul ((_ sign_extend {}) {}) ((_ sign_extend {}) {})))", 2 * n.w as u32 - 1, n.w, n.w, a[0], n.w, a[1]),
            Lut => {
                let ents = self.ex.luts[n.aux as usize].entries();
                fn tree(e: &[(u64, u64)], k: &str, aw: u8, w: u8) -> String {
                    if e.iter().all(|x| x.1 == e[0].1) { return format!("(_ bv{} {})", e[0].1, w); }
                    let m = e.len() / 2;
                    format!("(ite (bvult {} (_ bv{} {})) {} {})", k, e[m].0, aw, tree(&e[..m], k, aw, w), tree(&e[m..], k, aw, w))
                }
                tree(&ents, &a[0], n.aw, n.w)
            }
            _ => format!("(uninterpreted-{:?})", n.op), // makes the solver report an error => inconclusive
        }
    }
}
