//! Path-condition store: independent components of variables; a component is either finite
//! (explicit exact solution set over <= LIMIT joint assignments) or wide (constraints for the SMT solver).
use crate::expr::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Comp {
    pub vars: Vec<u32>,
    pub pos: Vec<u8>,          // bit position of each var in the packed assignment
    pub sols: Option<Vec<u64>>, // packed assignments; None = wide
    pub cons: Vec<EId>,
    cache: RefCell<HashMap<EId, Rc<Vec<u64>>, FxBuild>>,
    parent: Option<(Rc<Comp>, Vec<u32>)>,
    model: RefCell<Option<Rc<HashMap<u32, u64>>>>,
}
impl Comp {
    fn getv(&self, sol: u64, var: u32, w: u8) -> Option<u64> { let i = self.vars.binary_search(&var).ok()?; Some((sol >> self.pos[i]) & mask(w)) }
}

#[derive(Clone)]
pub struct Dom {
    v2c: Vec<Option<Rc<Comp>>>, // by var id; None = not created on this path (or untouched fresh)
    pub subst: HashMap<EId, u64, FxBuild>,
    jc: std::collections::VecDeque<(Vec<Rc<Comp>>, Rc<Comp>)>, // recent joins
}

pub struct DomCtx { pub limit: usize, pub smt: Smt, pub fd_queries: u64, pub fd_time: f64, pub cache_cap: usize, pub evals: u64 }

fn bump<T>(x: T) -> Rc<T> { Rc::new(x) }

impl Dom {
    pub fn new() -> Dom { Dom { v2c: vec![], subst: HashMap::default(), jc: Default::default() } }

    fn comp(&mut self, ex: &Ex, v: u32) -> Rc<Comp> {
        if self.v2c.len() <= v as usize { self.v2c.resize(v as usize + 1, None); }
        if let Some(c) = &self.v2c[v as usize] { return c.clone(); }
        let w = ex.vars[v as usize].w;
        let sols = if w <= 12 { Some((0..(1u64 << w)).collect()) } else { None };
        let c = bump(Comp { vars: vec![v], pos: vec![0], sols, cons: vec![], cache: Default::default(), parent: None, model: Default::default() });
        self.v2c[v as usize] = Some(c.clone());
        c
    }
    fn comps(&mut self, ex: &Ex, vars: &[u32]) -> Vec<Rc<Comp>> {
        let mut r: Vec<Rc<Comp>> = vec![];
        for &v in vars { let c = self.comp(ex, v); if !r.iter().any(|x| Rc::ptr_eq(x, &c)) { r.push(c); } }
        r
    }
    fn join(&mut self, ex: &Ex, cs: &[Rc<Comp>], limit: usize) -> Rc<Comp> {
        if cs.len() == 1 { return cs[0].clone(); }
        if let Some((_, j)) = self.jc.iter().find(|(k, _)| k.len() == cs.len() && k.iter().all(|x| cs.iter().any(|y| Rc::ptr_eq(x, y)))) { return j.clone(); }
        let j = self.join2(ex, cs, limit);
        self.jc.push_front((cs.to_vec(), j.clone()));
        self.jc.truncate(12);
        j
    }
    fn join2(&mut self, ex: &Ex, cs: &[Rc<Comp>], limit: usize) -> Rc<Comp> {
        let mut vars: Vec<u32> = cs.iter().flat_map(|c| c.vars.iter().copied()).collect();
        vars.sort_unstable();
        let bits: u32 = vars.iter().map(|&v| ex.vars[v as usize].w as u32).sum();
        let mut cons: Vec<EId> = cs.iter().flat_map(|c| c.cons.iter().copied()).collect();
        cons.dedup();
        let mut pos = vec![]; let mut p = 0u32;
        for &v in &vars { pos.push(p as u8); p += ex.vars[v as usize].w as u32; if p > 255 { p = 255; } }
        let total: Option<usize> = cs.iter().try_fold(1usize, |a, c| c.sols.as_ref().and_then(|s| a.checked_mul(s.len())));
        let ok = bits <= 64 && matches!(total, Some(n) if n <= limit);
        if !ok { return bump(Comp { vars, pos, sols: None, cons, cache: Default::default(), parent: None, model: Default::default() }); }
        let mut sols = vec![0u64];
        for c in cs {
            // remap
            let maps: Vec<(u8, u64, u8)> = c.vars.iter().enumerate().map(|(i, v)| { let j = vars.binary_search(v).unwrap(); (c.pos[i], mask(ex.vars[*v as usize].w), pos[j]) }).collect();
            let cm: Vec<u64> = c.sols.as_ref().unwrap().iter().map(|&s| { let mut r = 0; for &(a, m, b) in &maps { r |= ((s >> a) & m) << b; } r }).collect();
            let mut n = Vec::with_capacity(sols.len() * cm.len());
            for &s in &sols { for &t in &cm { n.push(s | t); } }
            sols = n;
        }
        bump(Comp { vars, pos, sols: Some(sols), cons, cache: Default::default(), parent: None, model: Default::default() })
    }
    fn set(&mut self, c: Rc<Comp>) { for &v in &c.vars { if self.v2c.len() <= v as usize { self.v2c.resize(v as usize + 1, None); } self.v2c[v as usize] = Some(c.clone()); } }

    /// Value of `e` if it is determined by cheap means (substitution, or single-solution components).
    pub fn quick(&mut self, ex: &Ex, e: EId) -> Option<u64> {
        if let Some(v) = ex.is_c(e) { return Some(v); }
        if !self.subst.is_empty() { if let Some(&v) = self.subst.get(&e) { return Some(v); } }
        let s = ex.supp[e as usize];
        let sup = &ex.supps[s as usize];
        if sup.len() > 24 { return None; }
        for &v in sup.iter() {
            match self.v2c.get(v as usize) { Some(Some(c)) => match &c.sols { Some(s) if s.len() == 1 => {} _ => return None }, _ => return None }
        }
        let v2c = &self.v2c;
        let asg = |v: u32| -> u64 { let c = v2c[v as usize].as_ref().unwrap(); c.getv(c.sols.as_ref().unwrap()[0], v, ex.vars[v as usize].w).unwrap() };
        Some(ex.eval(e, &asg, &mut self.subst))
    }

    fn table(&self, ex: &Ex, cx: &mut DomCtx, c: &Rc<Comp>, e: EId) -> Rc<Vec<u64>> {
        let sols = c.sols.as_ref().unwrap();
        let n = sols.len();
        if let Some(t) = c.cache.borrow().get(&e) { return t.clone(); }
        let mut local: HashMap<EId, Rc<Vec<u64>>, FxBuild> = HashMap::default();
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if local.contains_key(&x) { stack.pop(); continue; }
            if let Some(t) = c.cache.borrow().get(&x) { local.insert(x, t.clone()); stack.pop(); continue; }
            // ancestor caches
            let mut got = None;
            {
                let mut sel: Option<Vec<u32>> = None;
                let mut cur = &c.parent;
                let mut depth = 0;
                while let Some((p, s)) = cur {
                    let ns: Vec<u32> = match &sel { None => Vec::new(), Some(q) => q.iter().map(|&i| s[i as usize]).collect() };
                    let sref: &Vec<u32> = if sel.is_none() { s } else { &ns };
                    if let Some(t) = p.cache.borrow().get(&x) { got = Some(Rc::new(sref.iter().map(|&i| t[i as usize]).collect::<Vec<u64>>())); break; }
                    depth += 1;
                    if depth > 6 { break; }
                    sel = Some(sref.clone());
                    cur = &p.parent;
                }
            }
            if let Some(t) = got { local.insert(x, t); stack.pop(); continue; }
            let nd = ex.nodes[x as usize];
            let t: Vec<u64> = match nd.op {
                Op::Const => { let v = nd.a[0] as u64 | (nd.a[1] as u64) << 32; vec![v; n] }
                Op::Var => { let i = c.vars.binary_search(&nd.aux).unwrap(); let (p, m) = (c.pos[i], mask(nd.w)); sols.iter().map(|&s| (s >> p) & m).collect() }
                _ => {
                    let k = nargs(nd.op);
                    let mut ready = true;
                    for i in 0..k { if !local.contains_key(&nd.a[i]) { stack.push(nd.a[i]); ready = false; } }
                    if !ready { continue; }
                    cx.evals += n as u64;
                    let a = local[&nd.a[0]].clone();
                    if nd.op == Op::Lut { let l = &ex.luts[nd.aux as usize]; a.iter().map(|&v| l.get(v)).collect() }
                    else if k == 1 { a.iter().map(|&v| ev(nd.op, nd.w, nd.aw, nd.aux, v, 0, 0)).collect() }
                    else {
                        let b = local[&nd.a[1]].clone();
                        if k == 2 {
                            macro_rules! arm { ($o:ident) => { a.iter().zip(b.iter()).map(|(&x, &y)| ev(Op::$o, nd.w, nd.aw, nd.aux, x, y, 0)).collect() } }
                            match nd.op { Op::FAdd => arm!(FAdd), Op::FMul => arm!(FMul), Op::FSub => arm!(FSub), Op::FCmp => arm!(FCmp), Op::Add => arm!(Add), Op::Eq => arm!(Eq), Op::Ult => arm!(Ult), Op::Concat => arm!(Concat),
                                _ => a.iter().zip(b.iter()).map(|(&x, &y)| ev(nd.op, nd.w, nd.aw, nd.aux, x, y, 0)).collect() }
                        } else {
                            let d = local[&nd.a[2]].clone();
                            (0..n).map(|i| ev(nd.op, nd.w, nd.aw, nd.aux, a[i], b[i], d[i])).collect()
                        }
                    }
                }
            };
            local.insert(x, Rc::new(t));
            stack.pop();
        }
        let r = local[&e].clone();
        if n <= cx.cache_cap { let mut cc = c.cache.borrow_mut(); for (k, v) in local { cc.insert(k, v); } } else { c.cache.borrow_mut().insert(e, r.clone()); }
        r
    }

    /// All feasible values of e (sorted), or None if more than `max` (or undecided for wide).
    pub fn values(&mut self, ex: &mut Ex, cx: &mut DomCtx, e: EId, max: usize) -> Option<Vec<u64>> {
        if let Some(v) = self.quick(ex, e) { return Some(vec![v]); }
        let sup = ex.support(e);
        let cs = self.comps(ex, &sup);
        let j = self.join(ex, &cs, cx.limit);
        if j.sols.is_some() {
            let t0 = std::time::Instant::now();
            cx.fd_queries += 1;
            let t = self.table(ex, cx, &j, e);
            if cs.len() == 1 || j.sols.as_ref().unwrap().len() <= 4096 { /* keep */ }
            let mut v: Vec<u64> = (*t).clone();
            v.sort_unstable(); v.dedup();
            cx.fd_time += t0.elapsed().as_secs_f64();
            if v.len() > max { return None; }
            return Some(v);
        }
        // wide: enumerate with SMT
        let mut cons = j.cons.clone();
        let mut out = vec![];
        // use stored model first
        loop {
            let (r, m) = cx.smt.check(ex, &cons, "", &j.vars);
            match r {
                Sat::Unsat => break,
                Sat::Unknown => return None,
                Sat::Sat => {
                    let mut memo = HashMap::default();
                    let v = ex.eval(e, &|x| m.get(&x).copied().unwrap_or(0), &mut memo);
                    out.push(v);
                    if out.len() > max { return None; }
                    let q = ex.eqc(e, v); let nq = ex.not(q);
                    cons.push(nq);
                }
            }
        }
        out.sort_unstable();
        Some(out)
    }

    /// (can be true, can be false); an undecided wide query counts as feasible and sets `undecided`.
    pub fn feas(&mut self, ex: &mut Ex, cx: &mut DomCtx, e: EId, undecided: &mut bool) -> (bool, bool) {
        if let Some(v) = self.quick(ex, e) { return (v != 0, v == 0); }
        let sup = ex.support(e);
        let cs = self.comps(ex, &sup);
        let j = self.join(ex, &cs, cx.limit);
        if j.sols.is_some() {
            let t0 = std::time::Instant::now();
            cx.fd_queries += 1;
            let t = self.table(ex, cx, &j, e);
            let r = (t.iter().any(|&x| x != 0), t.iter().any(|&x| x == 0));
            cx.fd_time += t0.elapsed().as_secs_f64();
            return r;
        }
        let mut can = [false, false];
        if let Some(m) = j.model.borrow().as_ref() {
            let mut memo = HashMap::default();
            let v = ex.eval(e, &|x| m.get(&x).copied().unwrap_or(0), &mut memo);
            can[(v == 0) as usize] = true;
        }
        for side in 0..2 {
            if can[side] { continue; }
            let c = if side == 0 { e } else { ex.not(e) };
            let mut cons = j.cons.clone(); cons.push(c);
            let (r, m) = cx.smt.check(ex, &cons, "", &j.vars);
            match r { Sat::Sat => { can[side] = true; *j.model.borrow_mut() = Some(Rc::new(m)); } Sat::Unsat => {} Sat::Unknown => { can[side] = true; *undecided = true; } }
        }
        (can[0], can[1])
    }

    /// Adds constraint e != 0 (caller knows it is feasible).
    pub fn constrain(&mut self, ex: &mut Ex, cx: &mut DomCtx, e: EId) {
        if self.quick(ex, e).is_some() { return; }
        let sup = ex.support(e);
        let cs = self.comps(ex, &sup);
        let j = self.join(ex, &cs, cx.limit);
        let mut cons = j.cons.clone(); cons.push(e);
        if j.sols.is_some() {
            let t = self.table(ex, cx, &j, e);
            let sel: Vec<u32> = (0..t.len() as u32).filter(|&i| t[i as usize] != 0).collect();
            if sel.len() == t.len() && cs.len() > 1 { return; }
            let sols: Vec<u64> = sel.iter().map(|&i| j.sols.as_ref().unwrap()[i as usize]).collect();
            let c = bump(Comp { vars: j.vars.clone(), pos: j.pos.clone(), sols: Some(sols), cons, cache: Default::default(), parent: Some((j.clone(), sel)), model: Default::default() });
            self.set(c);
        } else {
            let model = j.model.borrow().clone().filter(|m| { let mut memo = HashMap::default(); ex.eval(e, &|x| m.get(&x).copied().unwrap_or(0), &mut memo) != 0 });
            let c = bump(Comp { vars: j.vars.clone(), pos: j.pos.clone(), sols: None, cons, cache: Default::default(), parent: None, model: RefCell::new(model) });
            self.set(c);
        }
        self.subst.insert(e, 1);
    }

    /// Number of assignments represented by the finite components (log-free, saturating).
    pub fn count(&self, vars: &[u32]) -> f64 {
        let mut seen: Vec<*const Comp> = vec![]; let mut n = 1f64;
        for &v in vars { if let Some(Some(c)) = self.v2c.get(v as usize) { let p = Rc::as_ptr(c); if seen.contains(&p) { continue; } seen.push(p); if let Some(s) = &c.sols { n *= s.len() as f64; } } }
        n
    }

    /// A full model of the path condition for the given variables. None: undecided or infeasible (flag).
    pub fn model(&mut self, ex: &Ex, cx: &mut DomCtx, vars: &[u32], infeasible: &mut bool) -> Option<HashMap<u32, u64>> {
        let mut out = HashMap::new();
        for &v in vars {
            if out.contains_key(&v) { continue; }
            let c = self.comp(ex, v);
            if let Some(s) = &c.sols {
                for &u in &c.vars { out.insert(u, c.getv(s[s.len() / 2], u, ex.vars[u as usize].w).unwrap()); }
            } else {
                let known = c.model.borrow().clone();
                let m = match known { Some(m) => m, None => {
                    let (r, m) = cx.smt.check(ex, &c.cons, "", &c.vars);
                    match r { Sat::Sat => Rc::new(m), Sat::Unsat => { *infeasible = true; return None; } Sat::Unknown => return None }
                } };
                for &u in &c.vars { out.insert(u, m.get(&u).copied().unwrap_or(0)); }
            }
        }
        Some(out)
    }

    /// Solver discharge of an assertion: is (path condition of the involved components) AND NOT e satisfiable?
    /// Floating-point atoms over finite components are passed as their exact bit-vector solution sets.
    pub fn discharge(&mut self, ex: &mut Ex, cx: &mut DomCtx, e: EId) -> Sat {
        let sup = ex.support(e);
        let cs = self.comps(ex, &sup);
        let ne = ex.not(e);
        let mut extra = String::new();
        let mut cons: Vec<EId> = vec![];
        let mut vars = vec![];
        let j = self.join(ex, &cs, cx.limit);
        for c in &cs {
            vars.extend(c.vars.iter().copied());
            match &c.sols {
                Some(s) => extra.push_str(&solset(ex, c, s)),
                None => cons.extend(c.cons.iter().copied()),
            }
        }
        if ex.fp[e as usize] && j.sols.is_some() {
            let t = self.table(ex, cx, &j, ne);
            let bad: Vec<u64> = t.iter().zip(j.sols.as_ref().unwrap()).filter(|(x, _)| **x != 0).map(|(_, s)| *s).collect();
            extra.push_str(&solset(ex, &j, &bad));
        } else { cons.push(ne); }
        let mut q = vec![]; for c in cons { q.push(c); }
        cx.smt.check(ex, &q, &extra, &vars).0
    }
}

/// SMT-LIB text asserting that the packed variables of `c` lie in the (sorted) set `sols`.
fn solset(ex: &Ex, c: &Comp, sols: &[u64]) -> String {
    let bits: u32 = c.vars.iter().map(|&v| ex.vars[v as usize].w as u32).sum();
    if sols.len() as u64 == 1u64.checked_shl(bits).unwrap_or(0) { return String::new(); }
    let mut t = String::new();
    for &v in &c.vars { t = if t.is_empty() { format!("v{}", v) } else { format!("(concat v{} {})", v, t) }; }
    let mut s = sols.to_vec(); s.sort_unstable();
    let mut rs = vec![]; let mut i = 0;
    while i < s.len() { let a = s[i]; let mut b = a; while i + 1 < s.len() && s[i + 1] == b + 1 { i += 1; b += 1; } i += 1; rs.push((a, b)); }
    let mut r = String::from("(assert (let ((p ");
    r += &t; r += ")) (or false";
    for (a, b) in rs { if a == b { r += &format!(" (= p (_ bv{} {}))", a, bits); } else { r += &format!(" (and (bvule (_ bv{} {bits}) p) (bvule p (_ bv{} {bits})))", a, b); } }
    r += ")))\n";
    r
}
