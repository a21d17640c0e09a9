//! Byte-addressed memory of separate objects with copy-on-write sharing between path states.
use crate::expr::EId;
use crate::ir::{OBJ_BASE, OBJ_PAD, SLOT};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Const, Global, Heap, Stack }

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub alive: bool,
    pub data: Vec<u8>,
    pub st: Vec<u8>, // 0 concrete, 1 uninitialised, 2 symbolic
    pub sym: Option<Box<BTreeMap<u32, (EId, u8)>>>,
}
const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: usize,
    free_stack: Vec<u32>,
    big: Rc<Vec<(usize, usize)>>,
    pub heap_live: i64,
    pub heap_allocs: u64,
}
#[derive(Clone, Debug)]
pub struct MemErr(pub String);

fn empty() -> Chunk { std::array::from_fn(|_| None) }

impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], next: 0, free_stack: vec![], big: Rc::new(vec![]), heap_live: 0, heap_allocs: 0 } }
    pub fn addr_of(slot: usize) -> u64 { OBJ_BASE + slot as u64 * SLOT + OBJ_PAD }
    fn slot_of(&self, addr: u64) -> Option<usize> {
        if addr < OBJ_BASE { return None; }
        let s = ((addr - OBJ_BASE) / SLOT) as usize;
        if s >= self.next { return None; }
        if !self.big.is_empty() { for &(f, n) in self.big.iter() { if s >= f && s < f + n { return Some(f); } } }
        Some(s)
    }
    #[inline]
    pub fn get(&self, slot: usize) -> Option<&Rc<Obj>> { self.chunks[slot / CH][slot % CH].as_ref() }
    pub fn obj_mut(&mut self, slot: usize) -> &mut Obj { let c = Rc::make_mut(&mut self.chunks[slot / CH]); Rc::make_mut(c[slot % CH].as_mut().unwrap()) }
    fn put(&mut self, slot: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= slot / CH { self.chunks.push(Rc::new(empty())); }
        Rc::make_mut(&mut self.chunks[slot / CH])[slot % CH] = o;
    }
    pub fn reserve_slots(&mut self, size: u64) -> usize {
        let s = self.next;
        let n = ((size + OBJ_PAD + 4096) / SLOT + 1) as usize;
        self.next += n;
        if n > 1 { Rc::make_mut(&mut self.big).push((s, n)); }
        while self.chunks.len() <= (self.next - 1) / CH { self.chunks.push(Rc::new(empty())); }
        s
    }
    pub fn alloc(&mut self, size: u64, kind: Kind, zero: bool) -> u64 {
        let slot = if kind == Kind::Stack && size < SLOT / 2 && !self.free_stack.is_empty() { self.free_stack.pop().unwrap() as usize } else { self.reserve_slots(size) };
        let base = Self::addr_of(slot);
        let o = Obj { base, size, kind, alive: true, data: vec![0; size as usize], st: vec![if zero { 0 } else { 1 }; size as usize], sym: None };
        self.put(slot, Some(Rc::new(o)));
        if kind == Kind::Heap { self.heap_live += 1; self.heap_allocs += 1; }
        base
    }
    pub fn place(&mut self, slot: usize, data: Vec<u8>, kind: Kind) {
        let n = data.len();
        let o = Obj { base: Self::addr_of(slot), size: n as u64, kind, alive: true, data, st: vec![0; n], sym: None };
        self.put(slot, Some(Rc::new(o)));
    }
    pub fn free_stack(&mut self, addr: u64) { let s = self.slot_of(addr).unwrap(); let small = self.get(s).map_or(false, |o| o.size < SLOT / 2); self.put(s, None); if small { self.free_stack.push(s as u32); } }
    pub fn free_heap(&mut self, addr: u64) -> Result<(), MemErr> {
        let e = |m: &str| Err(MemErr(format!("{} (address {:#x})", m, addr)));
        let s = match self.slot_of(addr) { Some(s) => s, None => return e("free of a pointer that was never allocated") };
        match self.get(s) {
            None => e("free of an invalid pointer"),
            Some(o) if o.kind != Kind::Heap => e("free of a non-heap pointer"),
            Some(o) if !o.alive => e("double free"),
            Some(o) if o.base != addr => e("free of an interior pointer"),
            Some(_) => { let o = self.obj_mut(s); o.alive = false; o.data = vec![]; o.st = vec![]; o.sym = None; self.heap_live -= 1; Ok(()) }
        }
    }
    pub fn resolve(&self, addr: u64, n: u64, write: bool) -> Result<(usize, usize), MemErr> {
        let what = if write { "write" } else { "read" };
        let s = match self.slot_of(addr) { Some(s) => s, None => return Err(MemErr(format!("{} of {} byte(s) at invalid address {:#x}", what, n, addr))) };
        match self.get(s) {
            None => Err(MemErr(format!("{} of {} byte(s) in a dead stack object or unmapped address {:#x}", what, n, addr))),
            Some(o) => {
                if !o.alive { return Err(MemErr(format!("use after free: {} of {} byte(s), offset {} of a freed {}-byte block", what, n, addr.wrapping_sub(o.base) as i64, o.size))); }
                if write && o.kind == Kind::Const { return Err(MemErr("write to constant memory".into())); }
                let off = addr.wrapping_sub(o.base);
                if addr < o.base || off.checked_add(n).map_or(true, |e| e > o.size) { return Err(MemErr(format!("out of bounds {} of {} byte(s) at offset {} of a {}-byte {:?} object", what, n, off as i64, o.size, o.kind))); }
                Ok((s, off as usize))
            }
        }
    }
    pub fn block_size(&self, addr: u64) -> Option<u64> { let s = self.slot_of(addr)?; let o = self.get(s)?; if o.alive && o.base == addr { Some(o.size) } else { None } }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let (ss, so) = self.resolve(src, n, false)?;
        let (ds, d) = self.resolve(dst, n, true)?;
        let n = n as usize;
        let src_o = self.get(ss).unwrap().clone();
        let any_sym = src_o.sym.is_some() && src_o.st[so..so + n].iter().any(|&x| x == 2);
        if ss == ds {
            drop(src_o);
            let syms: Vec<(u32, (EId, u8))> = if any_sym { self.get(ss).unwrap().sym.as_ref().unwrap().range(so as u32..(so + n) as u32).map(|(k, v)| (*k, *v)).collect() } else { vec![] };
            let o = self.obj_mut(ds);
            o.data.copy_within(so..so + n, d);
            o.st.copy_within(so..so + n, d);
            if let Some(m) = o.sym.as_mut() {
                let ks: Vec<u32> = m.range(d as u32..(d + n) as u32).map(|x| *x.0).collect();
                for k in ks { m.remove(&k); }
                for (k, v) in syms { m.insert(k - so as u32 + d as u32, v); }
            }
            return Ok(());
        }
        let o = self.obj_mut(ds);
        o.data[d..d + n].copy_from_slice(&src_o.data[so..so + n]);
        o.st[d..d + n].copy_from_slice(&src_o.st[so..so + n]);
        if let Some(m) = o.sym.as_mut() { let ks: Vec<u32> = m.range(d as u32..(d + n) as u32).map(|x| *x.0).collect(); for k in ks { m.remove(&k); } }
        if any_sym {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, v) in src_o.sym.as_ref().unwrap().range(so as u32..(so + n) as u32) { m.insert(k - so as u32 + d as u32, *v); }
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, n: u64, v: Result<u8, EId>) -> Result<(), MemErr> {
        if n == 0 { return Ok(()); }
        let (ds, d) = self.resolve(dst, n, true)?;
        let n = n as usize;
        let o = self.obj_mut(ds);
        if let Some(m) = o.sym.as_mut() { let ks: Vec<u32> = m.range(d as u32..(d + n) as u32).map(|x| *x.0).collect(); for k in ks { m.remove(&k); } }
        match v {
            Ok(b) => { o.data[d..d + n].fill(b); o.st[d..d + n].fill(0); }
            Err(e) => { o.st[d..d + n].fill(2); let m = o.sym.get_or_insert_with(Default::default); for i in 0..n { m.insert((d + i) as u32, (e, 0)); } }
        }
        Ok(())
    }
    pub fn bytes(&self, addr: u64, n: u64) -> Option<Vec<u8>> { let (s, o) = self.resolve(addr, n, false).ok()?; let b = self.get(s).unwrap(); if b.st[o..o + n as usize].iter().any(|&x| x != 0) { return None; } Some(b.data[o..o + n as usize].to_vec()) }
}
