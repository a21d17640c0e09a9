//! Stand-in for rayon in the "threads" build: work items run one at a time, in an order and on virtual
//! threads that are symbolic inputs. Only what happens between items is explored; each item is atomic.
extern "C" {
    fn sym_bits(w: u32, n: *const u8, l: usize) -> u64;
    fn sym_assume(c: bool);
    fn sym_concrete(v: u64) -> u64;
    fn sym_param(i: u32) -> u64;
}
static mut CURRENT: usize = 0;
static mut CHOICES: u64 = 0;
static mut NOISE: u64 = 0x9e37_79b9_7f4a_7c15;
/// the virtual thread that is running; 0 is the caller's own
pub fn current_virtual_thread() -> usize { unsafe { CURRENT } }
pub fn current_thread_index() -> Option<usize> { Some(current_virtual_thread()) }
pub fn current_num_threads() -> usize { threads() }
fn threads() -> usize { let t = unsafe { sym_param(15) } as usize; if t == 0 { 2 } else { t } }
/// a scheduling decision: the first few (parameter 14) are symbolic, later ones follow a fixed irregular pattern
fn decide(n: usize) -> usize {
    if n <= 1 || unsafe { IN_ORDER } { return 0; }
    unsafe {
        let budget = sym_param(14);
        if CHOICES < budget {
            CHOICES += 1;
            let w = 64 - (n as u64 - 1).leading_zeros();
            let v = sym_bits(w, b"schedule".as_ptr(), 8);
            if !n.is_power_of_two() { sym_assume(v < n as u64); }
            sym_concrete(v) as usize
        } else {
            NOISE = NOISE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (NOISE >> 33) as usize % n
        }
    }
}
/// whether decisions are symbolic from here on, or everything runs in order on the caller's thread
pub fn symbolic_schedule(on: bool) { unsafe { IN_ORDER = !on; } }
static mut IN_ORDER: bool = false;
fn on<R>(t: usize, f: impl FnOnce() -> R) -> R { unsafe { let old = CURRENT; CURRENT = t; let r = f(); CURRENT = old; r } }
fn schedule<T>(items: Vec<T>, mut run: impl FnMut(usize, T)) {
    let mut left: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let n = left.len();
    let mut first = 0;
    for _ in 0..n {
        // any of the first few items that have not started yet
        while left[first].is_none() { first += 1; }
        let window = (first..n).filter(|&i| left[i].is_some()).take(3).count();
        let k = decide(window);
        let at = (first..n).filter(|&i| left[i].is_some()).nth(k).unwrap();
        let item = left[at].take().unwrap();
        let t = decide(threads());
        on(t, || run(at, item));
    }
}

pub trait ParallelIterator: Sized {
    type Item;
    #[doc(hidden)]
    fn drive(self, f: &mut dyn FnMut(usize, Self::Item));
    fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> { Map(self, f) }
    fn enumerate(self) -> Enumerate<Self> { Enumerate(self) }
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { self.drive(&mut |_, x| f(x)); }
    fn sum<S: std::iter::Sum<Self::Item> + std::iter::Sum<S>>(self) -> S {
        let mut parts: Vec<S> = vec![];
        self.drive(&mut |_, x| parts.push(std::iter::once(x).sum()));
        parts.into_iter().sum()
    }
    fn reduce<ID: Fn() -> Self::Item, OP: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, op: OP) -> Self::Item {
        let mut all = vec![];
        self.drive(&mut |i, x| all.push((i, x)));
        all.sort_by_key(|a| a.0);
        all.into_iter().fold(id(), |a, b| op(a, b.1))
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> FilterMap<Self, impl Fn(Self::Item) -> Option<Self::Item> + Sync + Send> { FilterMap(self, move |x| if f(&x) { Some(x) } else { None }) }
    fn filter_map<R, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> FilterMap<Self, F> { FilterMap(self, f) }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Map<Self, impl Fn(Self::Item) -> Self::Item + Sync + Send> { Map(self, move |x| { f(&x); x }) }
    fn count(self) -> usize { let mut n = 0; self.drive(&mut |_, _| n += 1); n }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { let mut r = true; self.drive(&mut |_, x| r &= f(x)); r }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { let mut r = false; self.drive(&mut |_, x| r |= f(x)); r }
    fn reduce_with<OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, op: OP) -> Option<Self::Item> { self.collect::<Vec<_>>().into_iter().reduce(op) }
    fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> { let mut r = Ok(()); self.drive(&mut |_, x| if r.is_ok() { r = f(x); }); r }
    fn with_min_len(self, _: usize) -> Self { self }
    fn with_max_len(self, _: usize) -> Self { self }
    fn collect<C: FromIterator<Self::Item>>(self) -> C {
        let mut all = vec![];
        self.drive(&mut |i, x| all.push((i, x)));
        all.sort_by_key(|a| a.0);
        all.into_iter().map(|a| a.1).collect()
    }
}
pub struct Base<I>(I);
impl<I: Iterator> ParallelIterator for Base<I> {
    type Item = I::Item;
    fn drive(self, f: &mut dyn FnMut(usize, I::Item)) { schedule(self.0.collect(), |i, x| f(i, x)); }
}
pub struct Map<P, F>(P, F);
impl<P: ParallelIterator, R, F: Fn(P::Item) -> R + Sync + Send> ParallelIterator for Map<P, F> {
    type Item = R;
    fn drive(self, f: &mut dyn FnMut(usize, R)) { let g = self.1; self.0.drive(&mut |i, x| f(i, g(x))); }
}
pub struct FilterMap<P, F>(P, F);
impl<P: ParallelIterator, R, F: Fn(P::Item) -> Option<R> + Sync + Send> ParallelIterator for FilterMap<P, F> {
    type Item = R;
    fn drive(self, f: &mut dyn FnMut(usize, R)) { let g = self.1; self.0.drive(&mut |i, x| if let Some(y) = g(x) { f(i, y) }); }
}
pub struct Enumerate<P>(P);
impl<P: ParallelIterator> ParallelIterator for Enumerate<P> {
    type Item = (usize, P::Item);
    fn drive(self, f: &mut dyn FnMut(usize, Self::Item)) { self.0.drive(&mut |i, x| f(i, (i, x))); }
}
pub trait ParallelBridge: Iterator + Sized + Send where Self::Item: Send { fn par_bridge(self) -> Base<Self> { Base(self) } }
impl<I: Iterator + Send> ParallelBridge for I where I::Item: Send {}
pub trait ParallelSliceMut<T: Send> {
    fn as_parallel_slice_mut(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Base<std::slice::ChunksMut<'_, T>> { Base(self.as_parallel_slice_mut().chunks_mut(n)) }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Base<std::slice::ChunksExactMut<'_, T>> { Base(self.as_parallel_slice_mut().chunks_exact_mut(n)) }
}
impl<T: Send> ParallelSliceMut<T> for [T] { fn as_parallel_slice_mut(&mut self) -> &mut [T] { self } }
pub trait ParallelSlice<T: Sync> {
    fn as_parallel_slice(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Base<std::slice::Chunks<'_, T>> { Base(self.as_parallel_slice().chunks(n)) }
}
impl<T: Sync> ParallelSlice<T> for [T] { fn as_parallel_slice(&self) -> &[T] { self } }
pub trait IntoParallelIterator { type Iter: ParallelIterator<Item = Self::Item>; type Item; fn into_par_iter(self) -> Self::Iter; }
impl<I: IntoIterator> IntoParallelIterator for I { type Iter = Base<I::IntoIter>; type Item = I::Item; fn into_par_iter(self) -> Self::Iter { Base(self.into_iter()) } }
pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] { type Iter = Base<std::slice::Iter<'a, T>>; fn par_iter(&'a self) -> Self::Iter { Base(self.iter()) } }
pub trait IntoParallelRefMutIterator<'a> { type Iter; fn par_iter_mut(&'a mut self) -> Self::Iter; }
impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for [T] { type Iter = Base<std::slice::IterMut<'a, T>>; fn par_iter_mut(&'a mut self) -> Self::Iter { Base(self.iter_mut()) } }
pub use ParallelIterator as IndexedParallelIterator;

pub struct Scope<'s> { waiting: std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>> }
impl<'s> Scope<'s> {
    /// either runs before the caller goes on, or waits
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        if decide(2) == 0 { let t = decide(threads()); on(t, || f(self)); } else { self.waiting.borrow_mut().push(Box::new(f)); }
    }
}
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope { waiting: Default::default() };
    let r = f(&s);
    loop {
        let n = s.waiting.borrow().len();
        if n == 0 { break; }
        let job = s.waiting.borrow_mut().remove(decide(n));
        let t = decide(threads());
        on(t, || job(&s));
    }
    r
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R + Send, R: Send>(f: F) -> R { in_place_scope(f) }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send {
    if decide(2) == 0 { let x = a(); let t = decide(threads()); (x, on(t, b)) } else { let t = decide(threads()); let y = on(t, b); (a(), y) }
}
pub mod prelude { pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator, ParallelSlice, ParallelSliceMut}; }
pub mod iter { pub use crate::prelude::*; }
