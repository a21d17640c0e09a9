//! Stand-in for thread_local in the "threads" build: one value per virtual thread.
use std::cell::UnsafeCell;
pub struct ThreadLocal<T: Send> { slots: UnsafeCell<Vec<(usize, Box<T>)>> }
unsafe impl<T: Send> Sync for ThreadLocal<T> {}
unsafe impl<T: Send> Send for ThreadLocal<T> {}
impl<T: Send> Default for ThreadLocal<T> { fn default() -> Self { Self::new() } }
impl<T: Send> ThreadLocal<T> {
    pub const fn new() -> Self { Self { slots: UnsafeCell::new(Vec::new()) } }
    pub fn get(&self) -> Option<&T> {
        let me = rayon::current_virtual_thread();
        unsafe { &*self.slots.get() }.iter().find(|s| s.0 == me).map(|s| &*s.1)
    }
    pub fn get_or<F: FnOnce() -> T>(&self, f: F) -> &T { match self.get_or_try(|| Ok::<T, std::convert::Infallible>(f())) { Ok(v) => v, Err(e) => match e {} } }
    pub fn get_or_try<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
        if let Some(v) = self.get() { return Ok(v); }
        let v = Box::new(f()?);
        let me = rayon::current_virtual_thread();
        let slots = unsafe { &mut *self.slots.get() };
        let at = slots.iter().position(|s| s.0 > me).unwrap_or(slots.len());
        slots.insert(at, (me, v));
        Ok(&slots[at].1)
    }
    pub fn get_or_default(&self) -> &T where T: Default { self.get_or(T::default) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> { self.slots.get_mut().iter_mut().map(|s| &mut *s.1) }
}
impl<T: Send> IntoIterator for ThreadLocal<T> {
    type Item = T;
    type IntoIter = std::iter::Map<std::vec::IntoIter<(usize, Box<T>)>, fn((usize, Box<T>)) -> T>;
    fn into_iter(self) -> Self::IntoIter { self.slots.into_inner().into_iter().map(|s| *s.1) }
}
