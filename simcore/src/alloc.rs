//! Global allocator that can be told to fail (and record) every request of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static HITS: Cell<u32> = const { Cell::new(0) };
}
pub struct FailingAlloc;
fn hit() -> bool {
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    if armed {
        let _ = HITS.try_with(|h| h.set(h.get() + 1));
    }
    armed
}
unsafe impl GlobalAlloc for FailingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // The request is recorded as a failed one. It is served all the same, so that the run can go on to
        // report it instead of dying in handle_alloc_error.
        hit();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit();
        System.realloc(p, l, n)
    }
}
/// Run `f` with every allocation of this thread recorded as denied; returns how many there were.
pub fn deny<T>(f: impl FnOnce() -> T) -> (T, u32) {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let before = HITS.with(|h| h.get());
    let g = G(ARMED.with(|a| a.replace(true)));
    let r = f();
    drop(g);
    (r, HITS.with(|h| h.get()) - before)
}
/// Simulator code running underneath library code may allocate, and is not stepped.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ARMED.with(|a| a.set(self.0));
        }
    }
    let _g = G(ARMED.with(|a| a.replace(false)));
    crate::native::pause(f)
}
