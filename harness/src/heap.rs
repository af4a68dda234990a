//! Counts what the library does with the heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static WATCHED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn count() {
    let _ = WATCHED.try_with(|w| {
        if w.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}
// SAFETY: everything is left to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static HEAP: Counting = Counting;

struct Back(bool);
impl Drop for Back {
    fn drop(&mut self) {
        WATCHED.with(|w| w.set(self.0));
    }
}
fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
    let _b = Back(WATCHED.with(|w| w.replace(on)));
    f()
}
/// Carries out a call of the library.
pub fn watch<R>(f: impl FnOnce() -> R) -> R {
    with(true, f)
}
/// Carries out what the user does in the middle of a call.
pub fn pause<R>(f: impl FnOnce() -> R) -> R {
    with(false, f)
}
/// How often memory was allocated or freed in calls since the last time.
pub fn take() -> u64 {
    COUNT.with(|c| c.replace(0))
}
