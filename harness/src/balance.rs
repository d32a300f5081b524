//! Counts what each thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn note(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
}
// SAFETY: everything is left to `System`
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// (bytes, blocks) this thread holds
pub fn held() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
