//! An allocator that keeps each block's layout in front of it and a canary behind it: it notices a deallocation with
//! another size or alignment, a second deallocation and a write past the end, fills freed memory, and counts what is held.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

pub struct Checking;

static HELD: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static FREED: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicU64 = AtomicU64::new(0);

/// bytes and blocks held
pub fn held() -> (i64, i64) {
    (HELD.load(SeqCst), BLOCKS.load(SeqCst))
}
pub fn freed() -> u64 {
    FREED.load(SeqCst)
}
/// What the allocator noticed so far.
pub fn fault() -> Option<&'static str> {
    match FAULT.load(SeqCst) {
        0 => None,
        1 => Some("memory was deallocated with another size or alignment than it was allocated with"),
        2 => Some("memory was deallocated twice, or was never allocated"),
        _ => Some("memory was written past its end"),
    }
}

#[cfg(not(any(miri, plain_alloc)))]
mod imp {
    use super::*;
    const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
    const DEAD: u64 = 0xdead_b10c_dead_b10c;
    const TAIL: [u8; 16] = [0xc5; 16];
    const HEAD: usize = 32;

    fn front(l: &Layout) -> usize {
        HEAD.max(l.align())
    }
    fn outer(l: &Layout) -> Layout {
        Layout::from_size_align(front(l) + l.size() + TAIL.len(), l.align().max(16)).expect("layout")
    }
    unsafe impl GlobalAlloc for Checking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(outer(&l));
            if p.is_null() {
                return p;
            }
            let u = p.add(front(&l));
            let h = u.sub(HEAD) as *mut u64;
            h.write(LIVE);
            h.add(1).write(l.size() as u64);
            h.add(2).write(l.align() as u64);
            std::ptr::copy_nonoverlapping(TAIL.as_ptr(), u.add(l.size()), TAIL.len());
            HELD.fetch_add(l.size() as i64, SeqCst);
            BLOCKS.fetch_add(1, SeqCst);
            u
        }
        unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
            let h = u.sub(HEAD) as *mut u64;
            if h.read() != LIVE {
                FAULT.store(2, SeqCst);
                return;
            }
            let was = Layout::from_size_align(h.add(1).read() as usize, h.add(2).read() as usize).expect("layout");
            if was != l {
                FAULT.store(1, SeqCst);
            }
            if std::slice::from_raw_parts(u.add(was.size()), TAIL.len()) != TAIL {
                FAULT.store(3, SeqCst);
            }
            h.write(DEAD);
            std::ptr::write_bytes(u, 0xdf, was.size());
            HELD.fetch_sub(was.size() as i64, SeqCst);
            BLOCKS.fetch_sub(1, SeqCst);
            FREED.fetch_add(1, SeqCst);
            System.dealloc(u.sub(front(&was)), outer(&was));
        }
    }
}
// where a sanitizer or Miri watches the memory, it is left alone
#[cfg(any(miri, plain_alloc))]
mod imp {
    use super::*;
    unsafe impl GlobalAlloc for Checking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            HELD.fetch_add(l.size() as i64, SeqCst);
            BLOCKS.fetch_add(1, SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            HELD.fetch_sub(l.size() as i64, SeqCst);
            BLOCKS.fetch_sub(1, SeqCst);
            FREED.fetch_add(1, SeqCst);
            System.dealloc(p, l)
        }
    }
}
