//! Counts the bytes the process holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

const SLOTS: usize = 64;

#[repr(align(128))]
struct Slot(AtomicI64);

static HELD: [Slot; SLOTS] = [const { Slot(AtomicI64::new(0)) }; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn add(n: i64) {
    let slot = SLOT
        .try_with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT.fetch_add(1, Relaxed) % SLOTS);
            }
            s.get()
        })
        .unwrap_or(0);
    HELD[slot].0.fetch_add(n, Relaxed);
}

/// Bytes allocated and not freed, in the whole process.
pub fn held() -> i64 {
    HELD.iter().map(|s| s.0.load(Relaxed)).sum()
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}
