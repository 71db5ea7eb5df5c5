//! Global allocator: counts allocations made by library code, fills fresh
//! memory with a pattern, and poisons and quarantines memory freed by library
//! code (or by dropping futures) until the end of the case, so that a dangling
//! use is seen deterministically.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct A;

pub static mut IN_CASE: bool = false;
pub static mut QUAR: bool = false;
pub static mut LIB_ALLOCS: u64 = 0;
pub static mut LIB_FREES: u64 = 0;
pub static mut LAST_SIZE: usize = 0;

const CAP: usize = 4096;
static mut Q: [(*mut u8, usize, usize); CAP] = [(core::ptr::null_mut(), 0, 0); CAP];
static mut QN: usize = 0;

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::rt::LIB {
            LIB_ALLOCS += 1;
            LAST_SIZE = l.size();
        }
        let p = System.alloc(l);
        if IN_CASE && l.size() <= 4096 && !p.is_null() {
            core::ptr::write_bytes(p, 0xA5, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if crate::rt::LIB {
            LIB_FREES += 1;
        }
        if IN_CASE && (crate::rt::LIB || QUAR) && QN < CAP {
            core::ptr::write_bytes(p, 0xA5, l.size());
            Q[QN] = (p, l.size(), l.align());
            QN += 1;
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if crate::rt::LIB {
            LIB_ALLOCS += 1;
            LAST_SIZE = new;
        }
        System.realloc(p, l, new)
    }
}

pub fn case_begin() {
    unsafe {
        IN_CASE = true;
        LIB_ALLOCS = 0;
        LIB_FREES = 0;
    }
}

pub fn counters() -> (u64, u64) {
    unsafe { (LIB_ALLOCS, LIB_FREES) }
}
pub fn restore(c: (u64, u64)) {
    unsafe { (LIB_ALLOCS, LIB_FREES) = c }
}

pub fn case_end() {
    unsafe {
        IN_CASE = false;
        QUAR = false;
        for i in 0..QN {
            let (p, s, a) = Q[i];
            System.dealloc(p, Layout::from_size_align_unchecked(s, a));
        }
        QN = 0;
    }
}

/// Runs `f` with frees quarantined.
pub fn quarantined<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = QUAR;
        QUAR = true;
        let r = f();
        QUAR = old;
        r
    }
}

/// Overwrites the stack below the caller.
#[inline(never)]
pub fn scrub() {
    let mut a = [0u8; 6144];
    unsafe { core::ptr::write_bytes(core::hint::black_box(a.as_mut_ptr()), 0xA5, a.len()) };
    core::hint::black_box(&mut a);
}

/// At the end of a case: did library code use the allocator?
pub fn verdict() -> Option<crate::engine::Failure> {
    unsafe {
        if LIB_ALLOCS + LIB_FREES == 0 {
            return None;
        }
        Some(crate::engine::Failure {
            kind: "alloc",
            msg: format!(
                "operations called the allocator: {LIB_ALLOCS} allocations, {LIB_FREES} frees, last size {LAST_SIZE}"
            ),
        })
    }
}
