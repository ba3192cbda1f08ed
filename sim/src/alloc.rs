//! Allocation at reproducible addresses inside a simulated process.
//!
//! Lock tables (parking_lot) and some hashers depend on addresses. A simulated process takes all its
//! Rust allocations from a region at a fixed address, so that they do not depend on the parent's heap.
use crate::os::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 3 << 30;
static mut ON: bool = false;
static mut TOP: usize = 0;
static mut SMALL: [usize; 66] = [0; 66];
static mut WIDE: [usize; 66] = [0; 66];
static mut BIG: [usize; 160] = [0; 160];
static LOCK: AtomicBool = AtomicBool::new(false);

pub struct Alloc;
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// call in a fresh child before anything else runs
pub fn enable() {
    unsafe {
        let p = sys(libc::SYS_mmap, BASE, SIZE, (libc::PROT_READ | libc::PROT_WRITE) as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as usize, usize::MAX, 0);
        if p as usize != BASE { return; }
        TOP = BASE;
        ON = true;
    }
}
fn big_class(n: usize) -> (usize, usize) {
    // four steps per power of two, from 1024
    let mut c = 0;
    let mut s = 1024;
    loop {
        for k in 0..4 {
            let z = s + s / 4 * (k + 1);
            if n <= z { return (c, z); }
            c += 1;
        }
        s *= 2;
    }
}
/// (free list, size of its members, alignment)
unsafe fn class(l: &Layout) -> (*mut usize, usize, usize) {
    let n = l.size().max(l.align()).max(16);
    if l.align() <= 16 {
        if n <= 1024 { let k = n.div_ceil(16); (&raw mut SMALL[k], k * 16, 16) }
        else { let (c, z) = big_class(n); if c < 160 { (&raw mut BIG[c], z, 16) } else { (core::ptr::null_mut(), n, 16) } }
    } else if l.align() <= 128 && n <= 8192 { let k = n.div_ceil(128); (&raw mut WIDE[k], k * 128, 128) }
    else { (core::ptr::null_mut(), n, l.align()) }
}
fn lock() { while LOCK.swap(true, Ordering::Acquire) { std::hint::spin_loop(); } }
fn unlock() { LOCK.store(false, Ordering::Release) }

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON { return System.alloc(l); }
        if l.size() > SIZE { return core::ptr::null_mut(); }
        let (f, n, a) = class(&l);
        lock();
        let mut p = 0;
        if !f.is_null() && *f != 0 {
            p = *f;
            *f = *(p as *const usize);
        } else {
            let t = (TOP + a - 1) & !(a - 1);
            if t + n <= BASE + SIZE { p = t; TOP = t + n; }
        }
        unlock();
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let x = p as usize;
        if x < BASE || x >= BASE + SIZE { if !ON { System.dealloc(p, l); } return; }
        let (f, _, _) = class(&l);
        if f.is_null() { return; }
        lock();
        *(p as *mut usize) = *f;
        *f = x;
        unlock();
    }
}
