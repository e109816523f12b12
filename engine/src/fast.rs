//! Cheaper hashing and allocation than the standard ones (the engine computes in one thread).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};

pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);

impl Fx {
    #[inline]
    fn add(&mut self, x: u64) {
        let m = (self.0 ^ x) as u128 * 0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835u128;
        self.0 = (m as u64) ^ ((m >> 64) as u64);
        self.0 = self.0.wrapping_add(0x2545_f491_4f6c_dd1d);
    }
}

impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for w in &mut c {
            self.add(u64::from_le_bytes(w.try_into().unwrap()));
        }
        let r = c.remainder();
        if !r.is_empty() {
            let mut w = [0u8; 8];
            w[..r.len()].copy_from_slice(r);
            self.add(u64::from_le_bytes(w) ^ ((r.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
}

/// Free lists by size (multiples of 16 up to 1024) over chunks of the system's allocator.
pub struct Lists {
    lock: AtomicBool,
    s: UnsafeCell<State>,
}

struct State {
    free: [*mut u8; 65],
    at: *mut u8,
    left: usize,
}

unsafe impl Sync for Lists {}

impl Lists {
    pub const fn new() -> Lists {
        Lists { lock: AtomicBool::new(false), s: UnsafeCell::new(State { free: [std::ptr::null_mut(); 65], at: std::ptr::null_mut(), left: 0 }) }
    }
    #[inline]
    fn enter(&self) {
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
    }
    #[inline]
    fn leave(&self) {
        self.lock.store(false, Ordering::Release);
    }
}

const CHUNK: usize = 1 << 20;

unsafe impl GlobalAlloc for Lists {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 1024 || l.align() > 16 {
            return System.alloc(l);
        }
        let k = (l.size() + 15) / 16;
        self.enter();
        let s = &mut *self.s.get();
        let mut p = s.free[k];
        if !p.is_null() {
            s.free[k] = *(p as *mut *mut u8);
        } else {
            let n = k.max(1) * 16;
            if s.left < n {
                let c = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if c.is_null() {
                    self.leave();
                    return c;
                }
                s.at = c;
                s.left = CHUNK;
            }
            p = s.at;
            s.at = s.at.add(n);
            s.left -= n;
        }
        self.leave();
        p
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 1024 || l.align() > 16 {
            return System.dealloc(p, l);
        }
        let k = (l.size() + 15) / 16;
        self.enter();
        let s = &mut *self.s.get();
        *(p as *mut *mut u8) = s.free[k];
        s.free[k] = p;
        self.leave();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if (l.size() > 1024 || l.align() > 16) && new > 1024 {
            return System.realloc(p, l, new);
        }
        if l.align() <= 16 && new <= 1024 && l.size() > 0 && (l.size() + 15) / 16 == (new + 15) / 16 {
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
