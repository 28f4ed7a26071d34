//! A poisoning, delaying allocator: freed memory is filled with 0xDD and kept out of use for a
//! while, so that any use of a freed node shows as a crash or as wrong data, deterministically.
//! It also tells whether a watched address (the node whose hook is running) has been freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const RING: usize = 1 << 17;
const MAX_BYTES: usize = 96 << 20;

pub struct Quarantine {
    lock: AtomicBool,
    head: AtomicUsize,
    tail: AtomicUsize,
    bytes: AtomicUsize,
    ring: UnsafeCell<[(usize, usize, usize); RING]>,
}
unsafe impl Sync for Quarantine {}

pub const WATCHES: usize = 256;
thread_local! {
    static WATCH: [Cell<usize>; WATCHES] = const { [const { Cell::new(0) }; WATCHES] };
    static WATCH_HIT: [Cell<bool>; WATCHES] = const { [const { Cell::new(false) }; WATCHES] };
    static WATCH_LEN: Cell<usize> = const { Cell::new(0) };
}

pub fn watch_push(addr: usize) {
    let i = WATCH_LEN.get();
    WATCH_LEN.set(i + 1);
    if i < WATCHES {
        WATCH.with(|w| w[i].set(addr));
        WATCH_HIT.with(|w| w[i].set(false));
    }
}
pub fn watch_len() -> usize { WATCH_LEN.get() }
pub fn watch_truncate(n: usize) { WATCH_LEN.set(n); }
/// Whether the innermost watched address has been freed.
pub fn watch_hit() -> bool {
    let n = WATCH_LEN.get();
    n > 0 && n <= WATCHES && WATCH_HIT.with(|w| w[n - 1].get())
}

impl Quarantine {
    pub const fn new() -> Self {
        Quarantine {
            lock: AtomicBool::new(false), head: AtomicUsize::new(0), tail: AtomicUsize::new(0),
            bytes: AtomicUsize::new(0), ring: UnsafeCell::new([(0, 0, 0); RING]),
        }
    }
}

unsafe impl GlobalAlloc for Quarantine {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            let n = WATCH_LEN.get().min(WATCHES);
            for i in 0..n {
                if WATCH.with(|w| w[i].get()) == p as usize { WATCH_HIT.with(|w| w[i].set(true)); }
            }
            if l.size() > 8192 { return System.dealloc(p, l); }
            std::ptr::write_bytes(p, 0xDD, l.size());
            while self.lock.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
            let ring = &mut *self.ring.get();
            let mut head = self.head.load(Ordering::Relaxed);
            let mut tail = self.tail.load(Ordering::Relaxed);
            ring[head % RING] = (p as usize, l.size(), l.align());
            head += 1;
            let mut bytes = self.bytes.load(Ordering::Relaxed) + l.size();
            while head - tail >= RING || bytes > MAX_BYTES {
                let (q, s, a) = ring[tail % RING];
                tail += 1;
                bytes -= s;
                System.dealloc(q as *mut u8, Layout::from_size_align_unchecked(s, a));
            }
            self.head.store(head, Ordering::Relaxed);
            self.tail.store(tail, Ordering::Relaxed);
            self.bytes.store(bytes, Ordering::Relaxed);
            self.lock.store(false, Ordering::Release);
        }
    }
}
