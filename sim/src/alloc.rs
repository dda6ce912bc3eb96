//! The simulated heap: a fixed-address arena with size-class free lists. Addresses and contents of
//! fresh memory are decided by the simulator, every allocation made by code under test is a
//! possible preemption point, and live bytes are counted.

use crate::sys;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

const BASE: usize = 0x6100_0000_0000;
const ARENA: usize = 3 << 30;
const CLASSES: usize = 160;

struct State {
    next: usize,
    free: [usize; CLASSES],
    skew: usize,
    fill: u8,
    lifo: bool,
}

pub struct SimHeap {
    lock: AtomicBool,
    st: UnsafeCell<State>,
}

unsafe impl Sync for SimHeap {}

#[global_allocator]
pub static HEAP: SimHeap = SimHeap {
    lock: AtomicBool::new(false),
    st: UnsafeCell::new(State {
        next: 0,
        free: [0; CLASSES],
        skew: 0,
        fill: 0xAA,
        lifo: true,
    }),
};

/// Allocations made while library code runs, and bytes and blocks of those that are still live.
pub static LIB_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIVE_BLOCKS: AtomicUsize = AtomicUsize::new(0);
/// Allocations by library code in this run; beyond `LIMIT` the run is a runaway.
pub static RUN_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub const RUN_ALLOC_LIMIT: u64 = 60_000_000;

/// The largest number of live bytes of library allocations since `watch_peak`.
pub static PEAK: AtomicUsize = AtomicUsize::new(0);

/// Which allocations of library code fail.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shortage {
    None,
    /// This one, counted from now.
    At(u64),
    /// This one and all later ones.
    From(u64),
    /// Those of more than this many bytes.
    Larger(usize),
    /// Those that would leave more than this many bytes in use.
    Quota(usize),
}

static SHORT: AtomicU64 = AtomicU64::new(0);
static SHORT_ARG: AtomicU64 = AtomicU64::new(0);
static SHORT_SEEN: AtomicU64 = AtomicU64::new(0);
static SHORT_BASE: AtomicUsize = AtomicUsize::new(0);
/// Where to note a refusal.
pub static REFUSED_TO: AtomicUsize = AtomicUsize::new(0);

pub fn shortage(s: Shortage) {
    let (k, a) = match s {
        Shortage::None => (0, 0),
        Shortage::At(n) => (1, n),
        Shortage::From(n) => (2, n),
        Shortage::Larger(n) => (3, n as u64),
        Shortage::Quota(n) => (4, n as u64),
    };
    SHORT_ARG.store(a, Relaxed);
    SHORT_SEEN.store(0, Relaxed);
    SHORT_BASE.store(LIVE.load(Relaxed), Relaxed);
    SHORT.store(k, Relaxed);
}

fn refused(size: usize) -> bool {
    let k = SHORT.load(Relaxed);
    if k == 0 {
        return false;
    }
    let n = SHORT_SEEN.fetch_add(1, Relaxed);
    let a = SHORT_ARG.load(Relaxed);
    let r = match k {
        1 => n == a,
        2 => n >= a,
        3 => size as u64 > a,
        _ => (LIVE.load(Relaxed) + size).saturating_sub(SHORT_BASE.load(Relaxed)) as u64 > a,
    };
    if r {
        let p = REFUSED_TO.load(Relaxed) as *mut u64;
        if !p.is_null() {
            unsafe { *p += 1 };
        }
    }
    r
}

pub fn watch_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}

const HDR: usize = 16;

fn class(size: usize) -> (usize, usize) {
    // four classes per power of two, from 16 bytes
    let size = size.max(16);
    let p = usize::BITS as usize - 1 - size.leading_zeros() as usize;
    let base = 1 << p;
    let step = base / 4;
    let k = (size - base).div_ceil(step.max(1));
    if k == 4 {
        ((p + 1 - 4) * 4, base * 2)
    } else {
        ((p - 4) * 4 + k, base + k * step)
    }
}

impl SimHeap {
    fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R {
        // simulated threads run one at a time; this only guards unsimulated ones
        while self.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.st.get() });
        self.lock.store(false, Release);
        r
    }
}

unsafe impl GlobalAlloc for SimHeap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let inside = sys::INSIDE.try_with(Cell::get).unwrap_or(false);
        if inside {
            LIB_ALLOCS.fetch_add(1, Relaxed);
            if RUN_ALLOCS.fetch_add(1, Relaxed) == RUN_ALLOC_LIMIT {
                crate::engine::die("runaway-allocations");
            }
            crate::sched::point(1);
            if refused(l.size()) {
                return std::ptr::null_mut();
            }
        }
        let align = l.align().max(16);
        let (c, sz) = class(l.size() + HDR + if align > 16 { align } else { 0 });
        let p = self.with(|s| {
            if s.next == 0 {
                let r = sys::mmap(BASE as *mut _, ARENA, 3, 0x22 | 0x10_0000 | 0x4000, -1, 0);
                if r as usize != BASE {
                    sys::write(2, b"jdsim: cannot map the simulated heap\n".as_ptr().cast(), 37);
                    sys::_exit(2);
                }
                s.next = BASE + 4096;
            }
            if s.lifo && s.free[c] != 0 {
                let p = s.free[c];
                s.free[c] = *(p as *const usize);
                return p;
            }
            let sz = (sz + 15) & !15;
            let p = s.next;
            if p + sz > BASE + ARENA - (1 << 20) {
                return 0;
            }
            s.next += sz + s.skew;
            p
        });
        if p == 0 {
            if inside {
                crate::engine::die("runaway-memory");
            }
            return std::ptr::null_mut();
        }
        let u = (p + HDR + align - 1) & !(align - 1);
        // header: block start and class, attribution
        let track = inside;
        *((u - 8) as *mut u32) = (u - p) as u32;
        *((u - 4) as *mut u32) = (c as u32) | if track { 1 << 31 } else { 0 };
        if track {
            let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            if live > PEAK.load(Relaxed) {
                PEAK.store(live, Relaxed);
            }
            LIVE_BLOCKS.fetch_add(1, Relaxed);
        }
        let fill = (*self.st.get()).fill;
        if fill != 0 && l.size() <= 4096 {
            std::ptr::write_bytes(u as *mut u8, fill, l.size());
        }
        u as *mut u8
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let u = u as usize;
        let off = *((u - 8) as *const u32) as usize;
        let w = *((u - 4) as *const u32);
        if w >> 31 == 1 {
            LIVE.fetch_sub(l.size(), Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
        }
        let p = u - off;
        let c = (w & 0x7fff_ffff) as usize;
        if l.size() <= 4096 {
            // stale data must not survive unnoticed
            std::ptr::write_bytes(u as *mut u8, 0xDD, l.size());
        }
        self.with(|s| {
            *(p as *mut usize) = s.free[c];
            s.free[c] = p;
        });
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let cap = {
            let u = p as usize;
            let off = *((u - 8) as *const u32) as usize;
            let c = (*((u - 4) as *const u32) & 0x7fff_ffff) as usize;
            class_size(c) - off
        };
        let inside = sys::INSIDE.try_with(Cell::get).unwrap_or(false);
        if new <= cap && new > l.size() / 2 && !inside {
            let w = *((p as usize - 4) as *const u32);
            if w >> 31 == 0 {
                return p;
            }
        }
        let n = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(n);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

fn class_size(c: usize) -> usize {
    let p = c / 4 + 4;
    let base = 1usize << p;
    base + (c % 4) * (base / 4)
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Layouting {
    pub skew: usize,
    pub fill: u8,
    pub no_reuse: bool,
}

pub fn set_layout(l: Layouting) {
    HEAP.with(|s| {
        s.skew = (l.skew + 15) & !15;
        s.fill = l.fill;
        s.lifo = !l.no_reuse;
    });
}

/// Run code of the library under test.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            sys::INSIDE.with(|i| i.set(self.0));
        }
    }
    let _r = Reset(sys::INSIDE.with(|i| i.replace(true)));
    f()
}

/// Run code of the simulator that was called from the library (sinks, event sources).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            sys::INSIDE.with(|i| i.set(self.0));
        }
    }
    let _r = Reset(sys::INSIDE.with(|i| i.replace(false)));
    f()
}
