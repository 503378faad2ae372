//! Counting and poisoning allocator. Counts per thread, so that a case can
//! bound what the calls it makes allocate; fills fresh and freed memory with a
//! per-thread byte, so that reads of memory nobody wrote become visible.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static POISON: Cell<u16> = const { Cell::new(0x1a5) };
}

#[cfg(not(feature = "san"))]
#[global_allocator]
static A: Counting = Counting;

pub const ACTIVE: bool = cfg!(not(feature = "san"));

/// Larger requests are not filled: nothing but a runaway reservation makes them.
const FILL_MAX: usize = 64 << 20;

fn on_alloc(size: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + size as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = LARGEST.try_with(|c| {
        if size as u64 > c.get() {
            c.set(size as u64)
        }
    });
}

fn poison() -> Option<u8> {
    POISON.try_with(|p| p.get()).ok().and_then(|v| if v & 0x100 != 0 { Some(v as u8) } else { None })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            on_alloc(l.size());
            if l.size() <= FILL_MAX {
                if let Some(b) = poison() {
                    std::ptr::write_bytes(p, b, l.size());
                }
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            on_alloc(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = CUR.try_with(|c| c.set(c.get() - l.size() as i64));
        if l.size() > FILL_MAX {
        } else if let Some(b) = poison() {
            std::ptr::write_bytes(p, b ^ 0x55, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// Highest live heap above the starting level.
    pub peak: i64,
    /// Live heap above the starting level at the end.
    pub left: i64,
    pub count: u64,
    pub largest: u64,
}

/// Runs `f` and reports what this thread allocated meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let cur0 = CUR.with(|c| c.get());
    PEAK.with(|c| c.set(cur0));
    LARGEST.with(|c| c.set(0));
    let n0 = COUNT.with(|c| c.get());
    let r = f();
    let u = Use {
        peak: PEAK.with(|c| c.get()) - cur0,
        left: CUR.with(|c| c.get()) - cur0,
        count: COUNT.with(|c| c.get()) - n0,
        largest: LARGEST.with(|c| c.get()),
    };
    (r, u)
}

/// Byte that fresh memory is filled with on this thread from now on.
pub fn set_poison(b: Option<u8>) {
    POISON.with(|p| p.set(match b {
        Some(b) => 0x100 | b as u16,
        None => 0,
    }));
}
