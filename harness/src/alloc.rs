//! A monitoring global allocator.
//!
//! Every block handed out is recorded with its layout. The monitor reports
//! * zero-sized requests (`GlobalAlloc` forbids them),
//! * frees or reallocations of pointers that are not live blocks,
//! * frees or reallocations with a layout other than the block's,
//! * writes outside of a block (red zones, checked when it is freed),
//! and keeps counts of calls and live blocks so that callers can check for
//! leaks and for allocations where there may be none. `realloc` always moves
//! the block and poisons the old one, so stale pointers become visible.
//! Fresh memory is filled with `FRESH`, freed memory with `FREED`.
//!
//! Under a sanitizer (cfg `plain_alloc`) the blocks come straight
//! from the system so that the sanitizer sees them; the layout ledger stays.

use core::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub const FRESH: u8 = 0x5A;
pub const FREED: u8 = 0xDD;
const GUARD: u8 = 0xA7;
/// requests above this size fail
pub const MAX_REQUEST: usize = 1 << 30;

#[cfg(any(miri, plain_alloc))]
const RED: bool = false;
#[cfg(not(any(miri, plain_alloc)))]
const RED: bool = true;

#[cfg(miri)]
const BITS: u32 = 12;
#[cfg(not(miri))]
const BITS: u32 = 20;
const TABLE: usize = 1 << BITS;

#[derive(Clone, Copy)]
struct Rec {
    ptr: usize,
    size: usize,
    align: usize,
    tracked: bool,
}

struct State {
    lock: AtomicBool,
    tab: UnsafeCell<[Rec; TABLE]>,
    used: AtomicUsize,
}

unsafe impl Sync for State {}

const EMPTY: usize = 0;
// no pointer: dangling ones are small
const TOMB: usize = usize::MAX;

static ST: State = State {
    lock: AtomicBool::new(false),
    tab: UnsafeCell::new([Rec { ptr: 0, size: 0, align: 0, tracked: false }; TABLE]),
    used: AtomicUsize::new(0),
};

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static REALLOCS: AtomicU64 = AtomicU64::new(0);
pub static FREES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
/// when > 0: counts down, and the request that takes it to 0 (and all later ones while `FAIL_STICKY`) fails
pub static FAIL_IN: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
static UNTRACKED: AtomicUsize = AtomicUsize::new(0);

/// Runs `f`, whose memory is counted, although the caller's is not
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct Back(usize);
    impl Drop for Back {
        fn drop(&mut self) {
            UNTRACKED.store(self.0, SeqCst);
        }
    }
    let _b = Back(UNTRACKED.swap(0, SeqCst));
    f()
}

/// Runs `f`; the memory it asks for belongs to the harness: it is not counted and never fails.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            let _ = UNTRACKED.fetch_sub(1, SeqCst);
        }
    }
    let _ = UNTRACKED.fetch_add(1, SeqCst);
    let _l = Leave;
    f()
}

static ERR_KIND: AtomicUsize = AtomicUsize::new(0);
static ERR_A: AtomicUsize = AtomicUsize::new(0);
static ERR_B: AtomicUsize = AtomicUsize::new(0);
static ERR_C: AtomicUsize = AtomicUsize::new(0);

fn err(kind: usize, a: usize, b: usize, c: usize) {
    if ERR_KIND.compare_exchange(0, kind, SeqCst, SeqCst).is_ok() {
        ERR_A.store(a, SeqCst);
        ERR_B.store(b, SeqCst);
        ERR_C.store(c, SeqCst);
    }
}

/// Takes the first recorded violation of the allocator's contract.
pub fn take_error() -> Option<String> {
    let kind = ERR_KIND.swap(0, SeqCst);
    let (a, b, c) = (ERR_A.load(SeqCst), ERR_B.load(SeqCst), ERR_C.load(SeqCst));
    let _ = a;
    match kind {
        0 => None,
        1 => Some(format!("zero-sized allocation request (align {})", b)),
        2 => Some(format!("free of a pointer that is not a live block (layout size {} align {})", b, c)),
        3 => Some(format!("free with a wrong layout: block has size {}, freed as size {}", b, c)),
        4 => Some(format!("free with a wrong alignment: block has {}, freed as {}", b, c)),
        5 => Some(format!("realloc of a pointer that is not a live block (old size {}, new size {})", b, c)),
        6 => Some(format!("zero-sized reallocation request (old size {})", b)),
        7 => Some(format!("write outside of a heap block of size {}, at offset {}", b, c as isize)),
        8 => Some(format!("zero-sized free (align {})", b)),
        _ => Some("allocator monitor: table full".to_string()),
    }
}

fn with<R>(f: impl FnOnce(&mut [Rec; TABLE]) -> R) -> R {
    while ST.lock.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *ST.tab.get() });
    ST.lock.store(false, SeqCst);
    r
}

fn slot(ptr: usize) -> usize {
    (ptr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - BITS)
}

fn insert(ptr: usize, size: usize, align: usize, tracked: bool) {
    let ok = with(|t| {
        let mut i = slot(ptr);
        for _ in 0..TABLE {
            if t[i].ptr == EMPTY || t[i].ptr == TOMB {
                t[i] = Rec { ptr, size, align, tracked };
                return true
            }
            i = (i + 1) % TABLE;
        }
        false
    });
    if !ok {
        err(9, 0, 0, 0)
    }
    let _ = ST.used.fetch_add(1, SeqCst);
}

/// The table of live blocks is nearly full (of blocks leaked on purpose)
pub fn nearly_full() -> bool {
    ST.used.load(SeqCst) > TABLE / 4 * 3
}

fn remove(ptr: usize) -> Option<Rec> {
    if ptr == EMPTY || ptr == TOMB {
        return None
    }
    let r = with(|t| {
        let mut i = slot(ptr);
        for _ in 0..TABLE {
            if t[i].ptr == ptr {
                let r = t[i];
                let next = t[(i + 1) % TABLE].ptr;
                if next == EMPTY {
                    // shorten the probe sequence again
                    t[i].ptr = EMPTY;
                    let mut j = (i + TABLE - 1) % TABLE;
                    while t[j].ptr == TOMB {
                        t[j].ptr = EMPTY;
                        j = (j + TABLE - 1) % TABLE;
                    }
                } else {
                    t[i].ptr = TOMB;
                }
                return Some(r)
            }
            if t[i].ptr == EMPTY {
                return None
            }
            i = (i + 1) % TABLE;
        }
        None
    });
    if r.is_some() {
        let _ = ST.used.fetch_sub(1, SeqCst);
    }
    r
}

fn lookup(ptr: usize) -> Option<Rec> {
    if ptr == EMPTY || ptr == TOMB {
        return None
    }
    with(|t| {
        let mut i = slot(ptr);
        for _ in 0..TABLE {
            if t[i].ptr == ptr {
                return Some(t[i])
            }
            if t[i].ptr == EMPTY {
                return None
            }
            i = (i + 1) % TABLE;
        }
        None
    })
}

/// The layout (size, align) of the live block at `ptr`
pub fn block_at<T>(ptr: *const T) -> Option<(usize, usize)> {
    lookup(ptr as usize).map(|r| (r.size, r.align))
}

pub struct MonAlloc;

fn pad(align: usize) -> usize {
    align.max(32)
}

unsafe fn raw_alloc(size: usize, align: usize) -> *mut u8 {
    if size > MAX_REQUEST {
        return core::ptr::null_mut()
    }
    if RED {
        let p = pad(align);
        let base = System.alloc(Layout::from_size_align_unchecked(size + p + 32, align.max(16)));
        if base.is_null() {
            return base
        }
        core::ptr::write_bytes(base, GUARD, p);
        core::ptr::write_bytes(base.add(p), FRESH, size);
        core::ptr::write_bytes(base.add(p + size), GUARD, 32);
        base.add(p)
    } else {
        System.alloc(Layout::from_size_align_unchecked(size.max(1), align))
    }
}

unsafe fn raw_check(ptr: *mut u8, size: usize, align: usize) {
    if RED {
        let p = pad(align);
        for i in 0..p {
            if *ptr.sub(i + 1) != GUARD {
                return err(7, 0, size, (-(i as isize) - 1) as usize)
            }
        }
        for i in 0..32 {
            if *ptr.add(size + i) != GUARD {
                return err(7, 0, size, size + i)
            }
        }
    }
}

unsafe fn raw_free(ptr: *mut u8, size: usize, align: usize) {
    if RED {
        raw_check(ptr, size, align);
        let p = pad(align);
        core::ptr::write_bytes(ptr, FREED, size);
        System.dealloc(ptr.sub(p), Layout::from_size_align_unchecked(size + p + 32, align.max(16)))
    } else {
        System.dealloc(ptr, Layout::from_size_align_unchecked(size.max(1), align))
    }
}

/// Checks the red zones of a live block
pub fn check_block<T>(ptr: *const T) {
    if let Some(r) = lookup(ptr as usize) {
        unsafe { raw_check(ptr as *mut u8, r.size, r.align) }
    }
}

fn should_fail() -> bool {
    let n = FAIL_IN.load(SeqCst);
    if n == 0 {
        return false
    }
    if n == 1 {
        let _ = FAILED.fetch_add(1, SeqCst);
        return true
    }
    FAIL_IN.store(n - 1, SeqCst);
    false
}

fn track() -> bool {
    UNTRACKED.load(SeqCst) == 0
}

unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if layout.size() == 0 {
            err(1, 0, layout.align(), 0)
        }
        let tracked = track();
        if tracked {
            let _ = ALLOCS.fetch_add(1, SeqCst);
            if should_fail() {
                return core::ptr::null_mut()
            }
        }
        let ptr = raw_alloc(layout.size(), layout.align());
        if !ptr.is_null() {
            insert(ptr as usize, layout.size(), layout.align(), tracked);
            if tracked {
                let _ = LIVE.fetch_add(1, SeqCst);
                let _ = LIVE_BYTES.fetch_add(layout.size() as u64, SeqCst);
            }
        }
        ptr
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if layout.size() == 0 {
            err(8, 0, layout.align(), 0)
        }
        match remove(ptr as usize) {
            None => err(2, ptr as usize, layout.size(), layout.align()),
            Some(r) => {
                if r.size != layout.size() {
                    err(3, ptr as usize, r.size, layout.size())
                } else if r.align != layout.align() {
                    err(4, ptr as usize, r.align, layout.align())
                }
                if r.tracked {
                    let _ = FREES.fetch_add(1, SeqCst);
                    let _ = LIVE.fetch_sub(1, SeqCst);
                    let _ = LIVE_BYTES.fetch_sub(r.size as u64, SeqCst);
                }
                raw_free(ptr, r.size, r.align)
            }
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if new_size == 0 {
            err(6, 0, layout.size(), 0)
        }
        let r = match lookup(ptr as usize) {
            None => {
                err(5, ptr as usize, layout.size(), new_size);
                return core::ptr::null_mut()
            }
            Some(r) => r,
        };
        if r.size != layout.size() {
            err(3, ptr as usize, r.size, layout.size())
        } else if r.align != layout.align() {
            err(4, ptr as usize, r.align, layout.align())
        }
        if r.tracked {
            let _ = REALLOCS.fetch_add(1, SeqCst);
            if should_fail() {
                return core::ptr::null_mut()
            }
        }
        let new = raw_alloc(new_size, r.align);
        if new.is_null() {
            return new
        }
        core::ptr::copy_nonoverlapping(ptr, new, r.size.min(new_size));
        let _ = remove(ptr as usize);
        raw_free(ptr, r.size, r.align);
        insert(new as usize, new_size, r.align, r.tracked);
        if r.tracked {
            let _ = LIVE_BYTES.fetch_sub(r.size as u64, SeqCst);
            let _ = LIVE_BYTES.fetch_add(new_size as u64, SeqCst);
        }
        new
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Counts {
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub live: u64,
    pub bytes: u64,
}

pub fn counts() -> Counts {
    Counts {
        allocs: ALLOCS.load(SeqCst),
        reallocs: REALLOCS.load(SeqCst),
        frees: FREES.load(SeqCst),
        live: LIVE.load(SeqCst),
        bytes: LIVE_BYTES.load(SeqCst),
    }
}

impl Counts {
    /// Number of requests for memory since `self`
    pub fn requests_since(&self) -> u64 {
        let now = counts();
        now.allocs + now.reallocs - self.allocs - self.reallocs
    }
}

/// Lets the `n`th request from now (1 = the next) and all later ones fail, while `f` runs.
pub fn failing<R>(n: u64, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            FAIL_IN.store(0, SeqCst)
        }
    }
    let _r = Reset;
    FAIL_IN.store(n, SeqCst);
    f()
}
