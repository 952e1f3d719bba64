//! The violation recorder, the ledger of tracked elements and the fuse that
//! makes user callbacks panic. One ledger per case, single threaded.

use crate::alloc::untracked;
use std::cell::{Cell, RefCell};

/// The payload of the panic that ends a case on a violation.
pub struct Violation(pub String);
/// The payload of an injected panic.
pub struct FusePanic(pub u64);

pub fn violation(msg: String) -> ! {
    untracked(|| std::panic::resume_unwind(Box::new(Violation(msg))))
}

#[macro_export]
macro_rules! violate {
    ($($t:tt)*) => { $crate::mon::violation($crate::alloc::untracked(|| format!($($t)*))) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !($c) { $crate::violate!($($t)*) } };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            $crate::mon::violation($crate::alloc::untracked(|| format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)))
        }
    }};
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St {
    Live,
    Dropped,
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub val: u32,
    pub st: St,
    pub stamp: u32,
}

#[derive(Default)]
pub struct Ledger {
    pub recs: Vec<Rec>,
    pub live: usize,
    pub zlive: isize,
    pub made: u64,
    pub dropped: u64,
    pub clones: u64,
    pub stamp: u32,
    pub err: Option<String>,
    pub checks: u64,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static TICKS: Cell<u64> = Cell::new(0);
    static ARM: Cell<u64> = Cell::new(0);
    static MASK: Cell<u32> = Cell::new(!0);
    static FIRED: Cell<u32> = Cell::new(0);
    static TRACE: Cell<u64> = Cell::new(0);
    static BYKIND: Cell<[u64; 8]> = Cell::new([0; 8]);
}

pub fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    untracked(|| LEDGER.with(|l| f(&mut *l.borrow_mut())))
}

/// Everything that user callbacks saw so far, and the order they ran in
pub fn trace() -> u64 {
    TRACE.with(|t| t.get())
}
/// Something happened in a user callback
pub fn note(x: u64) {
    TRACE.with(|t| t.set(crate::rng::mix(t.get(), x)))
}

pub fn reset() {
    TRACE.with(|t| t.set(0));
    ledger(|l| {
        l.recs.clear();
        l.live = 0;
        l.zlive = 0;
        l.stamp = 0;
        l.err = None;
    });
    disarm();
}

impl Ledger {
    pub fn fail(&mut self, msg: String) {
        if self.err.is_none() {
            self.err = Some(msg)
        }
    }
    pub fn make(&mut self, val: u32) -> u32 {
        note(val as u64 + 1);
        self.recs.push(Rec { val, st: St::Live, stamp: 0 });
        self.live += 1;
        self.made += 1;
        self.recs.len() as u32
    }
    /// An element is being used: it must be live
    pub fn seen(&mut self, id: u32, what: &str) -> u32 {
        match self.recs.get((id as usize).wrapping_sub(1)) {
            None => {
                self.fail(format!("{} of garbage memory (no such element: {:#x})", what, id));
                0
            }
            Some(r) if r.st == St::Dropped => {
                let v = r.val;
                self.fail(format!("{} of element #{}, which has already been dropped", what, id));
                v
            }
            Some(r) => r.val,
        }
    }
    pub fn drop(&mut self, id: u32) {
        self.dropped += 1;
        note(id as u64 | 1 << 40);
        let i = (id as usize).wrapping_sub(1);
        if i >= self.recs.len() {
            self.fail(format!("destructor ran on garbage memory (no such element: {:#x})", id));
        } else if self.recs[i].st == St::Dropped {
            self.fail(format!("element #{} (value {}) was dropped twice", id, self.recs[i].val));
        } else {
            self.recs[i].st = St::Dropped;
            self.live -= 1;
        }
    }
}

/// How many tracked elements (zero-sized ones too) are alive
pub fn live() -> isize {
    ledger(|l| l.live as isize + l.zlive)
}

/// Fails the case if the ledger or the allocator monitor has seen a violation
pub fn check_errors(what: &str) {
    let e = ledger(|l| l.err.take());
    if let Some(e) = e {
        violate!("{} [{}]", e, what)
    }
    if let Some(e) = untracked(crate::alloc::take_error) {
        violate!("allocator: {} [{}]", e, what)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Kind {
    Clone = 1,
    Drop = 2,
    Eq = 4,
    Pred = 8,
    Next = 16,
    Make = 32,
    Other = 64,
}

/// A user callback runs. Panics if the fuse is armed for this tick.
pub fn tick(kind: Kind) {
    note((kind as u64) << 50);
    if MASK.with(|m| m.get()) & kind as u32 == 0 {
        return
    }
    let n = TICKS.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    BYKIND.with(|b| {
        let mut a = b.get();
        a[(kind as u32).trailing_zeros() as usize] += 1;
        b.set(a)
    });
    if ARM.with(|a| a.get()) == n && !std::thread::panicking() {
        FIRED.with(|f| f.set(kind as u32));
        untracked(|| std::panic::resume_unwind(Box::new(FusePanic(n))))
    }
}

/// Counts ticks from 0 again; the `k`th one panics (k = 0: none)
pub fn arm(k: u64, mask: u32) {
    TICKS.with(|t| t.set(0));
    ARM.with(|a| a.set(k));
    MASK.with(|m| m.set(mask));
    FIRED.with(|f| f.set(0));
}

pub fn disarm() -> u64 {
    let n = TICKS.with(|t| t.get());
    arm(0, !0);
    n
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
/// The kind of the callback in which the fuse blew (0: it did not)
pub fn fired() -> u32 {
    FIRED.with(|f| f.get())
}
pub fn by_kind() -> [u64; 8] {
    BYKIND.with(|b| b.get())
}

/// How a call ended
#[derive(Debug)]
pub enum End<R> {
    Ok(R),
    /// an injected panic
    Fuse,
    /// a panic of the code under test, with its message
    Panic(String),
}

impl<R> End<R> {
    pub fn name(&self) -> &'static str {
        match self {
            End::Ok(_) => "returned",
            End::Fuse => "injected panic",
            End::Panic(_) => "panicked",
        }
    }
    pub fn panicked(&self) -> bool {
        matches!(self, End::Panic(_))
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        untracked(|| {
            let s = info.to_string();
            // the process will be ended: these are the last words
            if ["unsafe precondition", "cannot unwind", "during cleanup", "pointer dereference", "enum from invalid"].iter().any(|x| s.contains(x)) {
                eprintln!("{}", s);
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = s)
        })
    }));
}

pub fn last_panic() -> String {
    untracked(|| LAST_PANIC.with(|l| l.borrow().clone()))
}

/// Runs `f`, and tells how it ended. A violation found inside is passed on.
pub fn run<R>(f: impl FnOnce() -> R) -> End<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => End::Ok(r),
        Err(e) => {
            if e.is::<Violation>() {
                untracked(|| std::panic::resume_unwind(e))
            } else if e.is::<FusePanic>() {
                untracked(|| drop(e));
                End::Fuse
            } else {
                // the payload was allocated by the panic machinery
                drop(e);
                End::Panic(last_panic())
            }
        }
    }
}
