//! Vectors are Send and Sync exactly when what they hold is, and can then be
//! sent to and shared with other threads.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
#![allow(clippy::all)]

use generic_vec::iter::{Cursor, Drain, DrainFilter, IntoIter, RawCursor, Splice};
use generic_vec::raw::{Storage, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::GenericVec;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::Arc;
use vharness::alloc::untracked;
use vharness::cx::Cx;
use vharness::mon::Violation;
use vharness::rng::Rng;
use vharness::stores::Zone;
use vharness::{check, check_eq, drive, violate};

// ---- the auto traits of a type, found at run time ----

struct Probe<T: ?Sized>(PhantomData<T>);
trait Neither {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Neither for Probe<T> {}
struct PSend<T: ?Sized>(PhantomData<T>);
struct PSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Neither for PSend<T> {}
impl<T: ?Sized> Neither for PSync<T> {}
impl<T: ?Sized + Send> PSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> PSync<T> {
    const SYNC: bool = true;
}
macro_rules! auto {
    ($t:ty) => {
        (<PSend<$t>>::SEND, <PSync<$t>>::SYNC)
    };
}

/// Marks: which auto traits a type has
type SS = PhantomData<u8>;
type SN = PhantomData<Cell<u8>>;
#[derive(Clone, Copy)]
struct NSMark(*const u8);
unsafe impl Sync for NSMark {}
type NS = PhantomData<NSMark>;
type NN = PhantomData<*const u8>;

/// A type with the auto traits of `M`, and a size
#[derive(Clone, Copy)]
struct It<M>(u32, PhantomData<M>);

/// A storage with the auto traits of `M` alone
struct St<T, M>(PhantomData<M>, [core::mem::MaybeUninit<u64>; 2], PhantomData<fn(T)>);
unsafe impl<T, M> Storage<T> for St<T, M> {
    const IS_ALIGNED: bool = core::mem::align_of::<T>() <= 8;
    fn capacity(&self) -> usize {
        16 / core::mem::size_of::<T>().max(1)
    }
    fn as_ptr(&self) -> *const T {
        self.1.as_ptr() as *const T
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.1.as_mut_ptr() as *mut T
    }
    fn reserve(&mut self, n: usize) {
        assert!(n <= Storage::<T>::capacity(self))
    }
    fn try_reserve(&mut self, n: usize) -> bool {
        n <= Storage::<T>::capacity(self)
    }
}

/// A replacement with the auto traits of `M` alone
struct Rep<T, M>(PhantomData<M>, PhantomData<fn() -> T>);
impl<T, M> Iterator for Rep<T, M> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        None
    }
}

type Row = (&'static str, &'static str, (bool, bool), (bool, bool));

fn both(a: (bool, bool), b: (bool, bool)) -> (bool, bool) {
    (a.0 && b.0, a.1 && b.1)
}

macro_rules! row {
    ($v:ident, $want:expr, $($t:tt)*) => {
        $v.1.push((stringify!($($t)*), $v.0, auto!($($t)*), $want))
    };
}

/// All types for the element type `It<$m>` and the storage mark `$n`
macro_rules! table {
    ($v:ident, $m:ty, $n:ty) => {{
        type T = It<$m>;
        let m: (bool, bool) = auto!($m);
        let n: (bool, bool) = auto!($n);
        check_eq!(auto!(T), m, "auto traits of the element");
        let mn = both(m, n);
        $v.0 = concat!("elements ", stringify!($m), ", other parts ", stringify!($n));
        let yes = (true, true);
        // raw memory belongs to nobody
        row!($v, yes, UninitBuffer<[It<$n>; 4], It<$n>>);
        row!($v, yes, UninitSlice<It<$n>>);
        row!($v, yes, &'static mut UninitSlice<It<$n>>);
        row!($v, n, ZeroSized<It<$n>>);
        // vectors in raw memory
        row!($v, m, GenericVec<T, UninitBuffer<[T; 4], T>>);
        row!($v, m, GenericVec<T, UninitBuffer<[It<$n>; 4], u64>>);
        row!($v, m, GenericVec<T, &'static mut UninitSlice<T>>);
        row!($v, m, GenericVec<T, &'static mut UninitSlice<It<$n>>>);
        row!($v, m, GenericVec<T, UninitSlice<It<$n>>>);
        row!($v, m, GenericVec<$m, ZeroSized<$m>>);
        // vectors in initialised memory
        row!($v, m, GenericVec<T, [T; 4]>);
        row!($v, m, GenericVec<T, &'static mut [T]>);
        row!($v, m, GenericVec<T, [T]>);
        // vectors in other storage
        row!($v, mn, GenericVec<T, St<T, $n>>);
        row!($v, mn, GenericVec<T, &'static mut St<T, $n>>);
        row!($v, mn, &'static mut GenericVec<T, St<T, $n>>);
        // iterators
        row!($v, mn, IntoIter<T, St<T, $n>>);
        row!($v, m, IntoIter<T, UninitBuffer<[It<$n>; 4], u64>>);
        row!($v, mn, RawCursor<'static, T, St<T, $n>>);
        row!($v, mn, Cursor<'static, T, St<T, $n>>);
        row!($v, mn, Drain<'static, T, St<T, $n>>);
        row!($v, m, Drain<'static, T, UninitSlice<It<$n>>>);
        row!($v, m, RawCursor<'static, T, UninitSlice<It<$n>>>);
        row!($v, mn, DrainFilter<'static, T, St<T, $n>, fn(&mut T) -> bool>);
        row!($v, both(m, (false, false)), DrainFilter<'static, T, St<T, SS>, Box<dyn FnMut(&mut T) -> bool>>);
        row!($v, both(m, (true, false)), DrainFilter<'static, T, St<T, SS>, Box<dyn FnMut(&mut T) -> bool + Send>>);
        row!($v, mn, Splice<'static, T, St<T, $n>, Rep<T, SS>>);
        row!($v, mn, Splice<'static, T, St<T, SS>, Rep<T, $n>>);
        heap_rows!($v, $m, $n, m, n);
    }};
}

#[cfg(not(feature = "alloc"))]
macro_rules! heap_rows {
    ($v:ident, $m:ty, $n:ty, $a:expr, $b:expr) => {};
}
#[cfg(feature = "alloc")]
macro_rules! heap_rows {
    ($v:ident, $m:ty, $n:ty, $a:expr, $b:expr) => {{
        use generic_vec::raw::Heap;
        use generic_vec::HeapVec;
        row!($v, (true, true), Heap<It<$n>>);
        row!($v, (true, true), Box<UninitSlice<It<$n>>>);
        row!($v, $a, GenericVec<It<$m>, Box<UninitBuffer<[It<$n>; 4], u64>>>);
        row!($v, $a, GenericVec<It<$m>, Box<[It<$m>; 4]>>);
        row!($v, both($a, $b), GenericVec<It<$m>, Box<St<It<$m>, $n>>>);
        row!($v, $a, IntoIter<It<$m>, Box<UninitBuffer<[It<$n>; 4], u64>>>);
        row!($v, $a, HeapVec<It<$m>>);
        row!($v, $a, GenericVec<It<$m>, Heap<It<$n>>>);
        row!($v, $a, GenericVec<It<$m>, &'static mut Heap<It<$n>>>);
        row!($v, $a, IntoIter<It<$m>, Heap<It<$n>>>);
        row!($v, $a, Drain<'static, It<$m>, Heap<It<$n>>>);
        row!($v, $a, Cursor<'static, It<$m>, Heap<It<$n>>>);
        alloc_rows!($v, $m, $n, $a, $b);
    }};
}

#[cfg(all(feature = "alloc", not(feature = "nightly")))]
macro_rules! alloc_rows {
    ($v:ident, $m:ty, $n:ty, $a:expr, $b:expr) => {};
}
#[cfg(feature = "nightly")]
macro_rules! alloc_rows {
    ($v:ident, $m:ty, $n:ty, $a:expr, $b:expr) => {{
        row!($v, $b, Heap<It<$m>, Al<$n>>);
        row!($v, both($a, $b), HeapVec<It<$m>, Al<$n>>);
        row!($v, both($a, $b), IntoIter<It<$m>, Heap<It<$m>, Al<$n>>>);
        row!($v, both($a, $b), Drain<'static, It<$m>, Heap<It<$m>, Al<$n>>>);
    }};
}
#[cfg(feature = "nightly")]
struct Al<M>(PhantomData<M>);
#[cfg(feature = "nightly")]
unsafe impl<M> std::alloc::Allocator for Al<M> {
    fn allocate(&self, _: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, std::alloc::AllocError> {
        Err(std::alloc::AllocError)
    }
    unsafe fn deallocate(&self, _: std::ptr::NonNull<u8>, _: std::alloc::Layout) {}
}

fn tables() -> Vec<Row> {
    let mut v: (&'static str, Vec<Row>) = ("", Vec::new());
    macro_rules! all {
        ($($m:ty),*) => {$(
            table!(v, $m, SS);
            table!(v, $m, SN);
            table!(v, $m, NS);
            table!(v, $m, NN);
        )*};
    }
    all!(SS, SN, NS, NN);
    v.1
}

fn probe(cx: &mut Cx) {
    let t = untracked(tables);
    // one case looks at a part of the table, in any order
    let k = if cx.scale == 0 { t.len() } else { 40 };
    for j in 0..k {
        let (name, marks, got, want) = t[if k == t.len() { j } else { cx.rng.below(t.len()) }];
        cx.log(|| format!("{} [{}]: Send {}, Sync {}", name, marks, got.0, got.1));
        check_eq!(got, want, "(Send, Sync) of {} with {} (SS: both, SN: Send, NS: Sync, NN: neither)", name, marks);
        cx.op(match got {
            (true, true) => "Send and Sync",
            (true, false) => "Send only",
            (false, true) => "Sync only",
            _ => "neither",
        });
        let h = |s: &str| s.bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64);
        cx.hash(h(name) ^ h(marks));
    }
    cx.nontrivial = true;
    untracked(|| drop(t));
}

// ---- vectors on several threads ----

/// Counts the drops of elements; elements know their number
struct Board {
    drops: Vec<AtomicU32>,
    next: AtomicUsize,
}
impl Board {
    fn new(n: usize) -> Arc<Board> {
        untracked(|| Arc::new(Board { drops: (0..n).map(|_| AtomicU32::new(0)).collect(), next: AtomicUsize::new(0) }))
    }
    fn make(self: &Arc<Self>, val: u64) -> El {
        let id = self.next.fetch_add(1, Relaxed);
        check!(id < self.drops.len(), "harness: the board is full");
        El { id, val: Box::new(val), board: self.clone() }
    }
    fn full(&self) -> bool {
        self.next.load(Relaxed) + 200 > self.drops.len()
    }
    fn finish(&self, lost: usize, what: &str) {
        let n = self.next.load(Relaxed);
        let mut live = 0;
        for i in 0..n {
            match self.drops[i].load(Relaxed) {
                1 => {}
                0 => live += 1,
                k => violate!("element {} was dropped {} times [{}]", i, k, what),
            }
        }
        check_eq!(live, lost, "elements never dropped [{}]", what);
    }
}
struct El {
    id: usize,
    val: Box<u64>,
    board: Arc<Board>,
}
impl Clone for El {
    fn clone(&self) -> El {
        self.board.make(*self.val)
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.id == o.id && self.val == o.val
    }
}
impl Drop for El {
    fn drop(&mut self) {
        let _ = self.board.drops[self.id].fetch_add(1, Relaxed);
    }
}
type M = Vec<(usize, u64)>;
fn pairs(v: &[El]) -> M {
    untracked(|| v.iter().map(|e| (e.id, *e.val)).collect())
}

/// May go to another thread, whatever the compiler thinks
struct Go<T>(T);
unsafe impl<T> Send for Go<T> {}

type Job<'a, R> = Box<dyn FnOnce() -> R + 'a>;

/// Runs the jobs at the same time, each on its own thread
fn threads<'a, R: 'a>(cx: &mut Cx, jobs: Vec<Job<'a, R>>) -> Vec<R> {
    untracked(|| {
        let n = jobs.len();
        let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
        let place = out.as_mut_ptr();
        let gate = Arc::new(AtomicUsize::new(n));
        let mut hs = Vec::new();
        for (i, f) in jobs.into_iter().enumerate() {
            *cx.ops.entry("threads").or_insert(0) += 1;
            let to = Go(unsafe { place.add(i) });
            let f: Job<'a, ()> = Box::new(move || {
                let to = to;
                unsafe { *to.0 = Some(f()) }
            });
            // it is joined below
            let f: Job<'static, ()> = unsafe { core::mem::transmute(f) };
            let f = Go(f);
            let gate = gate.clone();
            hs.push(std::thread::spawn(move || {
                let f = f;
                // together
                let _ = gate.fetch_sub(1, SeqCst);
                while gate.load(SeqCst) > 0 {
                    std::thread::yield_now()
                }
                Go(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.0)())))
            }))
        }
        let mut bad = None;
        for h in hs {
            if let Err(e) = h.join().expect("join").0 {
                bad = Some(e)
            }
        }
        match bad {
            None => out.into_iter().map(|r| r.unwrap()).collect(),
            Some(e) => {
                if e.is::<Violation>() {
                    std::panic::resume_unwind(e)
                }
                violate!("a thread panicked: {}", e.downcast_ref::<String>().map_or("?", |s| &s[..]))
            }
        }
    })
}

/// Operations on a vector, wherever it is
fn churn<S: Storage<El>>(v: &mut GenericVec<El, S>, m: &mut M, rng: &mut Rng, board: &Arc<Board>, grows: bool, steps: usize) {
    for _ in 0..steps {
        let n = m.len();
        let room = if grows { 12 } else { v.remaining_capacity() };
        let (a, b) = (rng.below(n + 1), rng.below(n + 1));
        let (a, b) = (a.min(b), a.max(b));
        match if board.full() { 3 + rng.below(6) } else { rng.below(12) } {
            0 | 1 | 2 if room > 0 => {
                let e = board.make(rng.below(1000) as u64);
                untracked(|| m.insert(a, (e.id, *e.val)));
                v.insert(a, e);
            }
            3 if n > 0 => {
                let e = v.remove(a.min(n - 1));
                check_eq!((e.id, *e.val), m.remove(a.min(n - 1)), "removed element");
            }
            4 if n > 0 => {
                let e = v.swap_remove(a.min(n - 1));
                check_eq!((e.id, *e.val), m.swap_remove(a.min(n - 1)), "removed element");
            }
            5 => {
                v.truncate(b);
                m.truncate(b);
            }
            6 => {
                let mut d = v.drain(a..b);
                let _ = (d.next(), d.next_back());
                drop(d);
                untracked(|| drop(m.drain(a..b)));
            }
            7 => {
                let k = rng.below(3) as u64;
                v.retain(|e| *e.val % 3 != k);
                m.retain(|e| e.1 % 3 != k);
            }
            8 => {
                v.dedup_by_key(|e| *e.val % 2);
                m.dedup_by_key(|e| e.1 % 2);
            }
            9 => {
                let k = rng.below(room.min(12) + 1);
                let add: Vec<El> = untracked(|| (0..k).map(|i| board.make(i as u64)).collect());
                untracked(|| m.extend(pairs(&add)));
                v.extend(add);
            }
            10 if room >= 4 => {
                let add: Vec<El> = untracked(|| (0..4).map(|i| board.make(i as u64)).collect());
                let ma = pairs(&add);
                drop(v.splice(a..b, add));
                untracked(|| drop(m.splice(a..b, ma)));
            }
            11 => {
                let mut c = v.cursor(a..b);
                while !c.is_empty() {
                    c.skip_front();
                    if !c.is_empty() {
                        drop(c.take_back())
                    }
                }
                drop(c);
                // what was skipped stays
                let k = (b - a + 1) / 2;
                untracked(|| drop(m.drain(a + k..b)));
            }
            _ => {
                for e in v.iter_mut() {
                    *e.val += 1
                }
                for e in m.iter_mut() {
                    e.1 += 1
                }
            }
        }
        check_eq!(pairs(v), *m, "contents on another thread");
    }
}

trait Kind {
    const GROWS: bool;
    type S: Storage<El>;
    fn new() -> Self;
    fn build(&mut self, which: usize) -> GenericVec<El, Self::S>;
}
struct ArrT;
impl Kind for ArrT {
    const GROWS: bool = false;
    type S = UninitBuffer<[El; 24], El>;
    fn new() -> Self {
        ArrT
    }
    fn build(&mut self, _which: usize) -> GenericVec<El, Self::S> {
        GenericVec::with_storage(Default::default())
    }
}
struct SliceT(Option<Zone>);
impl Kind for SliceT {
    const GROWS: bool = false;
    type S = &'static mut UninitSlice<El>;
    fn new() -> Self {
        SliceT(None)
    }
    fn build(&mut self, which: usize) -> GenericVec<El, Self::S> {
        let n = 24 + 7 * which;
        let z = Zone::new(n * core::mem::size_of::<El>(), core::mem::align_of::<El>());
        let s: &'static mut [core::mem::MaybeUninit<El>] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut _, n) };
        self.0 = Some(z);
        generic_vec::SliceVec::new(s)
    }
}
#[cfg(feature = "alloc")]
struct HeapT;
#[cfg(feature = "alloc")]
impl Kind for HeapT {
    const GROWS: bool = true;
    type S = generic_vec::raw::Heap<El>;
    fn new() -> Self {
        HeapT
    }
    fn build(&mut self, _which: usize) -> GenericVec<El, Self::S> {
        generic_vec::HeapVec::new()
    }
}
#[cfg(feature = "alloc")]
struct BoxT;
#[cfg(feature = "alloc")]
impl Kind for BoxT {
    const GROWS: bool = false;
    type S = Box<UninitBuffer<[El; 24], El>>;
    fn new() -> Self {
        BoxT
    }
    fn build(&mut self, _which: usize) -> GenericVec<El, Self::S> {
        GenericVec::with_storage(Default::default())
    }
}

/// Memory made of items of another size
struct AlienSliceT(Option<Zone>);
impl Kind for AlienSliceT {
    const GROWS: bool = false;
    type S = &'static mut UninitSlice<[u64; 5]>;
    fn new() -> Self {
        AlienSliceT(None)
    }
    fn build(&mut self, which: usize) -> GenericVec<El, Self::S> {
        let n = (24 + 9 * which) * core::mem::size_of::<El>() / 40 + 1;
        let z = Zone::new(n * 40, core::mem::align_of::<El>());
        let s: &'static mut [core::mem::MaybeUninit<[u64; 5]>] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut _, n) };
        self.0 = Some(z);
        GenericVec::with_storage(UninitSlice::from_mut(s))
    }
}
#[cfg(feature = "alloc")]
struct AlienHeapT;
#[cfg(feature = "alloc")]
impl Kind for AlienHeapT {
    const GROWS: bool = true;
    type S = generic_vec::raw::Heap<[u64; 5]>;
    fn new() -> Self {
        AlienHeapT
    }
    fn build(&mut self, _which: usize) -> GenericVec<El, Self::S> {
        GenericVec::with_storage(generic_vec::raw::Heap::new())
    }
}

fn threaded<K: Kind>(cx: &mut Cx) {
    let small = cx.scale == 0;
    let board = Board::new(if small { 600 } else { 3000 });
    let mut kinds = untracked(|| (K::new(), K::new()));
    let mut vs = vec![];
    let mut ms: Vec<M> = vec![];
    untracked(|| {
        vs.reserve(2);
        ms.reserve(2);
    });
    let (v0, v1) = (kinds.0.build(0), kinds.1.build(1));
    untracked(|| {
        vs.push(v0);
        vs.push(v1);
        ms.push(Vec::with_capacity(512));
        ms.push(Vec::with_capacity(512));
    });
    let steps = if small { 6 } else { 20 };
    for v in 0..2 {
        churn(&mut vs[v], &mut ms[v], &mut cx.rng, &board, K::GROWS, steps);
    }
    for _ in 0..if small { 2 } else { 4 } {
        match cx.rng.below(6) {
            0 | 1 => {
                // both vectors go to threads of their own and come back
                cx.op("vectors sent to other threads");
                cx.log(|| "two threads change a vector each".into());
                let mut jobs: Vec<Job<(GenericVec<El, K::S>, M)>> = untracked(Vec::new);
                for _ in 0..2 {
                    let (mut v, mut m) = (vs.remove(0), ms.remove(0));
                    let mut rng = Rng::new(cx.rng.next());
                    let board = &board;
                    untracked(|| {
                        jobs.push(Box::new(move || {
                            churn(&mut v, &mut m, &mut rng, board, K::GROWS, steps);
                            (v, m)
                        }))
                    });
                }
                let out = threads(cx, jobs);
                untracked(|| {
                    for (v, m) in out {
                        vs.push(v);
                        ms.push(m);
                    }
                });
            }
            2 => {
                // exclusive references to both
                cx.op("exclusive references sent to other threads");
                cx.log(|| "two threads change a vector each, by reference".into());
                let mut jobs: Vec<Job<()>> = untracked(Vec::new);
                for (v, m) in vs.iter_mut().zip(&mut ms) {
                    let mut rng = Rng::new(cx.rng.next());
                    let board = &board;
                    untracked(|| jobs.push(Box::new(move || churn(v, m, &mut rng, board, K::GROWS, steps))));
                }
                threads(cx, jobs);
            }
            3 => {
                // shared by three threads
                cx.op("vectors shared with other threads");
                cx.log(|| "three threads read both vectors".into());
                let mut jobs: Vec<Job<()>> = untracked(Vec::new);
                for t in 0..3 {
                    let (vs, ms) = (&vs, &ms);
                    untracked(|| {
                        jobs.push(Box::new(move || {
                            for k in 0..2 {
                                let (v, m) = (&vs[(k + t) % 2], &ms[(k + t) % 2]);
                                // nothing here synchronises the threads
                                check_eq!((v.len(), v.is_empty()), (m.len(), m.is_empty()), "length of a shared vector");
                                check!(v.capacity() >= v.len(), "capacity of a shared vector");
                                check_eq!(v.is_full(), v.len() == v.capacity(), "is_full of a shared vector");
                                check_eq!(v.remaining_capacity(), v.capacity() - v.len(), "remaining_capacity of a shared vector");
                                check_eq!(v.as_ptr(), v.as_slice().as_ptr(), "pointer of a shared vector");
                                check_eq!(v.storage().as_ptr(), v.as_ptr(), "pointer of a shared storage");
                                let x: u64 = v.iter().map(|e| *e.val).sum();
                                let y: u64 = m.iter().map(|e| e.1).sum();
                                check_eq!(x, y, "sum of a shared vector");
                                let s: &[El] = v.as_ref();
                                check_eq!(s.len(), v.len(), "as_ref");
                                check!(v.get(..) == Some(s), "indexing of a shared vector");
                            }
                            for k in 0..2 {
                                let (v, m) = (&vs[(k + t) % 2], &ms[(k + t) % 2]);
                                check_eq!(pairs(v), *m, "contents of a shared vector");
                                if !m.is_empty() && !v.first().unwrap().board.full() {
                                    let c = untracked(|| v.iter().cloned().collect::<Vec<El>>());
                                    check_eq!(c.len(), v.len(), "clones");
                                    untracked(|| drop(c));
                                }
                            }
                        }))
                    });
                }
                threads(cx, jobs);
            }
            4 => {
                // an iterator that is used up elsewhere
                cx.op("iterators sent to other threads");
                let m = &mut ms[0];
                let n = m.len();
                let (a, b) = cx.range(n);
                let how = cx.rng.below(4);
                cx.log(|| format!("iterator {} over {}..{} on another thread", how, a, b));
                let mut jobs: Vec<Job<()>> = untracked(Vec::new);
                let v = &mut vs[0];
                match how {
                    0 => {
                        let mut d = v.drain(a..b);
                        let first = d.next();
                        untracked(|| {
                            jobs.push(Box::new(move || {
                                drop(first);
                                let _ = d.next_back();
                                drop(d)
                            }))
                        });
                        untracked(|| drop(m.drain(a..b)));
                    }
                    1 => {
                        let d = v.drain_filter(a..b, |e| *e.val % 2 == 0);
                        untracked(|| jobs.push(Box::new(move || drop(d))));
                        let mut i = 0;
                        m.retain(|e| {
                            i += 1;
                            !(i > a && i <= b && e.1 % 2 == 0)
                        });
                    }
                    2 => {
                        let add: Vec<El> = untracked(|| (a..b).map(|i| board.make(i as u64)).collect());
                        let ma = pairs(&add);
                        let mut d = v.splice(a..b, add);
                        let last = d.next_back();
                        untracked(|| {
                            jobs.push(Box::new(move || {
                                drop(d);
                                drop(last)
                            }))
                        });
                        untracked(|| drop(m.splice(a..b, ma)));
                    }
                    _ => {
                        let mut c = v.cursor(a..b);
                        if !c.is_empty() {
                            drop(c.take_front());
                            let e = board.make(5);
                            let id = (e.id, *e.val);
                            c.write_front(e);
                            m[a] = id;
                        }
                        untracked(|| {
                            jobs.push(Box::new(move || {
                                while !c.is_empty() {
                                    c.skip_back()
                                }
                                drop(c)
                            }))
                        });
                    }
                }
                threads(cx, jobs);
            }
            _ => {
                // from one to the other
                cx.op("vectors appended");
                let k = if K::GROWS { ms[1].len() } else { ms[1].len().min(vs[0].remaining_capacity()) };
                let at = ms[1].len() - k;
                cx.log(|| format!("the last {} elements of one vector go to the other, on another thread", k));
                let mut jobs: Vec<Job<()>> = untracked(Vec::new);
                let (x, y) = vs.split_at_mut(1);
                untracked(|| jobs.push(Box::new(move || y[0].split_off_into(at, &mut x[0]))));
                threads(cx, jobs);
                let t = untracked(|| ms[1].split_off(at));
                untracked(|| ms[0].extend(t));
            }
        }
        for v in 0..2 {
            check_eq!(pairs(&vs[v]), ms[v], "contents after the threads");
            cx.hash(ms[v].len() as u64);
            for e in &ms[v] {
                cx.sig = vharness::rng::mix(cx.sig, e.1)
            }
        }
    }
    cx.nontrivial = true;
    // the end, elsewhere
    let (v, m) = (vs.remove(0), ms.remove(0));
    let mut it = v.into_iter();
    let first = it.next();
    check_eq!(first.as_ref().map(|e| e.id), m.first().map(|e| e.0), "first element of into_iter");
    let mut jobs: Vec<Job<()>> = untracked(Vec::new);
    untracked(|| {
        jobs.push(Box::new(move || {
            let _ = it.next_back();
            drop(it)
        }));
        let v = vs.remove(0);
        jobs.push(Box::new(move || drop(v)));
        jobs.push(Box::new(move || drop(first)));
    });
    threads(cx, jobs);
    board.finish(0, "the end");
    untracked(|| drop((board, ms, m, kinds, vs)));
}

fn main() {
    let mut groups: Vec<vharness::cx::Group> = vec![
        ("auto traits", 2, probe),
        ("threads/array", 1, threaded::<ArrT>),
        ("threads/slice", 1, threaded::<SliceT>),
        ("threads/slice of other items", 1, threaded::<AlienSliceT>),
    ];
    #[cfg(feature = "alloc")]
    groups.push(("threads/heap", 3, threaded::<HeapT>));
    #[cfg(feature = "alloc")]
    groups.push(("threads/heap of other items", 1, threaded::<AlienHeapT>));
    #[cfg(feature = "alloc")]
    groups.push(("threads/box", 1, threaded::<BoxT>));
    drive::main("C25", groups, 2000)
}
