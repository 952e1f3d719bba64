//! Every way to make a vector gives the one it says.
use core::marker::PhantomData;
use core::mem::{align_of, size_of, MaybeUninit};
#[cfg(feature = "alloc")]
use generic_vec::raw::Heap;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::{gvec, uninit_array, GenericVec, InitSliceVec, SliceVec, TypeVec, ZSVec};
use std::cell::{Cell, RefCell};
use vharness::alloc::untracked;
use vharness::cx::{check_alive, items, show, Cx};
use vharness::elem::*;
use vharness::eng::{Hint, Refs};
use vharness::mon::{self, run, tick, End, Kind};
use vharness::{check, check_eq, drive, violate};

type Vc<E, T> = GenericVec<E, <T as Target<E>>::S>;

/// A storage that vectors are made with
trait Target<E: Elem> {
    type S: StorageWithCapacity<E>;
    /// its capacity, if that never changes
    const FIXED: Option<usize>;
}

struct Buf<const N: usize>;
impl<E: Elem, const N: usize> Target<E> for Buf<N> {
    type S = UninitBuffer<[E; N]>;
    const FIXED: Option<usize> = Some(if E::ZST { usize::MAX } else { N });
}
/// room for two elements and a bit
struct Odd;
impl<E: Elem> Target<E> for Odd {
    type S = UninitBuffer<([E; 2], u8), E>;
    const FIXED: Option<usize> = Some(if E::ZST { usize::MAX } else { size_of::<([E; 2], u8)>() / size_of::<E>() });
}
struct Zs;
impl<E: Elem> Target<E> for Zs {
    type S = ZeroSized<E>;
    const FIXED: Option<usize> = Some(usize::MAX);
}
#[cfg(feature = "alloc")]
struct Hp;
#[cfg(feature = "alloc")]
impl<E: Elem> Target<E> for Hp {
    type S = Heap<E>;
    const FIXED: Option<usize> = None;
}
#[cfg(feature = "alloc")]
struct Alien<U>(PhantomData<U>);
#[cfg(feature = "alloc")]
impl<E: Elem, U> Target<E> for Alien<U> {
    type S = Heap<U>;
    const FIXED: Option<usize> = None;
}
#[cfg(feature = "alloc")]
struct Bx<const N: usize>;
#[cfg(feature = "alloc")]
impl<E: Elem, const N: usize> Target<E> for Bx<N> {
    type S = Box<UninitBuffer<[E; N]>>;
    const FIXED: Option<usize> = Some(if E::ZST { usize::MAX } else { N });
}

fn holds<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>, m: &[Item], held: isize, what: &str) {
    mon::check_errors(what);
    check_eq!(v.len(), m.len(), "length after {}", what);
    check_eq!(v.is_empty(), m.is_empty(), "is_empty after {}", what);
    check!(v.capacity() >= m.len(), "capacity {} for {} elements after {}", v.capacity(), m.len(), what);
    check_alive(v, what);
    check_eq!(items(v), m, "contents after {}", what);
    if E::TRACKED {
        check_eq!(mon::live(), held + m.len() as isize, "elements alive after {}", what);
    }
}

fn gone<E: Elem>(held: isize, what: &str) {
    mon::check_errors(what);
    if E::TRACKED {
        check_eq!(mon::live(), held, "elements alive at the end of {}", what);
    }
}

/// used as a vector once more, and dropped
fn use_up<E: Elem, S: Storage<E>>(cx: &mut Cx, mut v: GenericVec<E, S>, mut m: Vec<Item>, what: &str) {
    let k = cx.rng.below(4);
    for _ in 0..k {
        if cx.rng.chance(1, 2) && !m.is_empty() {
            let e = v.pop();
            check_eq!(e.item(), m.pop().unwrap(), "element popped after {}", what);
        } else {
            let e: E = cx.make();
            let i = e.item();
            if v.try_push(e).is_ok() {
                untracked(|| m.push(i))
            } else {
                check_eq!(v.len(), v.capacity(), "length of a vector that is full, after {}", what);
            }
        }
    }
    check_eq!(items(&v), m, "contents after using the result of {}", what);
    cx.hash_items(&m);
    if cx.rng.chance(1, 3) {
        let it = v.into_iter();
        let got: Vec<Item> = untracked(|| Vec::with_capacity(m.len()));
        let got = it.fold(got, |mut g, e| {
            g.push(e.item());
            g
        });
        check_eq!(got, m, "elements by value after {}", what);
        untracked(|| drop(got));
    } else {
        drop(v)
    }
    gone::<E>(0, what);
    untracked(|| drop(m));
}

/// `gvec![..]` of up to 40 element expressions, one of which may panic
fn list<E: Elem, T: Target<E>>(cx: &mut Cx) {
    const COUNTS: [usize; 21] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31, 33, 40];
    let n = COUNTS[cx.rng.below(COUNTS.len())];
    let bad = if n > 0 && cx.rng.chance(1, 3) { Some(cx.rng.below(n)) } else { None };
    cx.op("gvec! list");
    cx.log(|| format!("gvec! of {} elements, panicking at {:?}, into a storage of capacity {:?}", n, bad, T::FIXED));
    let made: RefCell<Vec<Item>> = RefCell::new(untracked(|| Vec::with_capacity(64)));
    let order: RefCell<Vec<usize>> = RefCell::new(untracked(|| Vec::with_capacity(64)));
    let c = RefCell::new(cx);
    // the nth element expression
    let x = |i: usize| -> E {
        order.borrow_mut().push(i);
        if Some(i) == bad {
            untracked(|| std::panic::resume_unwind(Box::new(mon::FusePanic(1))))
        }
        let e: E = c.borrow_mut().make();
        made.borrow_mut().push(e.item());
        e
    };
    let r = run(|| -> Vc<E, T> {
        match n {
            0 => gvec![],
            1 => gvec![x(0)],
            2 => gvec![x(0), x(1)],
            3 => gvec![x(0), x(1), x(2)],
            4 => gvec![x(0), x(1), x(2), x(3)],
            5 => gvec![x(0), x(1), x(2), x(3), x(4)],
            6 => gvec![x(0), x(1), x(2), x(3), x(4), x(5)],
            7 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6)],
            8 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7)],
            9 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8)],
            10 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9)],
            11 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10)],
            12 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11)],
            13 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12)],
            14 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13)],
            15 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14)],
            16 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15)],
            17 => gvec![x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16)],
            31 => gvec![
                x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16), x(17), x(18), x(19), x(20), x(21),
                x(22), x(23), x(24), x(25), x(26), x(27), x(28), x(29), x(30)
            ],
            33 => gvec![
                x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16), x(17), x(18), x(19), x(20), x(21),
                x(22), x(23), x(24), x(25), x(26), x(27), x(28), x(29), x(30), x(31), x(32)
            ],
            _ => gvec![
                x(0), x(1), x(2), x(3), x(4), x(5), x(6), x(7), x(8), x(9), x(10), x(11), x(12), x(13), x(14), x(15), x(16), x(17), x(18), x(19), x(20), x(21),
                x(22), x(23), x(24), x(25), x(26), x(27), x(28), x(29), x(30), x(31), x(32), x(33), x(34), x(35), x(36), x(37), x(38), x(39)
            ],
        }
    });
    let cx = c.into_inner();
    let (m, order) = (made.into_inner(), order.into_inner());
    check_eq!(order, untracked(|| (0..order.len()).collect::<Vec<_>>()), "order in which gvec! evaluates its elements");
    let fits = T::FIXED.map_or(true, |c| n <= c);
    match r {
        End::Ok(v) => {
            check!(fits, "gvec! of {} elements fits a storage of capacity {:?}", n, T::FIXED);
            check!(bad.is_none(), "gvec! lost a panic");
            check_eq!(m.len(), n, "number of elements gvec! evaluated");
            holds(&v, &m, 0, "gvec!");
            use_up(cx, v, m, "gvec!");
        }
        End::Fuse => {
            check!(bad.is_some(), "stray panic");
            check_eq!(order.len(), bad.unwrap() + 1, "number of elements evaluated before the one that panics");
            cx.op("element panics");
            gone::<E>(0, "gvec! whose element panicked");
            untracked(|| drop(m));
        }
        End::Panic(p) => {
            check!(!fits, "gvec! of {} elements in a storage of capacity {:?} panicked: {}", n, T::FIXED, p);
            cx.op("does not fit");
            gone::<E>(0, "gvec! that did not fit");
            untracked(|| drop(m));
        }
    }
    cx.hash(n as u64);
    untracked(|| drop(order));
}

/// `gvec![x; n]`
fn repeat<E: Elem, T: Target<E>>(cx: &mut Cx) {
    let n = amount::<E, T>(cx);
    let k = if cx.rng.chance(1, 3) { 1 + cx.rng.below(n + 1) as u64 } else { 0 };
    cx.op("gvec! repeat");
    cx.log(|| format!("gvec![x; {}], the clone number {} panics, into a storage of capacity {:?}", n, k, T::FIXED));
    let val = cx.val::<E>();
    let (xs, ns) = (Cell::new(0), Cell::new(0));
    mon::arm(k, Kind::Clone as u32);
    let r = run(|| -> Vc<E, T> {
        gvec![
            {
                xs.set(xs.get() + 1);
                E::make(val)
            };
            {
                ns.set(ns.get() + 1);
                n
            }
        ]
    });
    let clones = mon::disarm();
    let fits = T::FIXED.map_or(true, |c| n <= c);
    check_eq!(ns.get(), 1, "times gvec! evaluated the count");
    check!(xs.get() <= 1, "gvec! evaluated the element {} times", xs.get());
    match r {
        End::Ok(v) => {
            check!(fits, "gvec![x; {}] fits a storage of capacity {:?}", n, T::FIXED);
            check_eq!(xs.get(), 1, "times gvec! evaluated the element");
            let m = items(&v);
            check_eq!(m.len(), n, "length of gvec![x; n]");
            check!(m.iter().all(|i| i.val == val), "contents of gvec![{}; {}]: {}", val, n, show(&m));
            holds(&v, &m, 0, "gvec!");
            use_up(cx, v, m, "gvec!");
        }
        End::Fuse => {
            check!(k > 0 && clones >= k, "stray panic");
            cx.op("clone panics");
            gone::<E>(0, "gvec! whose clone panicked");
        }
        End::Panic(p) => {
            check!(!fits, "gvec![x; {}] in a storage of capacity {:?} panicked: {}", n, T::FIXED, p);
            cx.op("does not fit");
            gone::<E>(0, "gvec! that did not fit");
        }
    }
    cx.hash(n as u64);
}

fn amount<E: Elem, T: Target<E>>(cx: &mut Cx) -> usize {
    match T::FIXED {
        Some(c) if c < 100 && cx.rng.chance(1, 2) => (c + cx.rng.below(3)).saturating_sub(1),
        _ => cx.amount(),
    }
}

/// An iterator with whatever size hint
struct It<E> {
    left: usize,
    hint: (usize, Option<usize>),
    vals: u32,
    made: *const RefCell<Vec<Item>>,
    calls: *const Cell<usize>,
    mark: PhantomData<E>,
}
impl<E: Elem> Iterator for It<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        unsafe { (*self.calls).set((*self.calls).get() + 1) };
        tick(Kind::Next);
        if self.left == 0 {
            return None
        }
        self.left -= 1;
        self.vals += 7;
        let e = E::make(self.vals % E::VALS);
        unsafe { (*self.made).borrow_mut().push(e.item()) };
        Some(e)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// `collect()`, by value
fn collect<E: Elem, T: Target<E>>(cx: &mut Cx) {
    let n = amount::<E, T>(cx);
    let hint = match cx.rng.below(8) {
        0 => (0, None),
        1 => (0, Some(n)),
        2 => (n / 2, None),
        3 => (n, None),
        4 => (n.saturating_sub(1), Some(n + 5)),
        // not right, and still harmless
        5 => (0, Some(0)),
        6 => (n + cx.rng.below(20), None),
        _ => (n, Some(n)),
    };
    let k = if cx.rng.chance(1, 3) { 1 + cx.rng.below(n + 1) as u64 } else { 0 };
    cx.op("collect");
    cx.log(|| format!("collect() of {} elements with size hint {:?}, next number {} panics, into a storage of capacity {:?}", n, hint, k, T::FIXED));
    let made = RefCell::new(untracked(|| Vec::with_capacity(n)));
    let calls = Cell::new(0);
    let it: It<E> = It { left: n, hint, vals: cx.rng.below(100) as u32, made: &made, calls: &calls, mark: PhantomData };
    mon::arm(k, Kind::Next as u32);
    let r = run(|| it.collect::<Vc<E, T>>());
    mon::disarm();
    let m = made.into_inner();
    let fits = T::FIXED.map_or(true, |c| n <= c);
    cx.hash(n as u64);
    match r {
        End::Ok(v) => {
            check!(fits, "collect() of {} elements fits a storage of capacity {:?}", n, T::FIXED);
            check_eq!(m.len(), n, "number of elements collect() took");
            check_eq!(calls.get(), n + 1, "calls of next");
            holds(&v, &m, 0, "collect");
            use_up(cx, v, m, "collect");
        }
        End::Fuse => {
            check!(k > 0, "stray panic");
            cx.op("next panics");
            gone::<E>(0, "collect() whose iterator panicked");
            untracked(|| drop(m));
        }
        End::Panic(p) => {
            check!(!fits, "collect() of {} elements into a storage of capacity {:?} panicked: {}", n, T::FIXED, p);
            cx.op("does not fit");
            gone::<E>(0, "collect() that did not fit");
            untracked(|| drop(m));
        }
    }
}

/// `collect()` of references: clones
fn collect_ref<E: Elem, T: Target<E>>(cx: &mut Cx) {
    let n = amount::<E, T>(cx);
    let k = if cx.rng.chance(1, 3) { 1 + cx.rng.below(n + 1) as u64 } else { 0 };
    cx.op("collect clones");
    cx.log(|| format!("collect() of {} references, the clone number {} panics, into a storage of capacity {:?}", n, k, T::FIXED));
    let src: Vec<E> = (0..n).map(|_| cx.make()).collect();
    let held = if E::TRACKED { n as isize } else { 0 };
    let m: Vec<Item> = items(&src);
    let plain = cx.rng.chance(1, 2);
    let hint = Hint::any(cx);
    let hint = if let Hint::Over(_) = hint { Hint::Wide(1) } else { hint };
    let it = Refs::new(cx, &src, hint);
    mon::arm(k, Kind::Clone as u32);
    let r = run(|| if plain { src.iter().collect::<Vc<E, T>>() } else { it.collect::<Vc<E, T>>() });
    mon::disarm();
    check_eq!(items(&src), m, "what was cloned");
    check_alive(&src, "collect of references");
    let fits = T::FIXED.map_or(true, |c| n <= c);
    match r {
        End::Ok(v) => {
            check!(fits, "collect() of {} references fits a storage of capacity {:?}", n, T::FIXED);
            let got = items(&v);
            check!(got.len() == n && got.iter().zip(&m).all(|(a, b)| a.val == b.val), "collect() of {} gave {}", show(&m), show(&got));
            check!(got.iter().zip(&m).all(|(a, b)| a.id == 0 || a.id != b.id), "collect() of references moved the elements");
            holds(&v, &got, held, "collect");
            drop(src);
            use_up(cx, v, got, "collect");
        }
        End::Fuse => {
            check!(k > 0, "stray panic");
            cx.op("clone panics");
            gone::<E>(held, "collect() whose clone panicked");
        }
        End::Panic(p) => {
            check!(!fits, "collect() of {} references into a storage of capacity {:?} panicked: {}", n, T::FIXED, p);
            cx.op("does not fit");
            gone::<E>(held, "collect() that did not fit");
        }
    }
    cx.hash(n as u64);
    untracked(|| drop(m));
}

/// `with_capacity` and `Default`
fn empty<E: Elem, T: Target<E>>(cx: &mut Cx) {
    let n = amount::<E, T>(cx);
    let dflt = cx.rng.chance(1, 4);
    cx.op(if dflt { "default" } else { "with_capacity" });
    cx.log(|| format!("{} {}", if dflt { "default" } else { "with_capacity" }, n));
    let r = run(|| if dflt { Vc::<E, T>::default() } else { Vc::<E, T>::with_capacity(n) });
    let fits = T::FIXED.map_or(true, |c| n <= c) || dflt;
    cx.hash(n as u64);
    match r {
        End::Ok(mut v) => {
            check!(fits, "with_capacity({}) of a storage of capacity {:?}", n, T::FIXED);
            check_eq!(v.len(), 0, "length of a new vector");
            check_eq!(v.is_empty(), true, "is_empty of a new vector");
            check_eq!(v.as_slice().len(), 0, "elements of a new vector");
            if !dflt {
                check!(v.capacity() >= n, "with_capacity({}) has capacity {}", n, v.capacity());
            }
            if let Some(c) = T::FIXED {
                check_eq!(v.capacity(), c, "capacity of a fixed storage");
            }
            check!(v.as_ptr() as usize % align_of::<E>() == 0, "a new vector at {:?}", v.as_ptr());
            let room = v.capacity();
            check_eq!(v.remaining_capacity(), room, "remaining capacity of a new vector");
            // so many elements fit without moving
            let p = v.as_ptr();
            let mut m: Vec<Item> = untracked(|| Vec::with_capacity(700));
            for _ in 0..room.min(600) {
                let e: E = cx.make();
                m.push(e.item());
                v.push(e);
            }
            if !E::ZST && room > 0 {
                check_eq!(v.as_ptr(), p, "address of the elements after filling the capacity");
                check_eq!(v.capacity(), room, "capacity after filling it");
            }
            holds(&v, &m, 0, "filling a new vector");
            use_up(cx, v, m, "filling");
        }
        End::Fuse => violate!("stray panic"),
        End::Panic(p) => {
            check!(!fits, "with_capacity({}) of a storage of capacity {:?} panicked: {}", n, T::FIXED, p);
            cx.op("does not fit");
        }
    }
}

fn any<E: Elem, T: Target<E>>(cx: &mut Cx) {
    for _ in 0..if cx.scale == 0 { 2 } else { 5 } {
        match cx.rng.below(8) {
            0..=2 => list::<E, T>(cx),
            3 => repeat::<E, T>(cx),
            4 | 5 => collect::<E, T>(cx),
            6 => collect_ref::<E, T>(cx),
            _ => empty::<E, T>(cx),
        }
    }
    cx.nontrivial = true;
}

/// Vectors in memory that is there before them, in constants and in statics
fn given<E: Elem>(cx: &mut Cx) {
    // a buffer from uninit_array!, used twice
    let mut buf: [MaybeUninit<E>; 17] = uninit_array!(17);
    let n = cx.rng.below(18);
    for _ in 0..2 {
        let v = SliceVec::new(&mut buf[..n]);
        if !E::ZST {
            check_eq!(v.capacity(), n, "capacity of a slice");
        }
        fill(cx, v, "uninit_array!");
    }
    fill(cx, GenericVec::<E, _>::with_storage(UninitSlice::from_mut(&mut buf[n..])), "from_mut");
    const fn none<E>() -> [MaybeUninit<E>; 0] {
        uninit_array!(const 0)
    }
    let mut none = none::<E>();
    fill(cx, SliceVec::<E>::new(&mut none), "uninit_array! of nothing");
    fill(cx, TypeVec::<E, [E; 5]>::new(), "TypeVec::new");
    fill(cx, TypeVec::<E, [u8; 64], E>::with_align(), "TypeVec::with_align");
    if !E::ZST {
        check_eq!(TypeVec::<E, [u8; 64], E>::with_align().capacity(), 64 / size_of::<E>(), "capacity of a TypeVec");
    }
    let n = cx.rng.below(8);
    fill(cx, <generic_vec::ArrayVec!(E; 7)>::with_capacity(n), "ArrayVec!");
    #[cfg(feature = "alloc")]
    fill(cx, generic_vec::HeapVec::<E>::new(), "HeapVec::new");
    cx.nontrivial = true;
}

fn fill<E: Elem, S: Storage<E>>(cx: &mut Cx, mut v: GenericVec<E, S>, what: &'static str) {
    cx.op(what);
    check_eq!(v.len(), 0, "length of {}", what);
    let room = v.capacity();
    let mut m: Vec<Item> = untracked(|| Vec::with_capacity(100));
    for _ in 0..room.min(40) {
        let e: E = cx.make();
        m.push(e.item());
        v.push(e);
    }
    if room < 40 {
        check_eq!(v.try_push(cx.make()).is_err(), true, "pushing to a full {}", what);
    }
    holds(&v, &m, 0, what);
    use_up(cx, v, m, what);
}

fn constants(cx: &mut Cx) {
    // constants are copied, never written
    const BUF: [MaybeUninit<u32>; 9] = uninit_array!(const 9);
    const VEC: TypeVec<u32, [u32; 6]> = TypeVec::new();
    const WORDS: UninitBuffer<[u64; 2], u64> = UninitBuffer::new([0x0101_0101_0101_0101, 2]);
    static EMPTY: TypeVec<u32, [u32; 6]> = TypeVec::new();
    #[cfg(feature = "alloc")]
    const HEAP: generic_vec::HeapVec<u32> = generic_vec::HeapVec::new();
    for round in 0..2 {
        let mut b = BUF;
        let mut v = SliceVec::<u32>::new(&mut b);
        let mut w = VEC;
        check_eq!((v.len(), w.len()), (0, 0), "length of a constant");
        check_eq!((v.capacity(), w.capacity()), (9, 6), "capacity of a constant");
        for i in 0..6 {
            v.push(i + round);
            w.push(i * 2 + round);
        }
        check!(v.iter().enumerate().all(|(i, x)| *x == i as u32 + round) && v.len() == 6, "a vector in a constant buffer: {:?}", v);
        check!(w.iter().enumerate().all(|(i, x)| *x == i as u32 * 2 + round) && w.len() == 6, "a constant vector: {:?}", w);
        check_eq!(EMPTY.len(), 0, "length of a static vector");
        check_eq!(EMPTY.as_slice(), &[0u32; 0][..], "contents of a static vector");
        let mut u: GenericVec<u16, _> = GenericVec::with_storage(WORDS);
        check_eq!((u.len(), u.capacity()), (0, 8), "a vector in a buffer that had a value");
        for i in 0..8u16 {
            u.push(i);
        }
        check_eq!(u, [0u16, 1, 2, 3, 4, 5, 6, 7], "contents");
        #[cfg(feature = "alloc")]
        {
            let mut h = HEAP;
            check_eq!(h.len(), 0, "length of a constant heap vector");
            h.push(round);
            check_eq!(h, [round], "contents of a constant heap vector");
        }
    }
    fill(cx, ZSVec::<Tz>::new(), "ZSVec::new");
    fill(cx, ZSVec::<Tz>::NEW, "ZSVec::NEW");
    fill(cx, ZSVec::<Tz>::default(), "ZSVec::default");
    // initialised storage is full at first
    let n = cx.rng.below(20);
    let mut a: Vec<u32> = untracked(|| (0..n as u32).collect());
    let old = untracked(|| a.clone());
    let v = InitSliceVec::<u32>::new(&mut a);
    check_eq!(v.len(), n, "length of InitSliceVec::new");
    check_eq!(v.is_full(), true, "is_full of InitSliceVec::new");
    check_eq!(v.as_slice(), &old[..], "contents of InitSliceVec::new");
    drop(v);
    let v: GenericVec<u32, &mut [u32]> = GenericVec::with_storage(&mut a);
    check_eq!((v.len(), v.capacity()), (0, n), "with_storage of a slice");
    drop(v);
    check_eq!(a, old, "the slice");
    #[cfg(feature = "nightly")]
    {
        let v = <generic_vec::InitArrayVec!(u32; 16)>::new([3; 16]);
        check_eq!(v, [3u32; 16], "contents of InitArrayVec::new");
        let v: generic_vec::InitArrayVec!(u32; 16) = [4; 16].into();
        check_eq!(v, [4u32; 16], "contents of an InitArrayVec from an array");
    }
    let v: generic_vec::InitArrayVec!(u32; 16) = Default::default();
    check_eq!((v.len(), v.capacity()), (0, 16), "InitArrayVec::default");
    let v: generic_vec::InitArrayVec!(u32; 16) = gvec![1, 2, 3];
    check_eq!(v, [1u32, 2, 3], "an InitArrayVec by gvec!");
    let v: generic_vec::InitArrayVec!(u32; 16) = (0..16).collect();
    check_eq!(v.iter().sum::<u32>(), 120, "an InitArrayVec by collect()");
    let x = n as u32;
    let v: generic_vec::ArrayVec!(u32; 16) = gvec![x + 1; 1 + n % 16];
    check_eq!(v.len(), 1 + n % 16, "length of gvec!");
    check!(v.iter().all(|y| *y == x + 1), "contents of gvec!: {:?}", v);
    untracked(|| drop((a, old)));
    cx.op("constants");
    cx.hash(n as u64);
    cx.nontrivial = true;
}

macro_rules! targets {
    ($($(#[$m:meta])* $w:literal: $E:ty, $T:ty;)*) => {{
        let mut v: Vec<vharness::cx::Group> = Vec::new();
        $($(#[$m])* { v.push((concat!(stringify!($T), "/", stringify!($E)), $w, any::<$E, $T>)) })*
        v
    }};
}

fn main() {
    let mut groups = targets!(
        #[cfg(feature = "alloc")] 5: Tb, Hp;
        #[cfg(feature = "alloc")] 2: Tw, Hp;
        #[cfg(feature = "alloc")] 2: Ts, Hp;
        #[cfg(feature = "alloc")] 2: T3, Hp;
        #[cfg(feature = "alloc")] 2: Ta, Hp;
        #[cfg(feature = "alloc")] 2: Tz, Hp;
        #[cfg(feature = "alloc")] 2: Cu8, Hp;
        #[cfg(feature = "alloc")] 2: Cu32, Hp;
        #[cfg(feature = "alloc")] 2: T3, Alien<u32>;
        #[cfg(feature = "alloc")] 2: Ts, Alien<[u64; 3]>;
        #[cfg(feature = "alloc")] 2: Tw, Bx<9>;
        4: Tb, Buf<40>;
        3: Tb, Buf<16>;
        3: Tw, Buf<6>;
        1: Ts, Buf<0>;
        2: Ts, Buf<3>;
        2: Ta, Odd;
        2: T3, Odd;
        2: Cu32, Buf<33>;
        1: Cu8, Buf<17>;
        2: Tz, Zs;
        1: Tz, Buf<3>;
    );
    groups.push(("given/Tb", 2, given::<Tb>));
    groups.push(("given/Tw", 1, given::<Tw>));
    groups.push(("given/Ts", 1, given::<Ts>));
    groups.push(("given/T3", 1, given::<T3>));
    groups.push(("given/Tz", 2, given::<Tz>));
    groups.push(("given/Cu32", 1, given::<Cu32>));
    groups.push(("constants", 2, constants));
    drive::main("C29", groups, 10000)
}
