//! Comparison, hashing, formatting and cloning are those of the slice.
use core::cmp::Ordering;
use generic_vec::raw::{Storage, StorageWithCapacity};
use generic_vec::GenericVec;
use std::borrow::{Borrow, BorrowMut};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use vharness::alloc::untracked;
use vharness::cx::{check_alive, items, Cx, Sub, Work};
use vharness::elem::*;
use vharness::eng::{want_ok, want_panic};
use vharness::mon::{self, ledger, run};
use vharness::own::same;
use vharness::stores::*;
use vharness::{check, check_eq, drive, groups};

/// Keeps what it is fed
#[derive(Default, PartialEq, Debug)]
struct Tape(Vec<(u8, u64)>);
impl Tape {
    fn put(&mut self, k: u8, x: u64) {
        untracked(|| self.0.push((k, x)))
    }
}
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0.len() as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.put(0, b.len() as u64);
        for x in b {
            self.put(1, *x as u64)
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.put(2, x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.put(3, x)
    }
    fn write_usize(&mut self, x: usize) {
        self.put(4, x as u64)
    }
}
fn tape<T: Hash + ?Sized>(x: &T) -> Tape {
    let mut t = Tape::default();
    x.hash(&mut t);
    t
}

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut x = Sub::<E, K>::new(cx);
        let n = x.start_len(cx).min(40);
        contents(cx, &mut x, n);
        for _ in 0..if cx.scale == 0 { 2 } else { 4 } {
            match cx.rng.below(4) {
                0 => against::<E, K, SliceK>(cx, &mut x),
                1 => against::<E, K, ArrK<20>>(cx, &mut x),
                2 => against::<E, K, ExactK>(cx, &mut x),
                _ => {
                    #[cfg(feature = "alloc")]
                    against::<E, K, HeapK>(cx, &mut x);
                    #[cfg(not(feature = "alloc"))]
                    against::<E, K, K>(cx, &mut x)
                }
            }
            alone(cx, &mut x);
            let n = x.m.len();
            if n > 0 && cx.rng.chance(1, 2) {
                let k = cx.rng.below(n);
                x.g.v.truncate(k);
                x.m.truncate(k);
            }
        }
        drop(x);
        match cx.rng.below(4) {
            0 => clones::<E, generic_vec::raw::UninitBuffer<[E; 20], E>>(cx, 20),
            1 => clones::<E, MonStore<E>>(cx, 30),
            #[cfg(feature = "alloc")]
            2 => clones::<E, Box<generic_vec::raw::UninitBuffer<[E; 9], E>>>(cx, 9),
            _ => {
                #[cfg(feature = "alloc")]
                clones::<E, generic_vec::raw::Heap<E>>(cx, 40);
                #[cfg(not(feature = "alloc"))]
                clones::<E, generic_vec::raw::UninitBuffer<[E; 3], E>>(cx, 3);
            }
        }
        if E::ZST {
            clones::<Tz, generic_vec::raw::ZeroSized<Tz>>(cx, 20)
        }
        floats(cx);
        mon::check_errors("the end");
    }
}

/// Values of a small range, so that vectors are often alike
fn contents<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, n: usize) {
    let n = s.room(n);
    for _ in 0..n {
        let e = E::make(cx.rng.below(3) as u32 % E::VALS);
        let it = e.item();
        s.m_push(it);
        let _ = s.g.v.push(e);
    }
    cx.log(|| format!("contents {:?}", vharness::cx::show(&s.m)));
}

/// Two vectors on different storages
fn against<E: Elem, K: Store<E>, K2: Store<E>>(cx: &mut Cx, x: &mut Sub<E, K>) {
    let mut y = Sub::<E, K2>::new(cx);
    // nearly the same
    let n = y.room(x.m.len());
    for i in 0..n {
        let e = E::make(x.m[i].val);
        let it = e.item();
        y.m_push(it);
        let _ = y.g.v.push(e);
    }
    let n = y.m.len();
    let how = cx.rng.below(6);
    match how {
        0 if n > 0 => {
            let i = cx.rng.below(n);
            let v = cx.rng.below(3) as u32 % E::VALS;
            y.g.v[i].set(v);
            y.m[i].val = v
        }
        1 if n > 0 => {
            y.g.v.truncate(n - 1);
            y.m.truncate(n - 1)
        }
        2 if y.fits(1) => contents(cx, &mut y, 1),
        3 if n > 1 => {
            let (i, j) = (cx.rng.below(n), cx.rng.below(n));
            y.g.v.swap(i, j);
            y.m.swap(i, j)
        }
        4 => {
            y.g.v.clear();
            y.m.clear();
            let k = cx.rng.below(5);
            contents(cx, &mut y, k)
        }
        _ => (),
    }
    let held = y.m.len() as isize;
    cx.op("pairs of vectors");
    cx.nontrivial = true;
    cx.log(|| format!("compared with {:?}, by way {}", vharness::cx::show(&y.m), how));
    let (v, w) = (&x.g.v, &y.g.v);
    // by value: a reference that the vectors have nothing to do with
    let (a, b): (Vec<u32>, Vec<u32>) = untracked(|| (x.m.iter().map(|i| i.val).collect(), y.m.iter().map(|i| i.val).collect()));
    let ord = a.partial_cmp(&b);
    cx.hash((ord == Some(Ordering::Equal)) as u64);
    let eq = a == b;
    let what = "two vectors";
    check_eq!(v == w, eq, "== of {}: {:?} {:?}", what, a, b);
    check_eq!(v != w, !eq, "!= of {}: {:?} {:?}", what, a, b);
    check_eq!(w == v, eq, "== of {}: {:?} {:?}", what, b, a);
    check_eq!(v.partial_cmp(w), ord, "partial_cmp of {}: {:?} {:?}", what, a, b);
    check_eq!(w.partial_cmp(v), ord.map(|o| o.reverse()), "partial_cmp of {}: {:?} {:?}", what, b, a);
    check_eq!(v < w, a < b, "< of {}: {:?} {:?}", what, a, b);
    check_eq!(v <= w, a <= b, "<= of {}: {:?} {:?}", what, a, b);
    check_eq!(v > w, a > b, "> of {}: {:?} {:?}", what, a, b);
    check_eq!(v >= w, a >= b, ">= of {}: {:?} {:?}", what, a, b);
    check_eq!(*v == w[..], eq, "== of a vector and a slice: {:?} {:?}", a, b);
    check_eq!(v.partial_cmp(&w[..]), ord, "partial_cmp of a vector and a slice: {:?} {:?}", a, b);
    check_eq!(tape(v) == tape(w), eq, "equal hashes of {}: {:?} {:?}", what, a, b);
    check_eq!(tape(v), tape(&v[..]), "hash of a vector and its slice: {:?}", a);
    {
        let (s, t) = untracked(|| (format!("{:?}|{:#?}|{:5?}|{:02x?}", v, v, v, v), format!("{:?}|{:#?}|{:5?}|{:02x?}", a, a, a, a)));
        check!(s == t, "Debug of a vector: {} instead of {}", s, t);
        untracked(|| drop((s, t)));
    }
    untracked(|| drop((a, b)));
    // clone_from
    let (vm, wm) = (x.m.len(), y.m.len());
    let fits = y.fits(vm.saturating_sub(wm));
    let before = ledger(|l| l.clones);
    let r = run(|| y.g.v.clone_from(&x.g.v));
    cx.log(|| format!("clone_from of {} elements into {}", vm, wm));
    cx.op("clone_from");
    if fits {
        want_ok(r, "clone_from");
        check_eq!(y.g.v.len(), vm, "length after clone_from");
        for (i, (p, q)) in y.g.v.iter().zip(&x.m).enumerate() {
            check_eq!(p.item().val, q.val, "element {} after clone_from", i);
        }
        if E::TRACKED {
            let n = ledger(|l| l.clones) - before;
            check_eq!(n, vm as u64, "clones made by clone_from of {} elements", vm);
            check_eq!(mon::live(), 2 * vm as isize, "elements alive after clone_from");
            if !E::ZST {
                for p in y.g.v.iter() {
                    check!(x.m.iter().all(|q| q.id != p.id()), "clone_from put the same element into two vectors");
                }
            }
        }
        y.adopt("clone_from");
        // independent
        if let Some(p) = y.g.v.last_mut() {
            p.set(2 % E::VALS);
            let i = y.m.len() - 1;
            y.m[i].val = 2 % E::VALS
        }
        let held = x.m.len() as isize;
        y.verify_held(cx, held, "clone_from");
        let held = y.m.len() as isize;
        x.verify_held(cx, held, "its clone was changed");
    } else {
        want_panic(cx, r, "clone_from of more than fits");
        y.adopt("a clone_from that panicked");
        let _ = held;
    }
    drop(y);
    x.verify(cx, "comparisons");
}

/// One vector and its slice
fn alone<E: Elem, K: Store<E>>(cx: &mut Cx, x: &mut Sub<E, K>) {
    let n = x.m.len();
    let v = &mut x.g.v;
    let p = v.as_ptr();
    {
        let v = &*v;
        let s: &[E] = v;
        check!(s.as_ptr() == p && s.len() == n, "Deref");
        let s: &[E] = v.as_ref();
        check!(s.as_ptr() == p && s.len() == n, "AsRef");
        let s: &[E] = v.borrow();
        check!(s.as_ptr() == p && s.len() == n, "Borrow");
        let s = v.as_slice();
        check!(s.as_ptr() == p && s.len() == n, "as_slice");
        check!(v.iter().as_slice().as_ptr() == p && v.iter().len() == n, "iter");
        let it: core::slice::Iter<E> = v.into_iter();
        check!(it.as_slice().as_ptr() == p && it.len() == n, "IntoIterator of a reference");
    }
    let s: &mut [E] = v;
    check!(s.as_ptr() == p && s.len() == n, "DerefMut");
    let s: &mut [E] = v.as_mut();
    check!(s.as_ptr() == p && s.len() == n, "AsMut");
    let s: &mut [E] = v.borrow_mut();
    check!(s.as_ptr() == p && s.len() == n, "BorrowMut");
    let s = v.as_mut_slice();
    check!(s.as_ptr() == p && s.len() == n, "as_mut_slice");
    let it: core::slice::IterMut<E> = v.into_iter();
    check!(it.len() == n && it.into_slice().as_ptr() == p, "IntoIterator of a mutable reference");
    // indexing
    for _ in 0..4 {
        let i = cx.rng.below(n + 3);
        let j = cx.rng.below(n + 3);
        let want = if i <= j && j <= n { Some((i, j)) } else { None };
        slice(cx, v, i..j, want, n, p, "i..j");
        let want = if j < n && i <= j + 1 { Some((i, j + 1)) } else { None };
        slice(cx, v, i..=j, want, n, p, "i..=j");
        slice(cx, v, i.., if i <= n { Some((i, n)) } else { None }, n, p, "i..");
        slice(cx, v, ..j, if j <= n { Some((0, j)) } else { None }, n, p, "..j");
        slice(cx, v, ..=j, if j < n { Some((0, j + 1)) } else { None }, n, p, "..=j");
        slice(cx, v, .., Some((0, n)), n, p, "..");
        #[cfg(not(feature = "nightly"))]
        slice(cx, v, (Bound::Excluded(i), Bound::Unbounded), if i < n { Some((i + 1, n)) } else { None }, n, p, "(Excluded(i), Unbounded)");
        #[cfg(feature = "nightly")]
        let _ = Bound::Excluded(i);
        let r = run(|| {
            let a: *const E = &v[i];
            let b: *const E = &mut v[i];
            (a, b)
        });
        if i < n {
            let q = p.wrapping_add(i);
            check_eq!(want_ok(r, "indexing"), (q, q), "the element at {}", i);
        } else {
            want_panic(cx, r, "indexing out of bounds");
        }
        check_eq!(v.get(i).map(|x| x as *const E), if i < n { Some(p.wrapping_add(i)) } else { None }, "get({})", i);
    }
    cx.op("a vector and its slice");
}

fn slice<E: Elem, S: Storage<E>, R>(cx: &mut Cx, v: &mut GenericVec<E, S>, r: R, want: Option<(usize, usize)>, n: usize, p: *const E, what: &str)
where
    R: Clone + core::slice::SliceIndex<[E], Output = [E]>,
{
    let r1 = r.clone();
    let got = run(|| {
        let s = &v[r1];
        (s.as_ptr(), s.len())
    });
    let got_mut = run(|| {
        let s = &mut v[r];
        (s.as_ptr(), s.len())
    });
    match want {
        Some((a, b)) => {
            let w = (p.wrapping_add(a), b - a);
            check_eq!(want_ok(got, "indexing by a range"), w, "the slice {} of {} ({:?})", what, n, want);
            check_eq!(want_ok(got_mut, "indexing by a range"), w, "the mutable slice {} of {} ({:?})", what, n, want);
        }
        None => {
            want_panic(cx, got, "indexing by a range out of bounds");
            want_panic(cx, got_mut, "indexing by a range out of bounds");
        }
    }
}

/// Clones of whole vectors
fn clones<E: Elem, S: StorageWithCapacity<E>>(cx: &mut Cx, most: usize) {
    let n = cx.rng.below(most + 1);
    let mut v: GenericVec<E, S> = GenericVec::with_capacity(if cx.rng.chance(1, 2) { most } else { n });
    for _ in 0..n {
        let _ = v.push(cx.make());
    }
    let m = items(&v);
    let (made, cl) = ledger(|l| (l.recs.len() as u32, l.clones));
    let mut c = want_ok(run(|| v.clone()), "clone");
    cx.op("clone");
    cx.log(|| format!("clone of {} elements", n));
    check_eq!(c.len(), n, "length of a clone");
    check!(c.capacity() >= n, "capacity {} of a clone of {} elements", c.capacity(), n);
    same(&v, &m, "the original after clone");
    check_alive(&c, "clone");
    if E::TRACKED {
        check_eq!(ledger(|l| l.clones) - cl, n as u64, "clones made of {} elements", n);
        check_eq!(mon::live(), 2 * n as isize, "elements alive after clone");
    }
    for (i, x) in c.iter().enumerate() {
        check_eq!(x.val(), m[i].val, "element {} of a clone", i);
        if E::TRACKED && !E::ZST {
            check_eq!(x.id(), made + 1 + i as u32, "element {} of a clone: elements are cloned in order, once each", i);
        }
    }
    check!(c == v && v == c, "a clone is not equal to its original");
    check!(c.cmp_(&v) == Some(Ordering::Equal), "a clone compares unequal to its original");
    check_eq!(tape(&c), tape(&v), "hash of a clone");
    // independent
    if n > 0 {
        check!(E::ZST || c.as_ptr() != v.as_ptr(), "a clone shares the memory of its original");
        c[0].set(1 % E::VALS);
        drop(c.pop());
    }
    same(&v, &m, "the original after its clone was changed");
    check_alive(&c, "the original is there");
    let c2 = items(&c);
    drop(v);
    same(&c, &c2, "a clone whose original is gone");
    if E::TRACKED {
        check_eq!(mon::live(), c.len() as isize, "elements alive after the original of a clone is gone");
    }
    // Clone::clone_from
    let mut d: GenericVec<E, S> = Default::default();
    check!(d.is_empty() && d.len() == 0, "a default vector is not empty");
    let k = cx.rng.below(most + 1);
    for _ in 0..k {
        let _ = d.push(cx.make());
    }
    Clone::clone_from(&mut d, &c);
    check!(d == c, "clone_from of {} elements into {}", c.len(), k);
    if E::TRACKED {
        check_eq!(mon::live(), 2 * c.len() as isize, "elements alive after clone_from");
    }
    drop(c);
    for (x, y) in d.iter().zip(&c2) {
        check_eq!(x.val(), y.val, "element after clone_from");
    }
    drop(d);
    untracked(|| drop((m, c2)));
    mon::check_errors("clone");
}

trait Cmp<T> {
    fn cmp_(&self, o: &Self) -> Option<Ordering>;
}
impl<T: PartialOrd, S: Storage<T>> Cmp<T> for GenericVec<T, S> {
    fn cmp_(&self, o: &Self) -> Option<Ordering> {
        self.partial_cmp(o)
    }
}

/// Elements that are not equal to themselves, and have no order; and a total one
fn floats(cx: &mut Cx) {
    let pick = |cx: &mut Cx| cx.rng.pick(&[0.0, -0.0, 1.0, f32::NAN, f32::INFINITY]);
    let mut v: GenericVec<f32, MonStore<f32>> = Default::default();
    let mut w = generic_vec::TypeVec::<f32, [f32; 8]>::new();
    let (mut a, mut b): (Vec<f32>, Vec<f32>) = Default::default();
    for i in 0..cx.rng.below(6) {
        let x = pick(cx);
        let y = if cx.rng.chance(1, 5) { pick(cx) } else { x };
        v.push(x);
        untracked(|| a.push(x));
        if i > 0 || cx.rng.chance(4, 5) {
            w.push(y);
            untracked(|| b.push(y));
        }
    }
    check_eq!(v == w, a == b, "== of {:?} and {:?}", a, b);
    check_eq!(w != v, b != a, "!= of {:?} and {:?}", b, a);
    check_eq!(v.partial_cmp(&w), a.partial_cmp(&b), "partial_cmp of {:?} and {:?}", a, b);
    check_eq!(v == b, a == b, "== of a vector {:?} and a Vec {:?}", a, b);
    check_eq!(v.eq(&v), a == *a.clone(), "== of {:?} and itself", a);
    check_eq!((v < w, v <= w, v > w, v >= w), (a < b, a <= b, a > b, a >= b), "order of {:?} and {:?}", a, b);
    untracked(|| drop((a, b)));
    // Ord, Borrow in a map
    let (mut x, mut y) = (generic_vec::TypeVec::<u8, [u8; 4]>::new(), generic_vec::TypeVec::<u8, [u8; 4]>::new());
    for _ in 0..cx.rng.below(5) {
        x.push(cx.rng.below(3) as u8);
    }
    for _ in 0..cx.rng.below(5) {
        y.push(cx.rng.below(3) as u8);
    }
    check_eq!(x.cmp(&y), x.as_slice().cmp(y.as_slice()), "cmp of {:?} and {:?}", x.as_slice(), y.as_slice());
    let larger = x.clone().max(y.clone());
    check_eq!(larger.as_slice(), x.as_slice().max(y.as_slice()), "max of {:?} and {:?}", x.as_slice(), y.as_slice());
    check_eq!(x == [1u8, 2, 0], x.as_slice() == [1u8, 2, 0], "== of {:?} and an array", x.as_slice());
    untracked(|| {
        let mut m = std::collections::HashMap::new();
        let mut t = std::collections::BTreeMap::new();
        m.insert(x.clone(), 1);
        t.insert(x.clone(), 1);
        check_eq!(m.get(x.as_slice()), Some(&1), "lookup of a key by its slice in a HashMap");
        check_eq!(t.get(x.as_slice()), Some(&1), "lookup of a key by its slice in a BTreeMap");
        check_eq!(m.get(y.as_slice()).is_some(), x.as_slice() == y.as_slice(), "lookup of another key in a HashMap");
        check_eq!(t.get(y.as_slice()).is_some(), x.as_slice() == y.as_slice(), "lookup of another key in a BTreeMap");
    });
}

fn main() {
    drive::main(
        "C18",
        groups!(W;
            #[cfg(feature = "alloc")] 4: Tb, HeapK;
            2: Tb, SliceK;
            2: Tw, ArrK<8>;
            2: Tw, ExactK;
            #[cfg(feature = "alloc")] 1: Tw, BoxK<5>;
            1: Ts, BytesK<45>;
            1: T3, AlienSliceK<u32>;
            1: Tz, ZsK;
            #[cfg(feature = "alloc")] 2: Cu8, HeapK;
            2: Cu32, InitArr16;
            1: Cu8, InitSliceK;
        ),
        10000,
    )
}
