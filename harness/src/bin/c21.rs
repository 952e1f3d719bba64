//! Initialised storages and spare capacity expose only initialised memory.
use core::mem::MaybeUninit;
use generic_vec::raw::{Storage, StorageInit, StorageWithCapacity, UninitBuffer};
use generic_vec::{uninit_array, GenericVec, InitSliceVec, SliceVec};
use vharness::alloc::untracked;
use vharness::cx::{check_alive, items, show, Cx, Group, Sub, Work};
use vharness::elem::*;
use vharness::eng::{self, want_ok, want_panic};
use vharness::mon::{self, run};
use vharness::stores::*;
use vharness::{check, check_eq, drive};

// ---------------------------------------------------------------- set_len

/// A vector, and a model of its whole buffer
struct Whole<'a, E: CopyElem, S: ?Sized + StorageInit<E>> {
    v: &'a mut GenericVec<E, S>,
    /// values of all slots (of the first few, if the elements are zero-sized)
    buf: Vec<u32>,
    len: usize,
    cap: usize,
    /// every value that was ever stored
    seen: Vec<u32>,
}

impl<'a, E: CopyElem, S: ?Sized + StorageInit<E>> Whole<'a, E, S> {
    fn see(&mut self, x: u32) {
        if !self.seen.contains(&x) {
            untracked(|| self.seen.push(x))
        }
    }
    fn put(&mut self, x: u32) {
        self.see(x);
        self.buf[self.len] = x;
        self.len += 1;
    }
    /// The vector is what the model says, and so is its spare capacity
    fn verify(&mut self, cx: &mut Cx, what: &str) {
        mon::check_errors(what);
        let len = self.len;
        check_eq!(self.v.len(), len, "length after {}", what);
        check_eq!(self.v.capacity(), if E::ZST { usize::MAX } else { self.cap }, "capacity after {}", what);
        let got: Vec<u32> = untracked(|| self.v.iter().map(|x| x.val()).collect());
        check!(got == self.buf[..len], "contents after {}: got {:?}, expected {:?}", what, got, &self.buf[..len]);
        self.v.set_len(self.cap);
        let all: Vec<u32> = untracked(|| self.v.iter().map(|x| x.val()).collect());
        self.v.set_len(len);
        check!(all == self.buf, "the whole buffer after {} (the vector is the first {}): got {:?}, expected {:?}", what, len, all, self.buf);
        for x in &self.buf {
            cx.hash(*x as u64)
        }
        cx.hash(len as u64);
        untracked(|| drop((got, all)));
    }
    /// After an operation that moves elements: the contents are `m`, the rest are values stored before
    fn adopt(&mut self, cx: &mut Cx, m: &[u32], what: &str) {
        for x in m {
            self.see(*x)
        }
        check_eq!(self.v.len(), m.len(), "length after {}", what);
        let n = m.len();
        self.v.set_len(self.cap);
        let all: Vec<u32> = untracked(|| self.v.iter().map(|x| x.val()).collect());
        self.v.set_len(n);
        check!(all[..n] == *m, "contents after {}: got {:?}, expected {:?}", what, &all[..n], m);
        if let Some(x) = all[n..].iter().find(|x| !self.seen.contains(x)) {
            vharness::violate!("after {}, a slot past the contents shows {}, which was never stored: {:?}, length {}", what, x, all, n)
        }
        untracked(|| self.buf = all);
        self.len = n;
        self.verify(cx, what)
    }
    fn step(&mut self, cx: &mut Cx) {
        let (len, cap) = (self.len, self.cap);
        match cx.rng.below(20) {
            0..=4 => {
                let n = cx.index(cap);
                cx.op("set_len");
                cx.log(|| format!("set_len({})  // was {}", n, len));
                want_ok(run(|| self.v.set_len(n)), "set_len");
                cx.nontrivial |= n > len;
                self.len = n;
                self.verify(cx, "set_len")
            }
            5 => {
                let n = cx.rng.pick(&[cap + 1, cap + 2, usize::MAX, usize::MAX / 2, isize::MAX as usize, cap * 2 + 1]);
                cx.op("set_len past the end");
                cx.log(|| format!("set_len({})  // of {}", n, cap));
                let r = run(|| self.v.set_len(n));
                if E::ZST {
                    // there is room for any number
                    want_ok(r, "set_len");
                    check_eq!(self.v.len(), n, "length after set_len");
                    check_eq!(self.v.as_slice().len(), n, "length of the slice after set_len");
                    self.v.set_len(len)
                } else {
                    want_panic(cx, r, "set_len past the capacity")
                }
                self.verify(cx, "set_len past the end")
            }
            6 | 7 => {
                let e: E = cx.make();
                cx.op("push");
                cx.log(|| format!("push({})", e.val()));
                if len < cap {
                    let x = want_ok(run(|| self.v.push(e).val()), "push");
                    check_eq!(x, e.val(), "element behind the reference of push");
                    self.put(e.val())
                } else if !E::ZST {
                    let r = run(|| {
                        let _ = self.v.push(e);
                    });
                    want_panic(cx, r, "push on a full vector")
                }
                self.verify(cx, "push")
            }
            8 | 9 if len > 0 => {
                cx.op("pop");
                cx.log(|| "pop()".into());
                let e = want_ok(run(|| self.v.pop()), "pop");
                self.len -= 1;
                check_eq!(e.val(), self.buf[self.len], "element popped");
                self.verify(cx, "pop")
            }
            10 => {
                let n = cx.index(len);
                cx.op("truncate");
                cx.log(|| format!("truncate({})", n));
                want_ok(run(|| self.v.truncate(n)), "truncate");
                self.len = n;
                self.verify(cx, "truncate")
            }
            11 if cx.rng.chance(1, 2) => {
                cx.op("clear");
                cx.log(|| "clear()".into());
                want_ok(run(|| self.v.clear()), "clear");
                self.len = 0;
                self.verify(cx, "clear")
            }
            12 if len > 0 => {
                let (i, e): (usize, E) = (cx.rng.below(len), cx.make());
                cx.op("write through the slice");
                cx.log(|| format!("v[{}] = {}", i, e.val()));
                self.v[i] = e;
                self.see(e.val());
                self.buf[i] = e.val();
                self.verify(cx, "writing to an element")
            }
            13 | 14 => {
                let k = cx.rng.below(cap - len + 1).min(cx.amount());
                let xs: Vec<E> = untracked(|| (0..k).map(|_| cx.make()).collect());
                cx.log(|| format!("extend by {:?}", xs));
                match cx.rng.below(4) {
                    0 => {
                        cx.op("extend_from_slice");
                        want_ok(run(|| self.v.extend_from_slice(&xs)), "extend_from_slice");
                    }
                    1 => {
                        cx.op("extend");
                        want_ok(run(|| self.v.extend(xs.iter().copied())), "extend");
                    }
                    2 => {
                        cx.op("extend by references");
                        want_ok(run(|| self.v.extend(&xs)), "extend");
                    }
                    _ => {
                        cx.op("grow_with");
                        let mut i = 0;
                        want_ok(
                            run(|| {
                                self.v.grow_with(k, || {
                                    i += 1;
                                    xs[i - 1]
                                })
                            }),
                            "grow_with",
                        );
                    }
                }
                for x in &xs {
                    self.put(x.val())
                }
                untracked(|| drop(xs));
                self.verify(cx, "extending the vector")
            }
            15 => {
                let n = cx.rng.below(cap + 1);
                let e: E = cx.make();
                cx.op("resize");
                cx.log(|| format!("resize({}, {})", n, e.val()));
                want_ok(run(|| self.v.resize(n, e)), "resize");
                while self.len < n {
                    self.put(e.val())
                }
                self.len = n;
                self.verify(cx, "resize")
            }
            16 => {
                // what is written to the spare capacity stays there
                let keep = cx.rng.chance(1, 2);
                let k = cx.rng.below(cap - len + 1).min(cx.amount());
                let xs: Vec<E> = untracked(|| (0..k).map(|_| cx.make()).collect());
                cx.op("spare_capacity_mut");
                cx.log(|| format!("spare_capacity_mut().extend({:?}), saved: {}", xs, keep));
                // (save_spare! takes sized vectors only)
                let v: *mut GenericVec<E, S> = &mut *self.v;
                let mut sp = unsafe { (*v).spare_capacity_mut() };
                check_eq!(sp.capacity(), if E::ZST { usize::MAX } else { cap - len }, "capacity of the spare slice");
                for x in &xs {
                    let _ = sp.push(*x);
                }
                if keep {
                    let n = len + sp.len();
                    core::mem::forget(sp);
                    unsafe { (*v).set_len_unchecked(n) }
                } else {
                    drop(sp)
                }
                for x in &xs {
                    self.put(x.val())
                }
                if !keep {
                    self.len = len
                }
                untracked(|| drop(xs));
                self.verify(cx, "writing to the spare capacity")
            }
            _ => self.shift(cx),
        }
    }
    /// Operations that move elements around
    fn shift(&mut self, cx: &mut Cx) {
        let (len, cap) = (self.len, self.cap);
        let mut m: Vec<u32> = untracked(|| self.buf[..len].to_vec());
        let (a, b) = cx.range(len);
        let e: E = cx.make();
        let x = e.val();
        self.see(x);
        let what = match cx.rng.below(7) {
            0 if len < cap => {
                let _ = self.v.insert(a, e);
                untracked(|| m.insert(a, x));
                "insert"
            }
            1 if a < len => {
                let (g, w) = (self.v.remove(a).val(), m.remove(a));
                check_eq!(g, w, "element removed");
                "remove"
            }
            2 if a < len => {
                let (g, w) = (self.v.swap_remove(a).val(), m.swap_remove(a));
                check_eq!(g, w, "element removed");
                "swap_remove"
            }
            3 => {
                let g: Vec<u32> = untracked(|| self.v.drain(a..b).map(|x| x.val()).collect());
                let w: Vec<u32> = untracked(|| m.drain(a..b).collect());
                check_eq!(g, w, "elements drained");
                untracked(|| drop((g, w)));
                "drain"
            }
            4 => {
                let k = cx.rng.below(3) as u32;
                self.v.retain(|x| x.val() % 3 != k);
                m.retain(|x| x % 3 != k);
                "retain"
            }
            5 => {
                let k = (0..cx.rng.below(4)).map(|_| e).take(cap - len + (b - a));
                let n = k.clone().count();
                drop(self.v.splice(a..b, k));
                untracked(|| drop(m.splice(a..b, core::iter::repeat(x).take(n))));
                "splice"
            }
            _ => {
                self.v.dedup_by(|a, b| a.val() == b.val());
                m.dedup();
                "dedup"
            }
        };
        cx.op("moving elements");
        cx.log(|| format!("{} {}..{} {}  // {:?}", what, a, b, x, m));
        self.adopt(cx, &m, what);
        untracked(|| drop(m))
    }
}

/// `len` elements of the buffer are the contents at first
fn on<E: CopyElem, S: ?Sized + StorageInit<E>>(cx: &mut Cx, v: &mut GenericVec<E, S>, buf: Vec<u32>, len: usize) {
    cx.log(|| format!("buffer of {} {}: {:?}, length {}", buf.len(), E::NAME, buf, len));
    let cap = buf.len();
    let mut w = Whole { v, seen: untracked(|| buf.clone()), buf, len, cap };
    w.verify(cx, "making the vector");
    for _ in 0..if cx.scale == 0 { 10 } else { 25 } {
        w.step(cx)
    }
    untracked(|| drop((w.seen, w.buf)))
}

fn values<E: CopyElem>(xs: &[E]) -> Vec<u32> {
    untracked(|| xs.iter().map(|x| x.val()).collect())
}

fn some<E: CopyElem, const N: usize>(cx: &mut Cx) -> [E; N] {
    let mut a = [E::default(); N];
    for x in a.iter_mut() {
        *x = cx.make()
    }
    a
}

/// `InitArrayVec`
fn arrays<E: CopyElem, const N: usize>(cx: &mut Cx)
where
    [E; N]: StorageInit<E> + StorageWithCapacity<E>,
{
    type V<E, const N: usize> = generic_vec::InitArrayVec![E; N];
    let defaults = untracked(|| vec![E::default().val(); N]);
    let how = cx.rng.below(9);
    cx.log(|| format!("array of {}, made by way {}", N, how));
    match how {
        0 => {
            let mut v = Guarded::new(V::<E, N>::default());
            on(cx, &mut v.v, untracked(|| defaults.clone()), 0);
            check_eq!(v.check(), None::<String>, "memory around the vector");
        }
        1 => {
            let n = cx.rng.below(N + 1);
            let mut v = Guarded::new(V::<E, N>::with_capacity(n));
            on(cx, &mut v.v, untracked(|| defaults.clone()), 0);
            check_eq!(v.check(), None::<String>, "memory around the vector");
        }
        2 => {
            // the clone of a vector has a buffer of its own
            let a = some::<E, N>(cx);
            let n = cx.rng.below(N + 1);
            let mut v: V<E, N> = GenericVec::with_storage(a);
            v.set_len(n);
            let mut c = Guarded::new(v.clone());
            check_eq!(values(&c.v), values(&a[..n]), "contents of the clone");
            c.v.set_len(N);
            let all = values(&c.v);
            c.v.set_len(n);
            let d = E::default().val();
            check!(all[n..].iter().all(|x| *x == d || a.iter().any(|y| y.val() == *x)), "the buffer of a clone shows values that were never stored: {:?}", all);
            on(cx, &mut c.v, all, n);
            v.set_len(N);
            check_eq!(values(&v), values(&a), "the original");
            check_eq!(c.check(), None::<String>, "memory around the vector");
        }
        3 => {
            // split_off makes the other vector
            let a = some::<E, N>(cx);
            let mut v: V<E, N> = GenericVec::with_storage(a);
            v.set_len(N);
            let at = cx.rng.below(N + 1);
            let mut o: GenericVec<E, [E; N]> = v.split_off(at);
            check_eq!(values(&o), values(&a[at..]), "contents of the vector split off");
            check_eq!(values(&v), values(&a[..at]), "contents of the rest");
            v.set_len(N);
            let m = values(&v);
            on(cx, &mut v, m, N);
            let n = o.len();
            o.set_len(N);
            let all = values(&o);
            let d = E::default().val();
            check!(all[n..].iter().all(|x| *x == d), "past the contents of the vector split off: {:?}", all);
            o.set_len(n);
            on(cx, &mut o, all, n);
        }
        4 => {
            // unsized, behind a reference
            let a = some::<E, N>(cx);
            let mut v: V<E, N> = GenericVec::with_storage(a);
            let n = cx.rng.below(N + 1);
            v.set_len(n);
            let m = values(&a);
            {
                let u: &mut GenericVec<E, [E]> = &mut v;
                if !E::ZST {
                    check_eq!(u.capacity(), N, "capacity of an unsized vector");
                }
                on(cx, u, m, n);
            }
            check_eq!(v.capacity(), if E::ZST { usize::MAX } else { N }, "capacity");
        }
        5 => {
            // the storage is a reference
            let mut a = some::<E, N>(cx);
            let m = values(&a);
            let mut v: GenericVec<E, &mut [E; N]> = GenericVec::with_storage(&mut a);
            on(cx, &mut v, m, 0);
            let n = v.len();
            v.set_len(N);
            let m = values(&v);
            v.set_len(n);
            let (l, s) = v.into_raw_parts();
            check_eq!(l, n, "length of into_raw_parts");
            check_eq!(values(&s[..]), m, "the array after the vector");
            check_eq!(values(&a), m, "the array after the vector");
        }
        #[cfg(feature = "alloc")]
        6 => {
            let a = some::<E, N>(cx);
            let m = values(&a);
            let mut v: GenericVec<E, Box<[E; N]>> = GenericVec::with_storage(Box::new(a));
            on(cx, &mut v, m, 0);
        }
        #[cfg(feature = "alloc")]
        7 => {
            // unsized, in a box
            let a = some::<E, N>(cx);
            let m = values(&a);
            let mut v: V<E, N> = GenericVec::with_storage(a);
            let n = cx.rng.below(N + 1);
            v.set_len(n);
            let mut v: Box<GenericVec<E, [E]>> = Box::new(v);
            on(cx, &mut *v, m, n);
        }
        _ => {
            // moves keep the whole buffer
            let a = some::<E, N>(cx);
            let mut v: V<E, N> = GenericVec::with_storage(a);
            let n = cx.rng.below(N + 1);
            v.set_len(n);
            let (l, s) = v.into_raw_parts();
            check_eq!(l, n, "length of into_raw_parts");
            check_eq!(values(&s), values(&a), "storage of into_raw_parts");
            let mut v = unsafe { V::<E, N>::from_raw_parts(l, s) };
            on(cx, &mut v, values(&a), n);
        }
    }
    #[cfg(feature = "nightly")]
    {
        let a = some::<E, N>(cx);
        let mut v: generic_vec::InitArrayVec<E, N> = if cx.rng.chance(1, 2) { a.into() } else { generic_vec::InitArrayVec::new(a) };
        on(cx, &mut v, values(&a), N);
    }
    untracked(|| drop(defaults))
}

/// `InitSliceVec`
fn slices<E: CopyElem>(cx: &mut Cx) {
    let n = pick_cap(&mut cx.rng).min(if cx.scale == 0 { 12 } else { 60 });
    let mut a: Vec<E> = untracked(|| (0..n + 2).map(|_| cx.make()).collect());
    let (first, last) = (a[0].val(), a[n + 1].val());
    let m = values(&a[1..n + 1]);
    match cx.rng.below(4) {
        0 => {
            let mut v: GenericVec<E, &mut [E]> = GenericVec::with_storage(&mut a[1..n + 1]);
            check_eq!(v.len(), 0, "length of a new vector");
            on(cx, &mut v, m, 0);
        }
        #[cfg(feature = "alloc")]
        1 => {
            let b: Box<[E]> = a[1..n + 1].to_vec().into_boxed_slice();
            let mut v: GenericVec<E, Box<[E]>> = GenericVec::with_storage(b);
            on(cx, &mut v, m, 0);
        }
        _ => {
            let mut v = InitSliceVec::new(&mut a[1..n + 1]);
            check_eq!(v.len(), n, "length of InitSliceVec::new");
            check_eq!(v.is_full(), n == v.capacity(), "is_full of InitSliceVec::new");
            on(cx, &mut v, m, n);
            let n = v.len();
            let all = v.capacity().min(n + 100);
            v.set_len(if E::ZST { n } else { all });
            let w = values(&v);
            let s = v.into_raw_parts().1;
            if !E::ZST {
                check_eq!(values(s), w, "the slice after the vector");
            }
        }
    }
    check_eq!((a[0].val(), a[n + 1].val()), (first, last), "elements next to the slice");
    untracked(|| drop(a))
}

// ------------------------------------------------------------------ spare

struct Spare;
impl Work for Spare {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let ops = eng::list(&[eng::core_ops::<E, K>, eng::bulk_ops::<E, K>, eng::cap_ops::<E, K>]);
        for _ in 0..if cx.scale == 0 { 5 } else { 12 } {
            spare(cx, &mut s);
            if cx.rng.chance(1, 2) {
                let op = cx.rng.pick(&ops);
                op(cx, &mut s)
            }
            eng::trim(cx, &mut s, 400);
        }
        untracked(|| drop(ops));
        let own = s.leaked == 0;
        drop(s);
        if E::TRACKED && own {
            check_eq!(mon::live(), 0, "elements alive after the vector");
        }
        macros::<E>(cx)
    }
}

/// Works on the spare capacity, then drops, saves or forgets what was made
fn spare<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    if cx.rng.chance(1, 3) && !s.is_fixed() {
        let k = cx.amount();
        want_ok(run(|| s.g.v.reserve(k)), "reserve");
        s.cap = s.g.v.capacity();
    }
    cx.op("spare_capacity_mut");
    let (len, cap, ptr) = (s.m.len(), s.g.v.capacity(), s.g.v.as_ptr());
    let held = s.m.len() as isize + s.leaked;
    let room = cap - len;
    let mut sp = s.g.v.spare_capacity_mut();
    check_eq!(sp.len(), 0, "length of the spare slice");
    check_eq!(sp.capacity(), if E::ZST { usize::MAX } else { room }, "capacity of the spare slice");
    check_eq!(sp.as_ptr() as usize, ptr as usize + len * core::mem::size_of::<E>(), "address of the spare slice");
    let mut m: Vec<Item> = untracked(Vec::new);
    cx.log(|| format!("spare_capacity_mut  // of {} past {}", room, len));
    for _ in 0..cx.rng.below(6) {
        let left = room - m.len();
        let k = cx.amount().min(left);
        match cx.rng.below(8) {
            0 | 1 | 2 => {
                for _ in 0..k {
                    let e: E = cx.make();
                    untracked(|| m.push(e.item()));
                    let _ = sp.push(e);
                }
            }
            3 if left > 0 => {
                let i = cx.rng.below(m.len() + 1);
                let e: E = cx.make();
                untracked(|| m.insert(i, e.item()));
                let _ = sp.insert(i, e);
            }
            4 if !m.is_empty() => {
                let i = cx.rng.below(m.len());
                check_eq!(sp.remove(i).item(), m.remove(i), "element removed from the spare slice");
            }
            5 => {
                let i = cx.rng.below(m.len() + 1);
                sp.truncate(i);
                m.truncate(i);
            }
            6 => {
                let mut v: Vec<E> = Vec::with_capacity(k);
                for _ in 0..k {
                    let e: E = cx.make();
                    untracked(|| m.push(e.item()));
                    v.push(e)
                }
                want_ok(run(|| sp.extend(v.into_iter())), "extend of the spare slice");
            }
            _ => {
                // one too many
                if !E::ZST && left < 40 {
                    for _ in 0..left {
                        let e: E = cx.make();
                        untracked(|| m.push(e.item()));
                        let _ = sp.push(e);
                    }
                    let e: E = cx.make();
                    let it = e.item();
                    match sp.try_push(e) {
                        Ok(_) => vharness::violate!("try_push to a full spare slice succeeded"),
                        Err(e) => check_eq!(e.item(), it, "element handed back"),
                    }
                }
            }
        }
        check_alive(&sp, "an operation on the spare slice");
        check_eq!(items(&sp), m, "contents of the spare slice");
        if E::TRACKED {
            check_eq!(mon::live(), held + m.len() as isize, "elements alive, those in the spare slice included");
        }
        mon::check_errors("an operation on the spare slice");
    }
    cx.nontrivial |= !m.is_empty();
    cx.hash_items(&m);
    match cx.rng.below(8) {
        0 => {
            cx.op("forgotten spare slice");
            cx.log(|| format!("forget {}", show(&m)));
            core::mem::forget(sp);
            if E::TRACKED {
                s.leaked += m.len() as isize;
                cx.leaky |= !m.is_empty();
            }
            untracked(|| drop(m));
        }
        1 | 2 | 3 => {
            cx.op("dropped spare slice");
            cx.log(|| format!("drop {}", show(&m)));
            want_ok(run(move || drop(sp)), "dropping the spare slice");
            untracked(|| drop(m));
        }
        _ => {
            cx.op("save_spare");
            cx.log(|| format!("save_spare {}", show(&m)));
            unsafe { generic_vec::save_spare!(sp, &mut s.g.v) }
            untracked(|| s.m.extend(m));
        }
    }
    s.verify(cx, "work on the spare capacity");
    check_eq!(s.g.v.as_ptr(), ptr, "data pointer after work on the spare capacity");
    check_eq!(s.g.v.capacity(), cap, "capacity after work on the spare capacity");
}

/// uninit_array!, ArrayVec!
fn macros<E: Elem>(cx: &mut Cx) {
    let base = mon::live();
    let mut buf: [MaybeUninit<E>; 12] = uninit_array!(12);
    let n = cx.rng.below(13);
    let mut m = untracked(Vec::new);
    {
        let mut v = SliceVec::new(&mut buf);
        for _ in 0..n {
            let e: E = cx.make();
            untracked(|| m.push(e.item()));
            let _ = v.push(e);
        }
        vharness::own::same(&v, &m, "a vector in an uninit_array!");
        if !E::ZST {
            check_eq!((v.capacity(), v.is_full()), (12, n == 12), "capacity of a vector in an uninit_array!");
        }
    }
    // a used buffer is as good as a new one
    let mut v = SliceVec::new(&mut buf);
    check_eq!(v.len(), 0, "length of a vector in a used buffer");
    let e: E = cx.make();
    let it = e.item();
    let _ = v.push(e);
    vharness::own::same(&v, &[it], "a vector in a used buffer");
    drop(v);
    m.clear();
    type A<E> = generic_vec::ArrayVec![E; 7];
    let mut v = A::<E>::with_align();
    for _ in 0..n.min(7) {
        let e: E = cx.make();
        untracked(|| m.push(e.item()));
        let _ = v.push(e);
    }
    vharness::own::same(&v, &m, "an ArrayVec!");
    if !E::ZST {
        check_eq!(Storage::<E>::capacity(v.storage()), 7, "capacity of an ArrayVec!");
    }
    let _: &UninitBuffer<[E; 7]> = v.storage();
    drop(v);
    mon::check_errors("uninit_array!, ArrayVec!");
    if E::TRACKED {
        check_eq!(mon::live(), base, "elements alive after uninit_array!, ArrayVec!");
    }
    untracked(|| drop(m))
}

fn main() {
    let mut groups: Vec<Group> = vharness::common_groups!(Spare);
    groups.push(("init array 0", 1, arrays::<Cu32, 0>));
    groups.push(("init array 1", 2, arrays::<Cu8, 1>));
    groups.push(("init array 2", 2, arrays::<C24, 2>));
    groups.push(("init array 9", 4, arrays::<Cu32, 9>));
    groups.push(("init array 17", 3, arrays::<Cu8, 17>));
    groups.push(("init array 32", 3, arrays::<Cu32, 32>));
    groups.push(("init array 5, zero-sized", 1, arrays::<Cz, 5>));
    groups.push(("init array 3, zero-sized and aligned", 1, arrays::<Cza, 3>));
    groups.push(("init slice, u8", 3, slices::<Cu8>));
    groups.push(("init slice, u32", 3, slices::<Cu32>));
    groups.push(("init slice, 24 bytes", 2, slices::<C24>));
    groups.push(("init slice, 72 bytes", 1, slices::<C72>));
    groups.push(("init array 3, 72 bytes", 1, arrays::<C72, 3>));
    groups.push(("init slice, zero-sized", 1, slices::<Cz>));
    drive::main("C21", groups, 10000)
}
