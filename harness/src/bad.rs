//! Operations at positions and ranges that may be out of bounds.
use crate::alloc::untracked;
use crate::cx::{items, Cx, Sub};
use crate::elem::*;
use crate::eng::{self, want_ok, want_panic, Feed};
use crate::mon::run;
use crate::stores::*;
use std::cell::Cell;
use std::ops::{Bound, RangeBounds};

/// a position: usually out of bounds
fn pos(cx: &mut Cx, n: usize) -> usize {
    match cx.rng.below(8) {
        0 => n,
        1 => n + 1,
        2 => n + 2 + cx.rng.below(40),
        3 => usize::MAX,
        4 => usize::MAX - cx.rng.below(4),
        5 => cx.rng.pick(&[isize::MAX as usize, isize::MAX as usize + 1, 1 << 32, 1 << 62, usize::MAX / 2]),
        6 => n.saturating_sub(1),
        _ => cx.rng.below(n + 1),
    }
}

fn bound(cx: &mut Cx, n: usize) -> Bound<usize> {
    let p = pos(cx, n);
    match cx.rng.below(7) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Excluded(p),
        _ => Bound::Included(p),
    }
}

/// the range `r` of a slice of length `n`, as std sees it
fn resolve(r: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
    let a = match r.0 {
        Bound::Unbounded => 0,
        Bound::Included(a) => a,
        Bound::Excluded(a) => a.checked_add(1)?,
    };
    let b = match r.1 {
        Bound::Unbounded => n,
        Bound::Excluded(b) => b,
        Bound::Included(b) => b.checked_add(1)?,
    };
    if a <= b && b <= n {
        Some((a, b))
    } else {
        None
    }
}

/// runs `$e` with `$r` bound to a range of the type that fits the bounds
macro_rules! with_range {
    ($bounds:expr, $plain:expr, |$r:ident| $e:expr) => {{
        use Bound::*;
        match ($bounds, $plain) {
            ((Included(a), Excluded(b)), true) => {
                let $r = a..b;
                $e
            }
            ((Included(a), Included(b)), true) => {
                let $r = a..=b;
                $e
            }
            ((Included(a), Unbounded), true) => {
                let $r = a..;
                $e
            }
            ((Unbounded, Excluded(b)), true) => {
                let $r = ..b;
                $e
            }
            ((Unbounded, Included(b)), true) => {
                let $r = ..=b;
                $e
            }
            ((Unbounded, Unbounded), true) => {
                let $r = ..;
                $e
            }
            (x, _) => {
                let $r = x;
                $e
            }
        }
    }};
}

/// A range that changes its mind: each time it is asked it gives another bound
struct Fickle {
    starts: [Bound<usize>; 3],
    ends: [Bound<usize>; 3],
    asked: Cell<(usize, usize)>,
}

fn by_ref(b: &Bound<usize>) -> Bound<&usize> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}

impl<'a> RangeBounds<usize> for &'a Fickle {
    fn start_bound(&self) -> Bound<&usize> {
        let (s, e) = self.asked.get();
        self.asked.set((s + 1, e));
        by_ref(&self.starts[s.min(2)])
    }
    fn end_bound(&self) -> Bound<&usize> {
        let (s, e) = self.asked.get();
        self.asked.set((s, e + 1));
        by_ref(&self.ends[e.min(2)])
    }
}

/// no more than what is there may be in a range; if it is, it must not be dropped
fn sane<C>(c: C, len: impl FnOnce(&C) -> usize, n: usize) -> C {
    let k = len(&c);
    if k > n {
        std::mem::forget(c);
        violate!("{} elements in a range of a vector of {}", k, n)
    }
    c
}

/// A range whose bounds are asked for several times need not agree with itself
fn fickle<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let n = s.m.len();
    let (ptr, cap) = (s.g.v.as_ptr(), s.g.v.capacity());
    // often valid at first
    let (a, b) = cx.range(n);
    let first = if cx.rng.chance(2, 3) { (Bound::Included(a), Bound::Excluded(b)) } else { (bound(cx, n), bound(cx, n)) };
    let mut f = Fickle { starts: [first.0; 3], ends: [first.1; 3], asked: Cell::new((0, 0)) };
    for k in 1..3 {
        f.starts[k] = if cx.rng.chance(1, 3) { Bound::Included(cx.index(n)) } else { bound(cx, n) };
        f.ends[k] = if cx.rng.chance(1, 3) { Bound::Excluded(cx.index(n)) } else { bound(cx, n) };
    }
    let kind = cx.rng.below(5);
    let what = ["drain", "drain_filter", "cursor", "splice", "raw_cursor"][kind];
    cx.log(|| format!("{} at length {} of a range that is {:?} to {:?}, each time it is asked", what, n, f.starts, f.ends));
    cx.op("fickle range");
    let v = &mut s.g.v;
    let r = &f;
    let e = run(|| {
        let mut got: Vec<E> = untracked(|| Vec::with_capacity(n));
        match kind {
            0 => {
                let d = sane(v.drain(r), |d| d.len(), n);
                d.for_each(|e| got.push(e))
            }
            1 => {
                let d = sane(v.drain_filter(r, |_| true), |d| d.size_hint().1.unwrap_or(n), n);
                d.for_each(|e| got.push(e))
            }
            2 => {
                let mut c = sane(v.cursor(r), |c| c.len(), n);
                while !c.is_empty() {
                    got.push(c.take_front())
                }
            }
            3 => {
                let mut d = sane(v.splice(r, None), |d| d.size_hint().0, n);
                d.by_ref().for_each(|e| got.push(e))
            }
            _ => {
                let mut c = sane(v.raw_cursor(r), |c| c.len(), n);
                while !c.is_empty() {
                    got.push(unsafe { c.take_back() })
                }
                got.reverse()
            }
        }
        let m = items(&got);
        drop(got);
        m
    });
    let once = f.asked.get() == (1, 1);
    if once {
        return finish(cx, s, e, resolve(first, n), ptr, cap, what)
    }
    match e {
        crate::mon::End::Ok(got) => {
            let k = got.len();
            check!(k <= n, "{} of a range that changes removed {} of {} elements", what, k, n);
            let old = untracked(|| s.m.clone());
            s.adopt(what);
            // some range went, and the rest is there
            let fits = (0..=n - k).any(|a| old[a..a + k] == got[..] && s.m[..a] == old[..a] && s.m[a..] == old[a + k..]);
            check!(fits, "{} of a range that changes removed no range", what);
            untracked(|| drop((old, got)));
        }
        e => {
            want_panic(cx, e, what);
            same(cx, s, ptr, cap, 0, what)
        }
    }
}

/// Everything is as it was; `held` elements are outside
fn same<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, ptr: *const E, cap: usize, held: isize, what: &str) {
    check_eq!(s.g.v.capacity(), cap, "capacity after {} was rejected", what);
    check_eq!(s.g.v.as_ptr(), ptr, "pointer after {} was rejected", what);
    s.verify_held(cx, held, what);
    cx.nontrivial = true;
}

pub fn step<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let n = s.m.len();
    let (ptr, cap) = (s.g.v.as_ptr(), s.g.v.capacity());
    let i = pos(cx, n);
    let r = (bound(cx, n), bound(cx, n));
    let plain = cx.rng.chance(2, 3);
    let ok = resolve(r, n);
    if cx.rng.chance(1, 15) {
        return fickle(cx, s)
    }
    match cx.rng.below(15) {
        0 => {
            // insert
            let e: E = cx.make();
            let it = e.item();
            let fits = s.fits(1);
            cx.log(|| format!("insert({}, ..) at length {}", i, n));
            cx.op("insert");
            let r = run(|| {
                s.g.v.insert(i, e);
            });
            if i <= n && fits {
                want_ok(r, "insert");
                untracked(|| s.m.insert(i, it));
                s.verify(cx, "insert");
            } else {
                want_panic(cx, r, "insert out of bounds");
                if i > n {
                    // (a full vector may try to grow first, but not change)
                    same(cx, s, ptr, cap, 0, "insert");
                }
            }
        }
        1 | 2 => {
            let swap = cx.rng.chance(1, 2);
            let what = if swap { "swap_remove" } else { "remove" };
            cx.log(|| format!("{}({}) at length {}", what, i, n));
            cx.op(what);
            let r = run(|| if swap { s.g.v.swap_remove(i) } else { s.g.v.remove(i) });
            if i < n {
                let e = want_ok(r, what);
                let it = if swap { s.m.swap_remove(i) } else { s.m.remove(i) };
                check_eq!(e.item(), it, "element of {}", what);
                drop(e);
                s.verify(cx, what);
            } else {
                want_panic(cx, r, what);
                same(cx, s, ptr, cap, 0, what);
            }
        }
        3 => {
            cx.log(|| format!("split_off({}) at length {}", i, n));
            cx.op("split_off");
            let r = run(|| s.g.v.split_off::<MonStore<E>>(i));
            if i <= n {
                let o = want_ok(r, "split_off");
                let m = untracked(|| s.m.split_off(i));
                check_eq!(items(&o), m, "the vector split off");
                drop(o);
                untracked(|| drop(m));
                s.verify(cx, "split_off");
            } else {
                want_panic(cx, r, "split_off out of bounds");
                same(cx, s, ptr, cap, 0, "split_off");
            }
        }
        4 => {
            cx.log(|| format!("split_off_into({}) at length {}", i, n));
            cx.op("split_off_into");
            let mut o: generic_vec::GenericVec<E, MonStore<E>> = generic_vec::GenericVec::with_capacity(1);
            o.push(cx.make());
            let first = o[0].item();
            let r = run(|| s.g.v.split_off_into(i, &mut o));
            if i <= n {
                want_ok(r, "split_off_into");
                let m = untracked(|| s.m.split_off(i));
                check_eq!(items(&o[1..]), m, "the elements split off");
                untracked(|| drop(m));
            } else {
                want_panic(cx, r, "split_off_into out of bounds");
                check_eq!(items(&o), &[first][..], "the target of split_off_into");
                same(cx, s, ptr, cap, 1, "split_off_into");
            }
            drop(o);
            s.verify(cx, "split_off_into");
        }
        5 => {
            cx.log(|| format!("drain({:?}) at length {}", r, n));
            cx.op("drain");
            let v = &mut s.g.v;
            let e = run(|| with_range!(r, plain, |r| {
                let mut d = v.drain(r);
                let mut got = untracked(Vec::new);
                while let Some(e) = d.next() {
                    let it = e.item();
                    untracked(|| got.push(it));
                    drop(e)
                }
                got
            }));
            finish(cx, s, e, ok, ptr, cap, "drain");
        }
        6 => {
            cx.log(|| format!("drain_filter({:?}) at length {}", r, n));
            cx.op("drain_filter");
            let v = &mut s.g.v;
            let mut seen = untracked(Vec::new);
            let e = run(|| {
                with_range!(r, plain, |r| {
                    let d = v.drain_filter(r, |e| {
                        let it = e.item();
                        untracked(|| seen.push(it));
                        true
                    });
                    drop(d)
                });
                untracked(|| seen.clone())
            });
            check!(ok.is_some() || seen.is_empty(), "drain_filter out of bounds called its predicate");
            untracked(|| drop(seen));
            finish(cx, s, e, ok, ptr, cap, "drain_filter");
        }
        7 | 8 => {
            let k = cx.rng.below(4);
            let (feed, new) = Feed::<E>::new(cx, k);
            let feed = feed.with_hint(eng::Hint::Exact);
            cx.log(|| format!("splice({:?}) by {} at length {}", r, k, n));
            cx.op("splice");
            let fits = ok.map_or(true, |(a, b)| s.is_fixed() && n - (b - a) + k <= cap || s.fits(k));
            if cx.same_everywhere && !fits {
                drop(feed);
                return untracked(|| drop(new))
            }
            let v = &mut s.g.v;
            let e = run(|| with_range!(r, plain, |r| drop(v.splice(r, feed))));
            match ok {
                Some((a, b)) if fits => {
                    want_ok(e, "splice");
                    untracked(|| {
                        let t = s.m.split_off(b);
                        s.m.truncate(a);
                        s.m.extend(new.iter().cloned());
                        s.m.extend(t);
                    });
                    s.verify(cx, "splice");
                }
                Some(_) => {
                    want_panic(cx, e, "splice beyond the capacity");
                    s.adopt("splice");
                    s.verify(cx, "splice");
                }
                None => {
                    want_panic(cx, e, "splice out of bounds");
                    same(cx, s, ptr, cap, 0, "splice");
                }
            }
            untracked(|| drop(new));
        }
        9 | 10 => {
            let raw = cx.rng.chance(1, 2);
            let what = if raw { "raw_cursor" } else { "cursor" };
            cx.log(|| format!("{}({:?}) at length {}", what, r, n));
            cx.op(what);
            let v = &mut s.g.v;
            let e = run(|| {
                with_range!(r, plain, |r| {
                    if raw {
                        v.raw_cursor(r).len()
                    } else {
                        v.cursor(r).len()
                    }
                })
            });
            match ok {
                Some((a, b)) => check_eq!(want_ok(e, what), b - a, "length of a {}", what),
                None => want_panic(cx, e, what),
            }
            same(cx, s, ptr, cap, 0, what);
        }
        11 => {
            cx.log(|| format!("v[{}], get({}) at length {}", i, i, n));
            cx.op("index");
            let r = run(|| s.g.v[i].item());
            let want = s.m.get(i).cloned();
            check_eq!(s.g.v.get(i).map(|e| e.item()), want, "get({})", i);
            match want {
                Some(it) => check_eq!(want_ok(r, "index"), it, "v[{}]", i),
                None => want_panic(cx, r, "index out of bounds"),
            }
            let val = cx.val::<E>();
            let r = run(|| s.g.v[i].set(val));
            match s.m.get_mut(i) {
                Some(it) => {
                    want_ok(r, "index_mut");
                    it.val = val
                }
                None => want_panic(cx, r, "index_mut out of bounds"),
            }
            same(cx, s, ptr, cap, 0, "index");
        }
        12 | 13 => {
            cx.log(|| format!("v[{:?}] at length {}", r, n));
            cx.op("index by a range");
            use Bound::*;
            let v = &mut s.g.v;
            let mutable = cx.rng.chance(1, 2);
            macro_rules! at {
                ($r:expr) => {
                    if mutable {
                        items(&mut v[$r])
                    } else {
                        items(&v[$r])
                    }
                };
            }
            let e = run(|| match r {
                (Included(a), Excluded(b)) => at!(a..b),
                (Included(a), Included(b)) => at!(a..=b),
                (Included(a), Unbounded) => at!(a..),
                (Unbounded, Excluded(b)) => at!(..b),
                (Unbounded, Included(b)) => at!(..=b),
                (Unbounded, Unbounded) => at!(..),
                (Excluded(a), _) => at!(a..a),
            });
            let ok = if let Excluded(a) = r.0 { resolve((Included(a), Excluded(a)), n) } else { ok };
            match ok {
                Some((a, b)) => {
                    let x = want_ok(e, "index by a range");
                    check_eq!(x, &s.m[a..b], "v[{:?}]", r);
                    untracked(|| drop(x));
                }
                None => want_panic(cx, e, "index by a range out of bounds"),
            }
            same(cx, s, ptr, cap, 0, "index by a range");
        }
        _ => {
            let e: E = cx.make();
            let it = e.item();
            cx.log(|| format!("try_insert, try_remove, try_swap_remove({}) at length {}", i, n));
            cx.op("try_ operations");
            let room = n < cap;
            let r = want_ok(run(|| s.g.v.try_insert(i, e).map(|_| ())), "try_insert");
            match r {
                Ok(()) => {
                    check!(i <= n && room, "try_insert({}) at length {} and capacity {} succeeded", i, n, cap);
                    untracked(|| s.m.insert(i, it));
                    s.verify(cx, "try_insert");
                }
                Err(e) => {
                    check!(i > n || !room, "try_insert({}) at length {} and capacity {} failed", i, n, cap);
                    check_eq!(e.item(), it, "the element handed back");
                    cx.op("handed back");
                    same(cx, s, ptr, cap, 1, "try_insert");
                    drop(e);
                    for &swap in &[false, true] {
                        let r = want_ok(run(|| if swap { s.g.v.try_swap_remove(i) } else { s.g.v.try_remove(i) }), "try_remove");
                        let n = s.m.len();
                        check_eq!(r.is_some(), i < n, "try_remove({}) at length {} succeeded", i, n);
                        match r {
                            Some(e) => {
                                let it = if swap { s.m.swap_remove(i) } else { s.m.remove(i) };
                                check_eq!(e.item(), it, "removed element");
                                drop(e);
                                s.verify(cx, "try_remove");
                            }
                            None => same(cx, s, ptr, cap, 0, "try_remove"),
                        }
                    }
                }
            }
        }
    }
}

/// the end of a call that removes the range
fn finish<E: Elem, K: Store<E>>(
    cx: &mut Cx,
    s: &mut Sub<E, K>,
    e: crate::mon::End<Vec<Item>>,
    ok: Option<(usize, usize)>,
    ptr: *const E,
    cap: usize,
    what: &str,
) {
    match ok {
        Some((a, b)) => {
            let got = want_ok(e, what);
            let want: Vec<Item> = untracked(|| s.m.drain(a..b).collect());
            check_eq!(got, want, "elements of {}", what);
            untracked(|| drop((got, want)));
            s.verify(cx, what);
        }
        None => {
            want_panic(cx, e, what);
            same(cx, s, ptr, cap, 0, what);
        }
    }
}

