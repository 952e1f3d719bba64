//! Operations on ranges: drain, drain_filter, retain, dedup, splice, cursors.

use crate::alloc::untracked;
use crate::cx::{check_alive, items, show, Cx, Sub};
use crate::elem::{Elem, Item};
use crate::eng::{want_ok, want_panic, Feed, Op};
use crate::mon::{self, run, tick, Kind};
use crate::stores::{Growth, Store};
use generic_vec::iter::{Cursor, RawCursor};
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use std::collections::{HashSet, VecDeque};
use std::ops::Bound;

pub type B = (Bound<usize>, Bound<usize>);

/// One of the ways to write `a..b` for a vector of length `n`
pub fn bounds(cx: &mut Cx, a: usize, b: usize, n: usize) -> B {
    let start = match cx.rng.below(4) {
        0 if a == 0 => Bound::Unbounded,
        1 if a > 0 => Bound::Excluded(a - 1),
        _ => Bound::Included(a),
    };
    let end = match cx.rng.below(4) {
        0 if b == n => Bound::Unbounded,
        1 if b > 0 => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    (start, end)
}

/// What is left of a vector after an iterator over it was leaked: live
/// elements only, none of which is also held outside
pub fn leaked<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, held: &[E], what: &str) {
    cx.leaky = true;
    cx.op("leaked");
    let old: HashSet<Item> = untracked(|| s.m.iter().cloned().collect());
    s.adopt(what);
    check_alive(held, what);
    if E::TRACKED && !E::ZST {
        let out: HashSet<u32> = untracked(|| held.iter().map(|e| e.id()).collect());
        for it in &s.m {
            check!(!out.contains(&it.id), "{}: {:?} is in the vector and outside of it", what, it);
        }
    } else if !E::ZST {
        for it in &s.m {
            // predicates of the workload add 2 to values
            let before = Item { id: 0, val: it.val.wrapping_add(E::VALS - 2) % E::VALS };
            check!(old.contains(it) || old.contains(&before), "{}: {:?} was not in the vector before", what, it);
        }
    }
    untracked(|| drop(old));
    if E::TRACKED {
        s.leaked = mon::live() - s.m.len() as isize - held.len() as isize;
        check!(s.leaked >= 0, "{}: fewer elements alive ({}) than in the vector ({}) and held ({})", what, mon::live(), s.m.len(), held.len());
    }
    s.verify_held(cx, held.len() as isize, what);
}

/// How an iterator is ended
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    Drop,
    Exhaust,
    Forget,
}

pub fn any_stop(cx: &mut Cx) -> Stop {
    if cx.rng.chance(1, 3) {
        Stop::Exhaust
    } else {
        Stop::Drop
    }
}

/// Steps through a double ended, exact iterator over `want`, and compares
fn walk<E: Elem, I>(cx: &mut Cx, it: &mut I, want: &mut VecDeque<Item>, held: &mut Vec<E>, stop: Stop, what: &str)
where
    I: Iterator<Item = E> + DoubleEndedIterator + ExactSizeIterator,
{
    let mut steps = match cx.rng.below(5) {
        0 => 0,
        1 => want.len() + 2,
        _ => cx.rng.below(want.len() + 2),
    };
    if stop == Stop::Exhaust {
        steps = usize::MAX
    }
    let dir = cx.rng.below(4);
    while steps > 0 {
        steps -= 1;
        check_eq!(it.size_hint(), (want.len(), Some(want.len())), "size_hint of {}", what);
        check_eq!(it.len(), want.len(), "len of {}", what);
        #[cfg(feature = "nightly")]
        check_eq!(ExactSizeIterator::is_empty(&*it), want.is_empty(), "is_empty of {}", what);
        let (got, exp) = match if dir < 2 { dir } else { cx.rng.below(5) } {
            0 => (it.next(), want.pop_front()),
            1 => (it.next_back(), want.pop_back()),
            2 => {
                let k = cx.rng.below(5);
                let k = if cx.rng.chance(1, 6) { want.len() + cx.rng.below(3) } else { k.min(want.len()) };
                for _ in 0..k {
                    let _ = want.pop_front();
                }
                (it.nth(k), want.pop_front())
            }
            3 => {
                let k = cx.rng.below(4).min(want.len());
                for _ in 0..k {
                    let _ = want.pop_back();
                }
                (it.nth_back(k), want.pop_back())
            }
            _ => (it.next(), want.pop_front()),
        };
        cx.op("iterator step");
        check_eq!(got.as_ref().map(|e| e.item()), exp, "element of {}", what);
        let end = got.is_none();
        if let Some(e) = got {
            if cx.rng.chance(1, 2) {
                untracked(|| held.push(e))
            } else {
                drop(e)
            }
        }
        mon::check_errors(what);
        if E::TRACKED {
            let _ = 0;
        }
        if end {
            // fused
            check!(it.next().is_none() && it.next_back().is_none(), "{} went on after its end", what);
            check_eq!(it.len(), 0, "len of a finished {}", what);
            return
        }
    }
}

/// Uses an iterator up with one of the methods that take it by value, or with an adapter
pub fn use_up<E: Elem, I>(how: u64, mut it: I, want: &VecDeque<Item>, held: &mut Vec<E>, what: &str)
where
    I: Iterator<Item = E> + DoubleEndedIterator,
{
    let n = want.len();
    let keep = |held: &mut Vec<E>, e: E| untracked(|| held.push(e));
    let at = held.len();
    let k = (how >> 8) as usize % (n + 2);
    match how % 11 {
        0 => check_eq!(it.count(), n, "count of {}", what),
        1 => {
            let e = it.last();
            check_eq!(e.as_ref().map(|e| e.item()), want.back().cloned(), "last of {}", what)
        }
        2 | 3 => {
            let got = if how % 11 == 2 {
                it.fold(0, |i, e| {
                    keep(held, e);
                    i + 1
                })
            } else {
                it.for_each(|e| keep(held, e));
                n
            };
            check_eq!(got, n, "steps of fold of {}", what);
            check_eq!(held.len() - at, n, "elements yielded by fold of {}", what);
            for (e, x) in held[at..].iter().zip(want) {
                check_eq!(e.item(), *x, "element of fold of {}", what)
            }
        }
        4 | 5 => {
            if how % 11 == 4 {
                it.rfold((), |(), e| keep(held, e));
            } else {
                it.rev().for_each(|e| keep(held, e));
            }
            check_eq!(held.len() - at, n, "elements yielded by rfold of {}", what);
            for (e, x) in held[at..].iter().zip(want.iter().rev()) {
                check_eq!(e.item(), *x, "element of rfold of {}", what)
            }
        }
        6 => {
            let got = it.map(|e| e.val()).max();
            check_eq!(got, want.iter().map(|x| x.val).max(), "largest of {}", what)
        }
        7 => {
            let got = it.skip(k).next();
            check_eq!(got.as_ref().map(|e| e.item()), want.get(k).cloned(), "element {} of {}, by skip", k, what);
        }
        8 => {
            // stops in between
            let mut i = 0;
            let got = it.try_fold((), |(), e| {
                let r = if i == k { Err(e.item()) } else { Ok(()) };
                i += 1;
                drop(e);
                r
            });
            check_eq!(got.err(), want.get(k).cloned(), "element {} of {}, by try_fold", k, what);
            if k < n {
                check_eq!(it.next().map(|e| e.item()), want.get(k + 1).cloned(), "element of {} after try_fold", what);
            }
        }
        9 => {
            let mut i = 0;
            let got = it.rfind(|_| {
                i += 1;
                i == k + 1
            });
            let exp = if k < n { want.get(n - 1 - k).cloned() } else { None };
            check_eq!(got.as_ref().map(|e| e.item()), exp, "element {} from the back of {}, by rfind", k, what);
        }
        _ => {
            let mut i = 0;
            let got = it.by_ref().take(k).position(|e| {
                i += 1;
                e.item() == want[n - 1] && i == n
            });
            check_eq!(got, if k >= n && n > 0 { Some(n - 1) } else { None }, "position in {}", what);
        }
    }
}

pub fn drain_stop<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, stop: Stop) {
    cx.op("drain");
    let n = s.m.len();
    let (a, b) = cx.range(n);
    let r = bounds(cx, a, b, n);
    cx.log(|| format!("drain({}..{} as {:?}), {:?}", a, b, r, stop));
    let mut want: VecDeque<Item> = untracked(|| s.m[a..b].iter().cloned().collect());
    let mut held = Vec::new();
    let ptr = s.g.v.as_ptr();
    {
        let mut d = want_ok(run(|| s.g.v.drain(r)), "drain");
        walk(cx, &mut d, &mut want, &mut held, stop, "drain");
        cx.log(|| format!("   // stopped with {} left", want.len()));
        if stop == Stop::Forget {
            core::mem::forget(d)
        } else if cx.rng.chance(1, 4) {
            let how = cx.rng.next();
            cx.log(|| format!("   // used up by value, way {}", how % 11));
            want_ok(run(|| use_up(how, d, &want, &mut held, "drain")), "using up a drain");
        } else {
            want_ok(run(move || drop(d)), "dropping a drain");
        }
    }
    untracked(|| drop(want));
    if b > a {
        cx.nontrivial = true
    }
    if stop == Stop::Forget {
        leaked(cx, s, &held, "leaking a drain");
    } else {
        let _: Vec<Item> = untracked(|| s.m.drain(a..b).collect());
        check_eq!(s.g.v.as_ptr(), ptr, "pointer after drain");
        check_eq!(s.g.v.capacity(), s.cap, "capacity after drain");
        s.verify_held(cx, held.len() as isize, "drain");
    }
    check_alive(&held, "elements taken from a drain");
    drop_held(held);
    s.verify(cx, "drain");
}

/// the vector of held elements belongs to the harness
pub fn drop_held<E>(held: Vec<E>) {
    let mut held = held;
    while let Some(e) = held.pop() {
        drop(e)
    }
    untracked(|| drop(held))
}

pub fn drain<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let stop = any_stop(cx);
    drain_stop(cx, s, stop)
}

/// a predicate chosen by a number: true = remove
pub fn choose(kind: u64, it: Item, call: u64) -> bool {
    match kind % 8 {
        0 => it.val % 2 == 0,
        1 => it.val % 3 != 0,
        2 => true,
        3 => false,
        4 => call % 2 == 0,
        5 => call % 3 == 2,
        6 => (kind >> (call % 50 + 8)) & 1 == 1,
        _ => it.val < 4,
    }
}

pub fn drain_filter_stop<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, stop: Stop) {
    cx.op("drain_filter");
    let n = s.m.len();
    let (a, b) = cx.range(n);
    let r = bounds(cx, a, b, n);
    let kind = cx.rng.next();
    let change = cx.rng.chance(1, 3);
    cx.log(|| format!("drain_filter({}..{}, predicate {}), {:?}", a, b, kind % 8, stop));
    // the model: elements not yet looked at, the ones kept at both ends
    let mut rest: VecDeque<Item> = untracked(|| s.m[a..b].iter().cloned().collect());
    let mut kept_f: Vec<Item> = Vec::new();
    let mut kept_b: Vec<Item> = Vec::new();
    let mut held: Vec<E> = Vec::new();
    let ptr = s.g.v.as_ptr();
    let mut seen: Vec<Item> = Vec::new();
    let mut calls = 0u64;
    // the model of one call of `next` or `next_back`
    fn model(
        rest: &mut VecDeque<Item>,
        kept_f: &mut Vec<Item>,
        kept_b: &mut Vec<Item>,
        back: bool,
        kind: u64,
        change: bool,
        vals: u32,
        calls: &mut u64,
        looked: &mut Vec<Item>,
    ) -> Option<Item> {
        untracked(|| loop {
            let it = if back { rest.pop_back() } else { rest.pop_front() };
            let mut it = it?;
            looked.push(it);
            let take = choose(kind, it, *calls);
            *calls += 1;
            if change {
                it.val = it.val.wrapping_add(2) % vals;
            }
            if take {
                return Some(it)
            }
            if back {
                kept_b.push(it)
            } else {
                kept_f.push(it)
            }
        })
    }
    let mut looked: Vec<Item> = Vec::new();
    let mut mcalls = 0u64;
    {
        let seen = &mut seen;
        let calls = &mut calls;
        let pred = move |e: &mut E| {
            tick(Kind::Pred);
            let it = e.item();
            untracked(|| seen.push(it));
            let t = choose(kind, it, *calls);
            *calls += 1;
            if change {
                e.set(it.val.wrapping_add(2) % E::VALS)
            }
            t
        };
        let mut d = want_ok(run(|| s.g.v.drain_filter(r, pred)), "drain_filter");
        let steps = match stop {
            Stop::Exhaust => usize::MAX,
            _ => match cx.rng.below(3) {
                0 => 0,
                _ => cx.rng.below(b - a + 2),
            },
        };
        let dir = cx.rng.below(3);
        for _ in 0..steps {
            let (lo, hi) = d.size_hint();
            check!(lo == 0 || lo <= rest.len(), "lower size_hint {} of drain_filter with {} elements left", lo, rest.len());
            if let Some(hi) = hi {
                check!(hi >= rest.len() || rest.is_empty(), "upper size_hint {} of drain_filter with {} elements left", hi, rest.len());
            }
            let back = dir == 1 || dir == 2 && cx.rng.chance(1, 2);
            let got = want_ok(run(|| if back { d.next_back() } else { d.next() }), "drain_filter");
            let exp = model(&mut rest, &mut kept_f, &mut kept_b, back, kind, change, E::VALS, &mut mcalls, &mut looked);
            cx.op("iterator step");
            check_eq!(got.as_ref().map(|e| e.item()), exp, "element of drain_filter");
            match got {
                None => break,
                Some(e) => {
                    if cx.rng.chance(1, 2) {
                        untracked(|| held.push(e))
                    }
                }
            }
        }
        if stop == Stop::Forget {
            core::mem::forget(d)
        } else if cx.rng.chance(1, 3) {
            // by value
            let back = cx.rng.chance(1, 2);
            let how = cx.rng.below(3);
            let mut chosen: VecDeque<Item> = untracked(VecDeque::new);
            loop {
                let exp = model(&mut rest, &mut kept_f, &mut kept_b, back && how > 0, kind, change, E::VALS, &mut mcalls, &mut looked);
                match exp {
                    Some(x) => untracked(|| chosen.push_back(x)),
                    None => break,
                }
            }
            let at = held.len();
            let held = &mut held;
            let got = want_ok(
                run(|| match how {
                    0 => d.count(),
                    1 if !back => d.fold(0, |i, e| {
                        untracked(|| held.push(e));
                        i + 1
                    }),
                    _ if back => d.rfold(0, |i, e| {
                        untracked(|| held.push(e));
                        i + 1
                    }),
                    _ => {
                        let e = d.last();
                        check_eq!(e.as_ref().map(|e| e.item()), chosen.back().cloned(), "last of drain_filter");
                        chosen.len()
                    }
                }),
                "using up a drain_filter",
            );
            check_eq!(got, chosen.len(), "elements of drain_filter, used by value");
            for (e, x) in held[at..].iter().zip(&chosen) {
                check_eq!(e.item(), *x, "element of drain_filter, used by value")
            }
            untracked(|| drop(chosen));
        } else {
            want_ok(run(move || drop(d)), "dropping a drain_filter");
        }
    }
    if b > a {
        cx.nontrivial = true
    }
    if stop == Stop::Forget {
        leaked(cx, s, &held, "leaking a drain_filter");
    } else {
        while model(&mut rest, &mut kept_f, &mut kept_b, false, kind, change, E::VALS, &mut mcalls, &mut looked).is_some() {}
        check_eq!(seen, looked, "elements shown to the predicate of drain_filter, in order");
        untracked(|| {
            kept_b.reverse();
            let tail = s.m.split_off(b);
            s.m.truncate(a);
            s.m.extend(kept_f.iter().cloned());
            s.m.extend(kept_b.iter().cloned());
            s.m.extend(tail);
        });
        check_eq!(s.g.v.as_ptr(), ptr, "pointer after drain_filter");
        s.verify_held(cx, held.len() as isize, "drain_filter");
    }
    untracked(|| drop((rest, kept_f, kept_b, seen, looked)));
    check_alive(&held, "elements taken from a drain_filter");
    drop_held(held);
    s.verify(cx, "drain_filter");
}

pub fn drain_filter<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let stop = any_stop(cx);
    drain_filter_stop(cx, s, stop)
}

pub fn retain<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    cx.op("retain");
    let kind = cx.rng.next();
    let change = cx.rng.chance(1, 3);
    cx.log(|| format!("retain(predicate {})", kind % 8));
    let mut seen: Vec<Item> = untracked(|| Vec::with_capacity(s.m.len()));
    let mut calls = 0;
    let v = &mut s.g.v;
    want_ok(
        run(|| {
            v.retain(|e| {
                tick(Kind::Pred);
                let it = e.item();
                untracked(|| seen.push(it));
                let t = choose(kind, it, calls);
                calls += 1;
                if change {
                    e.set(it.val.wrapping_add(2) % E::VALS)
                }
                !t
            })
        }),
        "retain",
    );
    check_eq!(seen, s.m, "elements shown to the predicate of retain, in order");
    if !s.m.is_empty() {
        cx.nontrivial = true
    }
    let mut k = 0;
    let old = untracked(|| s.m.clone());
    s.m.clear();
    for mut it in old.iter().cloned() {
        let t = choose(kind, it, k);
        k += 1;
        if change {
            it.val = it.val.wrapping_add(2) % E::VALS
        }
        if !t {
            s.m_push(it)
        }
    }
    untracked(|| drop((seen, old)));
    s.verify(cx, "retain");
}

/// Gives runs of equal values to the elements of the vector
pub fn make_runs<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let mut val = 0;
    let dens = cx.rng.range(1, 4);
    for i in 0..s.m.len() {
        if cx.rng.chance(1, dens) {
            val = cx.rng.below(5) as u32 % E::VALS;
        }
        s.g.v[i].set(val);
        s.m[i].val = val;
    }
    cx.log(|| format!("values: {}", show(&s.m)));
}

pub fn dedup<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    make_runs(cx, s);
    let how = cx.rng.below(5);
    cx.op(["dedup", "dedup_by_key", "dedup_by", "dedup_by", "dedup_by"][how]);
    cx.log(|| format!("dedup, variant {}", how));
    let old = untracked(|| s.m.clone());
    if !old.is_empty() {
        cx.nontrivial = true
    }
    let ptr = s.g.v.as_ptr();
    match how {
        0 => {
            want_ok(run(|| s.g.v.dedup::<(), ()>()), "dedup");
            s.m.dedup_by(|a, b| a.val == b.val);
        }
        1 => {
            // keys that depend on the call, changes made by the key function, and a comparison of keys that is not symmetric
            struct Key<'a>(Item, u64, u64, &'a core::cell::RefCell<Vec<(Item, Item)>>);
            impl PartialEq for Key<'_> {
                fn eq(&self, o: &Self) -> bool {
                    let t = self.3.borrow().len() as u64;
                    untracked(|| self.3.borrow_mut().push((self.0, o.0)));
                    match self.2 % 4 {
                        0 => self.0.val / 2 == o.0.val / 2,
                        1 => self.0.val >= o.0.val,
                        2 => (self.2 >> ((t + self.1 % 7) % 50 + 8)) & 1 == 1,
                        _ => self.0.val == o.0.val || self.0.val % 5 == 0,
                    }
                }
            }
            let kind = cx.rng.next();
            let change = cx.rng.chance(1, 4);
            let (pairs, mpairs) = (core::cell::RefCell::new(Vec::new()), core::cell::RefCell::new(Vec::new()));
            let mut keys: Vec<Item> = untracked(Vec::new);
            let mut mkeys: Vec<Item> = untracked(Vec::new);
            want_ok(
                run(|| {
                    s.g.v.dedup_by_key(|e| {
                        tick(Kind::Pred);
                        let it = e.item();
                        untracked(|| keys.push(it));
                        if change {
                            e.set(it.val.wrapping_add(2) % E::VALS)
                        }
                        Key(it, keys.len() as u64, kind, &pairs)
                    })
                }),
                "dedup_by_key",
            );
            let m = &mut s.m;
            untracked(|| {
                m.dedup_by_key(|e| {
                    let it = *e;
                    mkeys.push(it);
                    if change {
                        e.val = it.val.wrapping_add(2) % E::VALS
                    }
                    Key(it, mkeys.len() as u64, kind, &mpairs)
                })
            });
            check_eq!(keys, mkeys, "elements shown to the key function of dedup_by_key, in order");
            check_eq!(*pairs.borrow(), *mpairs.borrow(), "keys compared by dedup_by_key, in order");
            untracked(|| drop((keys, mkeys, pairs, mpairs)));
        }
        _ => {
            // an arbitrary relation, not even symmetric, which may change both elements
            let kind = cx.rng.next();
            let change = how == 3;
            let mut calls: Vec<(Item, Item)> = untracked(Vec::new);
            let mut mcalls: Vec<(Item, Item)> = untracked(Vec::new);
            fn same(kind: u64, a: Item, b: Item, call: usize) -> bool {
                match kind % 5 {
                    0 => a.val == b.val,
                    1 => a.val >= b.val,
                    2 => (kind >> (call as u64 % 50 + 8)) & 1 == 1,
                    3 => a.val != b.val,
                    _ => a.val + 1 == b.val || a.val == b.val,
                }
            }
            want_ok(
                run(|| {
                    s.g.v.dedup_by(|a, b| {
                        tick(Kind::Pred);
                        check!(E::ZST || a as *const E != b as *const E, "dedup_by compares an element with itself");
                        let (x, y) = (a.item(), b.item());
                        let k = calls.len();
                        untracked(|| calls.push((x, y)));
                        if change {
                            a.set(x.val.wrapping_add(1) % E::VALS);
                            b.set(y.val.wrapping_add(3) % E::VALS);
                        }
                        same(kind, x, y, k)
                    })
                }),
                "dedup_by",
            );
            let m = &mut s.m;
            untracked(|| {
                m.dedup_by(|a, b| {
                    let (x, y) = (*a, *b);
                    let k = mcalls.len();
                    mcalls.push((x, y));
                    if change {
                        a.val = x.val.wrapping_add(1) % E::VALS;
                        b.val = y.val.wrapping_add(3) % E::VALS;
                    }
                    same(kind, x, y, k)
                })
            });
            check_eq!(calls, mcalls, "pairs shown to the relation of dedup_by, in order");
            untracked(|| drop((calls, mcalls)));
        }
    }
    if s.m.len() < old.len() {
        cx.op("duplicates removed");
    }
    check_eq!(s.g.v.as_ptr(), ptr, "pointer after dedup");
    untracked(|| drop(old));
    s.verify(cx, "dedup");
}

pub fn splice_stop<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, stop: Stop) {
    cx.op("splice");
    let n = s.m.len();
    let (a, b) = cx.range(n);
    let r = bounds(cx, a, b, n);
    let cnt = match cx.rng.below(4) {
        0 => b - a,
        1 => (b - a).saturating_sub(1 + cx.rng.below(3)),
        2 => b - a + 1 + cx.rng.below(4),
        _ => cx.amount(),
    };
    let (mut feed, new) = Feed::<E>::new(cx, cnt);
    let near = if cx.rng.chance(1, 2) { b - a } else { s.cap.saturating_sub(n - (b - a)) };
    feed = {
        let h = feed.hint().room(cx, near);
        feed.with_hint(h)
    };
    feed.modest();
    let lies = matches!(feed.hint(), crate::eng::Hint::Over(_));
    cx.log(|| format!("splice({}..{}, {} size hint {:?}), {:?}", a, b, show(&new), feed.hint(), stop));
    let fits = (n - (b - a)).checked_add(cnt).map_or(false, |t| match s.growth {
        Growth::Fixed(c) => t <= c,
        Growth::Heap => true,
    });
    let mut want: VecDeque<Item> = untracked(|| s.m[a..b].iter().cloned().collect());
    let mut held = Vec::new();
    let before = mon::by_kind()[4];
    let v = &mut s.g.v;
    let r = {
        let mut d = want_ok(run(move || v.splice(r, feed)), "splice");
        walk(cx, &mut d, &mut want, &mut held, stop, "splice");
        check_eq!(mon::by_kind()[4], before, "elements taken from the replacement before the splice is dropped");
        cx.log(|| format!("   // stopped with {} left", want.len()));
        if stop == Stop::Forget {
            core::mem::forget(d);
            mon::End::Ok(())
        } else if cx.rng.chance(1, 4) {
            // rustc leaks the result of a function in which the drop of an argument panics
            let how = if fits && !lies { cx.rng.next() } else { cx.rng.pick(&[0, 2, 3, 4, 5]) };
            cx.log(|| format!("   // used up by value, way {}", how % 11));
            run(|| use_up(how, d, &want, &mut held, "splice"))
        } else {
            run(move || drop(d))
        }
    };
    untracked(|| drop(want));
    if b > a || cnt > 0 {
        cx.nontrivial = true
    }
    if stop == Stop::Forget {
        leaked(cx, s, &held, "leaking a splice");
    } else if fits && !(lies && r.panicked()) {
        want_ok(r, "dropping a splice");
        untracked(|| {
            let tail = s.m.split_off(b);
            s.m.truncate(a);
            s.m.extend(new.iter().cloned());
            s.m.extend(tail);
        });
        s.verify_held(cx, held.len() as isize, "splice");
    } else {
        want_panic(cx, r, "splice beyond a fixed capacity");
        let old = untracked(|| s.m.clone());
        s.adopt("a splice that panicked");
        let suf = n - b;
        check!(s.m.len() >= a + suf && s.m.len() <= a + suf + cnt, "length {} after a splice panicked", s.m.len());
        let k = s.m.len() - a - suf;
        check_eq!(&s.m[..a], &old[..a], "elements before the range, after a splice panicked");
        check_eq!(&s.m[a + k..], &old[b..], "elements after the range, after a splice panicked");
        check_eq!(&s.m[a..a + k], &new[..k], "elements in the range, after a splice panicked");
        untracked(|| drop(old));
        s.verify_held(cx, held.len() as isize, "a splice that panicked");
    }
    drop(new);
    check_alive(&held, "elements taken from a splice");
    drop_held(held);
    s.verify(cx, "splice");
}

pub fn splice<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let stop = any_stop(cx);
    splice_stop(cx, s, stop)
}

// ---------------------------------------------------------------- cursors

/// `front`, a gap, the elements under the cursor, a gap, `back`
#[derive(Clone, Debug)]
pub struct Gap {
    pub front: Vec<Item>,
    pub gf: usize,
    pub read: VecDeque<Item>,
    pub gb: usize,
    pub back: Vec<Item>,
}

impl Gap {
    pub fn new(m: &[Item], a: usize, b: usize) -> Self {
        Gap { front: m[..a].to_vec(), gf: 0, read: m[a..b].iter().cloned().collect(), gb: 0, back: m[b..].to_vec() }
    }
    /// `n` elements leave
    pub fn take(&mut self, back: bool, n: usize) {
        for _ in 0..n {
            let _ = if back { self.read.pop_back() } else { self.read.pop_front() };
        }
        if back {
            self.gb += n
        } else {
            self.gf += n
        }
    }
    pub fn keep(&mut self, back: bool, n: usize) {
        for _ in 0..n {
            if back {
                let x = self.read.pop_back().unwrap();
                self.back.insert(0, x)
            } else {
                let x = self.read.pop_front().unwrap();
                self.front.push(x)
            }
        }
    }
    pub fn wrote(&mut self, back: bool, it: Item) {
        if back {
            self.use_back(1);
            self.back.insert(0, it)
        } else {
            self.use_front(1);
            self.front.push(it)
        }
    }
    fn wfront(&self) -> usize {
        if self.read.is_empty() {
            self.gf + self.gb
        } else {
            self.gf
        }
    }
    fn wback(&self) -> usize {
        if self.read.is_empty() {
            self.gf + self.gb
        } else {
            self.gb
        }
    }
    fn total(&self) -> usize {
        self.gf + self.gb
    }
    fn use_front(&mut self, n: usize) {
        if self.read.is_empty() {
            let t = self.gf + self.gb;
            self.gf = t - n;
            self.gb = 0;
        } else {
            self.gf -= n
        }
    }
    fn use_back(&mut self, n: usize) {
        if self.read.is_empty() {
            let t = self.gf + self.gb;
            self.gf = t - n;
            self.gb = 0;
        } else {
            self.gb -= n
        }
    }
    pub fn all(&self) -> Vec<Item> {
        untracked(|| self.front.iter().chain(self.read.iter()).chain(self.back.iter()).cloned().collect())
    }
    fn finish(&mut self) {
        untracked(|| {
            let r: Vec<Item> = self.read.drain(..).collect();
            self.front.extend(r);
        });
        self.gf = 0;
        self.gb = 0;
    }
}

pub trait Cur<E> {
    const CHECKED: bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_write_empty(&self) -> bool;
    fn is_write_front_empty(&self) -> bool;
    fn is_write_back_empty(&self) -> bool;
    fn write_len(&self) -> usize;
    fn write_front_len(&self) -> usize;
    fn write_back_len(&self) -> usize;
    fn front(&self) -> Option<&E>;
    fn back(&self) -> Option<&E>;
    fn front_mut(&mut self) -> Option<&mut E>;
    fn back_mut(&mut self) -> Option<&mut E>;
    fn take(&mut self, back: bool) -> E;
    fn drop_one(&mut self, back: bool);
    fn drop_n(&mut self, back: bool, n: usize);
    fn skip_one(&mut self, back: bool);
    fn skip_n(&mut self, back: bool, n: usize);
    fn write(&mut self, back: bool, e: E);
    fn try_write(&mut self, back: bool, e: E) -> Result<(), E>;
    fn reserve(&mut self, n: usize);
    /// moves the elements in
    fn write_slice(&mut self, back: bool, xs: &[E]);
    fn finish(&mut self);
}

macro_rules! queries {
    () => {
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn is_write_empty(&self) -> bool {
            self.is_write_empty()
        }
        fn is_write_front_empty(&self) -> bool {
            self.is_write_front_empty()
        }
        fn is_write_back_empty(&self) -> bool {
            self.is_write_back_empty()
        }
        fn write_len(&self) -> usize {
            self.write_len()
        }
        fn write_front_len(&self) -> usize {
            self.write_front_len()
        }
        fn write_back_len(&self) -> usize {
            self.write_back_len()
        }
        fn reserve(&mut self, n: usize) {
            self.reserve(n)
        }
    };
}

impl<'a, E: Elem, S: ?Sized + Storage<E>> Cur<E> for Cursor<'a, E, S> {
    const CHECKED: bool = true;
    queries!();
    fn front(&self) -> Option<&E> {
        self.front()
    }
    fn back(&self) -> Option<&E> {
        self.back()
    }
    fn front_mut(&mut self) -> Option<&mut E> {
        self.front_mut()
    }
    fn back_mut(&mut self) -> Option<&mut E> {
        self.back_mut()
    }
    fn take(&mut self, back: bool) -> E {
        if back {
            self.take_back()
        } else {
            self.take_front()
        }
    }
    fn drop_one(&mut self, back: bool) {
        if back {
            self.drop_back()
        } else {
            self.drop_front()
        }
    }
    fn drop_n(&mut self, back: bool, n: usize) {
        if back {
            self.drop_n_back(n)
        } else {
            self.drop_n_front(n)
        }
    }
    fn skip_one(&mut self, back: bool) {
        if back {
            self.skip_back()
        } else {
            self.skip_front()
        }
    }
    fn skip_n(&mut self, back: bool, n: usize) {
        if back {
            self.skip_n_back(n)
        } else {
            self.skip_n_front(n)
        }
    }
    fn write(&mut self, back: bool, e: E) {
        if back {
            self.write_back(e)
        } else {
            self.write_front(e)
        }
    }
    fn try_write(&mut self, back: bool, e: E) -> Result<(), E> {
        if back {
            self.try_write_back(e)
        } else {
            self.try_write_front(e)
        }
    }
    fn write_slice(&mut self, back: bool, xs: &[E]) {
        if E::COPY {
            return E::write_slice(self, back, xs)
        }
        unsafe {
            if back {
                self.as_raw_cursor_mut().write_slice_back(xs)
            } else {
                self.as_raw_cursor_mut().write_slice_front(xs)
            }
        }
    }
    fn finish(&mut self) {
        self.as_raw_cursor_mut().finish()
    }
}

impl<'a, E: Elem, S: ?Sized + Storage<E>> Cur<E> for RawCursor<'a, E, S> {
    const CHECKED: bool = false;
    queries!();
    fn front(&self) -> Option<&E> {
        if self.is_empty() {
            None
        } else {
            Some(unsafe { self.front() })
        }
    }
    fn back(&self) -> Option<&E> {
        if self.is_empty() {
            None
        } else {
            Some(unsafe { self.back() })
        }
    }
    fn front_mut(&mut self) -> Option<&mut E> {
        if self.is_empty() {
            None
        } else {
            Some(unsafe { self.front_mut() })
        }
    }
    fn back_mut(&mut self) -> Option<&mut E> {
        if self.is_empty() {
            None
        } else {
            Some(unsafe { self.back_mut() })
        }
    }
    fn take(&mut self, back: bool) -> E {
        unsafe {
            if back {
                self.take_back()
            } else {
                self.take_front()
            }
        }
    }
    fn drop_one(&mut self, back: bool) {
        unsafe {
            if back {
                self.drop_back()
            } else {
                self.drop_front()
            }
        }
    }
    fn drop_n(&mut self, back: bool, n: usize) {
        unsafe {
            if back {
                self.drop_n_back(n)
            } else {
                self.drop_n_front(n)
            }
        }
    }
    fn skip_one(&mut self, back: bool) {
        unsafe {
            if back {
                self.skip_back()
            } else {
                self.skip_front()
            }
        }
    }
    fn skip_n(&mut self, back: bool, n: usize) {
        unsafe {
            if back {
                self.skip_n_back(n)
            } else {
                self.skip_n_front(n)
            }
        }
    }
    fn write(&mut self, back: bool, e: E) {
        unsafe {
            if back {
                self.write_back(e)
            } else {
                self.write_front(e)
            }
        }
    }
    fn try_write(&mut self, back: bool, e: E) -> Result<(), E> {
        let none = if back { self.is_write_back_empty() } else { self.is_write_front_empty() };
        if none {
            Err(e)
        } else {
            self.write(back, e);
            Ok(())
        }
    }
    fn write_slice(&mut self, back: bool, xs: &[E]) {
        unsafe {
            if back {
                self.write_slice_back(xs)
            } else {
                self.write_slice_front(xs)
            }
        }
    }
    fn finish(&mut self) {
        self.finish()
    }
}

fn cur_check<E: Elem, C: Cur<E>>(c: &mut C, g: &Gap, cx: &mut Cx, what: &str) {
    mon::check_errors(what);
    cx.op("cursor state compared");
    let c2: &C = c;
    check_eq!(c2.len(), g.read.len(), "cursor: len after {}", what);
    check_eq!(c2.is_empty(), g.read.is_empty(), "cursor: is_empty after {}", what);
    if g.read.is_empty() {
        // otherwise unspecified
        check_eq!(c2.write_len(), g.total(), "cursor: write_len after {}", what);
    }
    check_eq!(c2.write_front_len(), g.wfront(), "cursor: write_front_len after {}", what);
    check_eq!(c2.write_back_len(), g.wback(), "cursor: write_back_len after {}", what);
    check_eq!(c2.is_write_empty(), g.total() == 0 && g.read.is_empty(), "cursor: is_write_empty after {}", what);
    // true when no element can be written
    check_eq!(c2.is_write_front_empty(), g.wfront() == 0, "cursor: is_write_front_empty after {}", what);
    check_eq!(c2.is_write_back_empty(), g.wback() == 0, "cursor: is_write_back_empty after {}", what);
    check_eq!(c2.front().map(|e| e.item()), g.read.front().cloned(), "cursor: front after {}", what);
    check_eq!(c2.back().map(|e| e.item()), g.read.back().cloned(), "cursor: back after {}", what);
    check_eq!(c.front_mut().map(|e| e.item()), g.read.front().cloned(), "cursor: front_mut after {}", what);
    check_eq!(c.back_mut().map(|e| e.item()), g.read.back().cloned(), "cursor: back_mut after {}", what);
}

/// Random operations on a cursor. `refuse`: also calls that must be refused.
pub fn cur_ops<E: Elem, C: Cur<E>>(cx: &mut Cx, c: &mut C, g: &mut Gap, growth: Growth, steps: usize, held: &mut Vec<E>) {
    cur_check(c, g, cx, "its creation");
    for _ in 0..steps {
        let back = cx.rng.chance(1, 2);
        let side = if back { "back" } else { "front" };
        let n = g.read.len();
        let bad = C::CHECKED && cx.rng.chance(1, 12);
        match cx.rng.below(14) {
            0 | 1 => {
                if n == 0 && !C::CHECKED {
                    continue
                }
                cx.log(|| format!("  take_{}()", side));
                cx.op("cursor take");
                let r = run(|| c.take(back));
                if n == 0 {
                    want_panic(cx, r, "take from an empty cursor");
                } else {
                    let e = want_ok(r, "take");
                    let it = if back { g.read.pop_back() } else { g.read.pop_front() }.unwrap();
                    if back {
                        g.gb += 1
                    } else {
                        g.gf += 1
                    }
                    check_eq!(e.item(), it, "element of take_{}", side);
                    if cx.rng.chance(1, 2) {
                        untracked(|| held.push(e))
                    }
                }
            }
            2 => {
                if n == 0 && !C::CHECKED {
                    continue
                }
                cx.log(|| format!("  drop_{}()", side));
                cx.op("cursor drop");
                let r = run(|| c.drop_one(back));
                if n == 0 {
                    want_panic(cx, r, "drop from an empty cursor");
                } else {
                    want_ok(r, "drop");
                    let _ = if back { g.read.pop_back() } else { g.read.pop_front() };
                    if back {
                        g.gb += 1
                    } else {
                        g.gf += 1
                    }
                }
            }
            3 => {
                let k = if bad { n + 1 + cx.rng.below(3) } else { cx.index(n) };
                cx.log(|| format!("  drop_n_{}({})", side, k));
                cx.op("cursor drop");
                let r = run(|| c.drop_n(back, k));
                if k > n {
                    want_panic(cx, r, "dropping more than there is");
                } else {
                    want_ok(r, "drop_n");
                    for _ in 0..k {
                        let _ = if back { g.read.pop_back() } else { g.read.pop_front() };
                    }
                    if back {
                        g.gb += k
                    } else {
                        g.gf += k
                    }
                }
            }
            4 | 5 => {
                if n == 0 && !C::CHECKED {
                    continue
                }
                cx.log(|| format!("  skip_{}()", side));
                cx.op("cursor skip");
                let r = run(|| c.skip_one(back));
                if n == 0 {
                    want_panic(cx, r, "skip in an empty cursor");
                } else {
                    want_ok(r, "skip");
                    untracked(|| {
                        if back {
                            g.back.insert(0, g.read.pop_back().unwrap())
                        } else {
                            g.front.push(g.read.pop_front().unwrap())
                        }
                    });
                }
            }
            6 => {
                let k = if bad { n + 1 + cx.rng.below(3) } else { cx.index(n) };
                cx.log(|| format!("  skip_n_{}({})", side, k));
                cx.op("cursor skip");
                let r = run(|| c.skip_n(back, k));
                if k > n {
                    want_panic(cx, r, "skipping more than there is");
                } else {
                    want_ok(r, "skip_n");
                    untracked(|| {
                        for _ in 0..k {
                            if back {
                                g.back.insert(0, g.read.pop_back().unwrap())
                            } else {
                                g.front.push(g.read.pop_front().unwrap())
                            }
                        }
                    });
                }
            }
            7..=9 => {
                let room = if back { g.wback() } else { g.wfront() };
                let tries = cx.rng.chance(1, 2);
                if room == 0 && !C::CHECKED && !tries {
                    continue
                }
                let e: E = cx.make();
                let it = e.item();
                cx.log(|| format!("  {}write_{}({:?})", if tries { "try_" } else { "" }, side, it));
                cx.op("cursor write");
                let wrote = if tries {
                    match want_ok(run(|| c.try_write(back, e)), "try_write") {
                        Ok(()) => {
                            check!(room > 0, "try_write_{} succeeded without an unfilled slot", side);
                            true
                        }
                        Err(e) => {
                            check!(room == 0, "try_write_{} failed although there is an unfilled slot", side);
                            check_eq!(e.item(), it, "the element that try_write_{} gave back", side);
                            cx.op("handed back");
                            false
                        }
                    }
                } else {
                    let r = run(|| c.write(back, e));
                    if room == 0 {
                        want_panic(cx, r, "write without an unfilled slot");
                        false
                    } else {
                        want_ok(r, "write");
                        true
                    }
                };
                if wrote {
                    untracked(|| {
                        if back {
                            g.use_back(1);
                            g.back.insert(0, it)
                        } else {
                            g.use_front(1);
                            g.front.push(it)
                        }
                    });
                }
            }
            10 => {
                let room = if back { g.wback() } else { g.wfront() };
                let refused = bad && E::COPY;
                let k = if refused { room + 1 + cx.rng.below(3) } else { cx.index(room) };
                let xs: Vec<E> = (0..k).map(|_| cx.make()).collect();
                let m = items(&xs);
                cx.log(|| format!("  write_slice_{}({})", side, show(&m)));
                cx.op("cursor write_slice");
                let r = run(|| c.write_slice(back, &xs));
                if refused {
                    want_panic(cx, r, "write_slice of more than there are unfilled slots");
                    untracked(|| drop(m));
                    cur_check(c, g, cx, "a write_slice that was refused");
                    continue
                }
                want_ok(r, "write_slice");
                let mut xs = xs;
                unsafe { xs.set_len(0) }
                untracked(|| {
                    if back {
                        g.use_back(k);
                        for it in m.iter().rev() {
                            g.back.insert(0, *it)
                        }
                    } else {
                        g.use_front(k);
                        g.front.extend(m.iter().cloned())
                    }
                });
                untracked(|| drop(m));
            }
            11 => {
                let k = cx.amount();
                if n != 0 && !bad {
                    continue
                }
                cx.log(|| format!("  reserve({})", k));
                cx.op("cursor reserve");
                let used = g.front.len() + g.back.len();
                let fits = match growth {
                    Growth::Fixed(cap) => used + k <= cap,
                    Growth::Heap => true,
                } || g.total() >= k;
                let r = run(|| c.reserve(k));
                if n != 0 {
                    want_panic(cx, r, "reserve on a cursor that is not empty");
                } else if !fits {
                    want_panic(cx, r, "reserve beyond a fixed capacity");
                } else {
                    want_ok(r, "reserve");
                    let t = g.total().max(k);
                    g.gf = t;
                    g.gb = 0;
                }
            }
            12 => {
                if !cx.rng.chance(1, 4) {
                    continue
                }
                cx.log(|| "  finish()".into());
                cx.op("cursor finish");
                want_ok(run(|| c.finish()), "finish");
                g.finish();
            }
            _ => {
                if n == 0 {
                    continue
                }
                let val = cx.val::<E>();
                cx.log(|| format!("  {}_mut = {}", side, val));
                if back {
                    c.back_mut().unwrap().set(val);
                    g.read.back_mut().unwrap().val = val;
                } else {
                    c.front_mut().unwrap().set(val);
                    g.read.front_mut().unwrap().val = val;
                }
            }
        }
        cur_check(c, g, cx, "an operation");
        if E::TRACKED {
            // nothing is lost while the cursor is at work
            let want = g.front.len() + g.read.len() + g.back.len() + held.len();
            let base = cx.leak_base;
            check_eq!(mon::live(), want as isize + base, "elements alive during a cursor's work");
        }
    }
}

pub fn cursor_stop<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, stop: Stop) {
    cx.op("cursor");
    let raw = cx.rng.chance(1, 3);
    cursor_on(cx, s, stop, raw)
}

pub fn raw_cursor<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    cursor_on(cx, s, Stop::Drop, true)
}

fn cursor_on<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, stop: Stop, raw: bool) {
    let n = s.m.len();
    let (a, b) = cx.range(n);
    let r = bounds(cx, a, b, n);
    let steps = if cx.scale == 0 { cx.rng.below(12) } else { cx.rng.below(30) };
    cx.log(|| format!("{}cursor({}..{}), {:?}", if raw { "raw_" } else { "" }, a, b, stop));
    let mut g = untracked(|| Gap {
        front: s.m[..a].to_vec(),
        gf: 0,
        read: s.m[a..b].iter().cloned().collect(),
        gb: 0,
        back: s.m[b..].to_vec(),
    });
    let mut held: Vec<E> = Vec::new();
    cx.leak_base = s.leaked;
    let growth = s.growth;
    {
        let v: &mut GenericVec<E, K::S> = &mut s.g.v;
        if raw {
            let mut c = want_ok(run(|| v.raw_cursor(r)), "raw_cursor");
            cur_ops(cx, &mut c, &mut g, growth, steps, &mut held);
            if stop == Stop::Forget {
                core::mem::forget(c)
            } else {
                want_ok(run(move || drop(c)), "dropping a raw cursor");
            }
        } else {
            let mut c = want_ok(run(|| v.cursor(r)), "cursor");
            cur_ops(cx, &mut c, &mut g, growth, steps, &mut held);
            if stop == Stop::Forget {
                core::mem::forget(c)
            } else {
                want_ok(run(move || drop(c)), "dropping a cursor");
            }
        }
    }
    if steps > 2 {
        cx.nontrivial = true
    }
    if stop == Stop::Forget {
        leaked_cursor(cx, s, &held);
    } else {
        untracked(|| s.m = g.all());
        s.verify_held(cx, held.len() as isize, "a cursor's work");
    }
    untracked(|| drop(g));
    check_alive(&held, "elements taken from a cursor");
    drop_held(held);
    s.verify(cx, "a cursor's work");
}

fn leaked_cursor<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, held: &[E]) {
    if !E::TRACKED {
        // values can have been written by the cursor
        s.adopt("leaking a cursor");
        cx.leaky = true;
        return
    }
    leaked(cx, s, held, "leaking a cursor");
}

pub fn cursor<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    cursor_stop(cx, s, Stop::Drop)
}

pub fn iter_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![drain, drain_filter, retain, dedup, splice, splice, cursor, cursor]
}
