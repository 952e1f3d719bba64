//! A panic in user code at any point leaks nothing and drops nothing twice.
use generic_vec::GenericVec;
use std::collections::HashSet;
use vharness::alloc::untracked;
use vharness::cx::{check_alive, items, show, Cx, Sub, Work};
use vharness::elem::*;
use vharness::eng::Feed;
use vharness::mon::{self, run, tick, End, Kind};
use vharness::rng::Rng;
use vharness::stores::*;
use vharness::{check, check_eq, drive, eng, iters, violate};

struct W;

const NAMES: &[&str] = &[
    "grow", "grow_with", "resize", "resize_with", "extend_from_slice", "extend", "extend by reference", "clone_from", "retain", "drain_filter",
    "dedup", "dedup_by", "dedup_by_key", "drain", "splice", "cursor", "truncate", "clear", "into_iter", "drop", "assignment", "comparison", "clone",
    "convert", "consuming an iterator",
];

struct Hit {
    fused: bool,
    kind: u32,
    ticks: u64,
}

/// Runs `f` with the fuse set
fn armed<R>(cx: &mut Cx, k: u64, mask: u32, what: &str, f: impl FnOnce() -> R) -> (Option<R>, Hit) {
    mon::arm(k, mask);
    let r = run(f);
    let kind = mon::fired();
    let ticks = mon::disarm();
    let (r, fused) = match r {
        End::Ok(r) => (Some(r), false),
        End::Fuse => (None, true),
        End::Panic(m) => violate!("{} panicked: {}", what, m),
    };
    if fused {
        cx.op(match kind {
            1 => "panic injected in a clone",
            2 => "panic injected in a destructor",
            4 => "panic injected in a comparison",
            8 => "panic injected in a predicate",
            16 => "panic injected in an iterator",
            32 => "panic injected in a closure",
            _ => "panic injected elsewhere",
        });
        cx.log(|| format!("   // panic injected at callback {} (kind {})", k, kind));
    }
    (r, Hit { fused, kind, ticks })
}

fn sub_seq(xs: &[vharness::elem::Item], of: &[vharness::elem::Item]) -> bool {
    let mut it = of.iter();
    xs.iter().all(|x| it.any(|y| y == x))
}

/// Making the iterator and asking for its size may panic as well
struct Late<I>(I);

impl<I: Iterator> IntoIterator for Late<I> {
    type Item = I::Item;
    type IntoIter = LateIter<I>;

    fn into_iter(self) -> LateIter<I> {
        mon::tick(Kind::Other);
        LateIter(self.0)
    }
}

struct LateIter<I>(I);

impl<I: Iterator> Iterator for LateIter<I> {
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        mon::tick(Kind::Other);
        self.0.size_hint()
    }
}

/// One call with the panic at callback `k`; the number of callbacks it made
fn attempt<E: Elem, K: Store<E>>(cx: &mut Cx, seed: u64, k: u64) -> u64 {
    cx.rng = Rng::new(seed);
    cx.vcount = 0;
    let op = cx.rng.below(NAMES.len());
    let what = NAMES[op];
    cx.op(what);
    let mask = match cx.rng.below(4) {
        0 => !(Kind::Drop as u32),
        1 => Kind::Drop as u32,
        _ => !0,
    };
    let mut s = Sub::<E, K>::new(cx);
    let max = match cx.rng.below(40) {
        _ if cx.scale == 0 => 6,
        0 => 300,
        1..=4 => 80,
        _ => 14,
    };
    let n = cx.rng.below(max);
    s.fill(cx, n);
    if cx.rng.chance(1, 2) && n > 0 {
        iters::make_runs(cx, &mut s);
    }
    let n = s.m.len();
    let old = untracked(|| s.m.clone());
    let amount = cx.rng.below(max);
    let add = s.room(amount);
    let mut held: Vec<E> = Vec::new();
    let kind = cx.rng.next();
    let (a, b) = cx.range(n);
    let range = iters::bounds(cx, a, b, n);
    let mut outside = 0isize;
    let mut extra: Option<Box<dyn std::any::Any>> = None;
    let hit;
    let cap = s.cap;
    cx.log(|| format!("{} of {} elements, range {}..{}, amount {}", what, n, a, b, add));
    macro_rules! settle {
        () => {{
            s.adopt(what);
            check_alive(&held, what);
            if E::TRACKED {
                let alive = mon::live();
                let want = s.m.len() as isize + held.len() as isize + outside;
                check_eq!(alive, want, "elements alive after {} panicked, {} of them in the vector", what, s.m.len());
                if !E::ZST {
                    let ids: HashSet<u32> = untracked(|| held.iter().map(|e| e.id()).collect());
                    for it in &s.m {
                        check!(!ids.contains(&it.id), "{:?} is in the vector and was handed out", it)
                    }
                    untracked(|| drop(ids));
                }
            }
        }};
    }
    match op {
        0..=3 => {
            // grow, grow_with, resize, resize_with
            let shrink = op >= 2 && cx.rng.chance(1, 4);
            let to = if shrink { cx.index(n) } else { n + add };
            let e: Option<E> = if op == 0 || op == 2 { Some(cx.make()) } else { None };
            let v = &mut s.g.v;
            let mut c = 0;
            let (_, h) = armed(cx, k, mask, what, || {
                let mut f = || {
                    tick(Kind::Make);
                    c += 1;
                    E::make(c % E::VALS)
                };
                match op {
                    0 => v.grow(add, e.unwrap()),
                    1 => v.grow_with(add, f),
                    2 => v.resize(to, e.unwrap()),
                    _ => v.resize_with(to, &mut f),
                }
            });
            settle!();
            if h.fused && h.kind != Kind::Drop as u32 {
                check_eq!(s.m, old, "contents after {} panicked", what);
            } else {
                let k = n.min(s.m.len());
                check_eq!(&s.m[..k], &old[..k], "old contents after {}", what);
                if h.fused {
                    check!(s.m.len() == n || s.m.len() == to, "length {} after {} from {} to {} panicked", s.m.len(), what, n, to);
                } else {
                    check_eq!(s.m.len(), to, "length after {}", what);
                }
            }
            hit = h;
        }
        4 | 6 => {
            let xs: Vec<E> = (0..add).map(|_| cx.make()).collect();
            let src = items(&xs);
            outside = add as isize;
            let v = &mut s.g.v;
            let (_, h) = armed(cx, k, mask, what, || if op == 4 { v.extend_from_slice(&xs) } else { v.extend(Late(xs.iter())) });
            settle!();
            check_eq!(items(&xs), src, "the source of {}", what);
            check_alive(&xs, what);
            check!(s.m.len() >= n, "{} lost old contents", what);
            check_eq!(&s.m[..n], &old[..], "old contents after {}", what);
            if h.fused && op == 4 && h.kind != Kind::Drop as u32 {
                check_eq!(s.m.len(), n, "length after {} panicked", what);
            }
            check!(s.m.len() <= n + add, "length {} after {}", s.m.len(), what);
            for (x, y) in s.m[n..].iter().zip(&src) {
                check_eq!(x.val, y.val, "value of a new element after {}", what)
            }
            outside = 0;
            drop(xs);
            untracked(|| drop(src));
            hit = h;
        }
        5 => {
            let (mut feed, new) = Feed::<E>::new(cx, add);
            feed.modest();
            let feed = feed.with_hint(if cx.rng.chance(1, 2) { eng::Hint::Exact } else { eng::Hint::Zero });
            let v = &mut s.g.v;
            let before = mon::by_kind()[4];
            let (_, h) = armed(cx, k, mask, what, || v.extend(Late(feed)));
            let calls = (mon::by_kind()[4] - before) as usize;
            settle!();
            check!(s.m.len() >= n && s.m.len() <= n + add, "length {} after extending {} by {}", s.m.len(), n, add);
            check_eq!(&s.m[..n], &old[..], "old contents after {}", what);
            let got = s.m.len() - n;
            check_eq!(&s.m[n..], &new[..got], "new contents after {}", what);
            if h.fused && h.kind == Kind::Next as u32 {
                check_eq!(got, calls - 1, "elements added by {} when its iterator panicked in call {}", what, calls);
            }
            untracked(|| drop(new));
            hit = h;
        }
        7 => {
            let xs: Vec<E> = (0..n.saturating_sub(amount % 3).max(if amount % 3 == 2 { n + add } else { 0 })).map(|_| cx.make()).collect();
            let src = items(&xs);
            outside = xs.len() as isize;
            let v = &mut s.g.v;
            let (_, h) = armed(cx, k, mask, what, || v.clone_from(&xs));
            settle!();
            check_eq!(items(&xs), src, "the source of {}", what);
            outside = 0;
            drop(xs);
            untracked(|| drop(src));
            hit = h;
        }
        8 | 9 => {
            // retain, drain_filter
            let (a, b) = if op == 8 { (0, n) } else { (a, b) };
            let steps = if cx.rng.chance(1, 3) { usize::MAX } else { cx.rng.below(b - a + 2) };
            let dir = cx.rng.below(3);
            let mut chosen: Vec<Item> = Vec::new();
            let mut seen = 0usize;
            let mut again = 0;
            let mut calls = 0u64;
            let v = &mut s.g.v;
            let held = &mut held;
            let (_, h) = {
                let (chosen, calls, seen, again) = (&mut chosen, &mut calls, &mut seen, &mut again);
                armed(cx, k, mask, what, || {
                    let mut pred = |e: &mut E| {
                        if mon::fired() == Kind::Pred as u32 {
                            *again += 1
                        }
                        tick(Kind::Pred);
                        let it = e.item();
                        *seen += 1;
                        let t = iters::choose(kind, it, *calls);
                        *calls += 1;
                        if t {
                            untracked(|| chosen.push(it))
                        }
                        t
                    };
                    if op == 8 {
                        v.retain(|e| !pred(e))
                    } else {
                        let mut d = v.drain_filter(range, pred);
                        let mut i = 0;
                        while i < steps {
                            i += 1;
                            match if dir == 1 || dir == 2 && (kind >> (i % 40)) & 1 == 1 { d.next_back() } else { d.next() } {
                                None => break,
                                Some(e) if i % 2 == 0 => untracked(|| held.push(e)),
                                Some(e) => drop(e),
                            }
                        }
                    }
                })
            };
            let held = &*held;
            s.adopt(what);
            check_alive(held, what);
            if E::TRACKED {
                check_eq!(mon::live(), (s.m.len() + held.len()) as isize, "elements alive after {}, {} of them in the vector", what, s.m.len());
            }
            // everything but what was chosen, in order
            if E::TRACKED && !E::ZST {
                let want: Vec<Item> = untracked(|| old.iter().filter(|x| !chosen.contains(x)).cloned().collect());
                check_eq!(s.m, want, "contents after {}, the predicate chose {}", what, show(&chosen));
                untracked(|| drop(want));
            } else {
                check_eq!(s.m.len(), n - chosen.len(), "length after {}", what);
            }
            if !h.fused {
                check_eq!(seen, b - a, "calls of the predicate of {}", what);
            }
            check_eq!(again, 0, "calls of the predicate of {} after it panicked", what);
            untracked(|| drop(chosen));
            hit = h;
        }
        10..=12 => {
            let v = &mut s.g.v;
            let mut calls = 0u64;
            let (_, h) = armed(cx, k, mask, what, || match op {
                10 => v.dedup::<(), ()>(),
                11 => v.dedup_by(|a, b| {
                    tick(Kind::Pred);
                    calls += 1;
                    let (a, b) = (a.item(), b.item());
                    if kind % 2 == 0 {
                        a.val == b.val
                    } else {
                        (kind >> (calls % 50 + 8)) & 1 == 1
                    }
                }),
                _ => v.dedup_by_key(|e| {
                    tick(Kind::Pred);
                    e.val() / 2
                }),
            });
            settle!();
            if h.fused && h.kind != Kind::Drop as u32 && E::TRACKED {
                // nothing has been removed
                let mut x = untracked(|| s.m.clone());
                let mut y = untracked(|| old.clone());
                x.sort();
                y.sort();
                check_eq!(x, y, "elements after {} panicked, in any order", what);
                untracked(|| drop((x, y)));
            }
            hit = h;
        }
        13 => {
            let steps = cx.rng.below(b - a + 1);
            let dir = cx.rng.below(2);
            let v = &mut s.g.v;
            let h = {
                let held = &mut held;
                let (_, h) = armed(cx, k, mask, what, || {
                    let mut d = v.drain(range);
                    for i in 0..steps {
                        let e = if dir == 0 { d.next() } else { d.next_back() };
                        match e {
                            Some(e) if i % 2 == 0 => untracked(|| held.push(e)),
                            e => drop(e),
                        }
                    }
                });
                h
            };
            settle!();
            check!(s.m.len() >= a + (n - b), "length {} after drain of {}..{} of {}", s.m.len(), a, b, n);
            check_eq!(&s.m[..a], &old[..a], "elements before the range after {}", what);
            let tail = s.m.len() - (n - b);
            check_eq!(&s.m[tail..], &old[b..], "elements after the range after {}", what);
            check!(E::ZST || sub_seq(&s.m[a..tail], &old[a..b]), "elements left in the range after {}: {}", what, show(&s.m));
            if !h.fused {
                check_eq!(tail, a, "length of the range after {}", what);
            }
            hit = h;
        }
        14 => {
            let steps = cx.rng.below(b - a + 1);
            let dir = cx.rng.below(2);
            let cnt = s.room(n + amount).min(b - a + add);
            let cnt = if cx.rng.chance(1, 3) { cx.rng.below(cnt + 1) } else { cnt };
            let cnt = if s.is_fixed() && !E::ZST { cnt.min(cap - (n - (b - a))) } else { cnt };
            let (mut feed, new) = Feed::<E>::new(cx, cnt);
            feed.modest();
            let hint = cx.rng.pick(&[eng::Hint::Exact, eng::Hint::Zero, eng::Hint::Under]);
            let feed = feed.with_hint(hint);
            cx.log(|| format!("   splice with {} hint {:?}", cnt, hint));
            let v = &mut s.g.v;
            let h = {
                let held = &mut held;
                let (_, h) = armed(cx, k, mask, what, || {
                    let mut d = v.splice(range, Late(feed));
                    for i in 0..steps {
                        let e = if dir == 0 { d.next() } else { d.next_back() };
                        match e {
                            Some(e) if i % 2 == 0 => untracked(|| held.push(e)),
                            e => drop(e),
                        }
                    }
                });
                h
            };
            settle!();
            check!(s.m.len() >= a + (n - b), "length {} after splice of {}..{} of {}", s.m.len(), a, b, n);
            check_eq!(&s.m[..a], &old[..a], "elements before the range after {}", what);
            let tail = s.m.len() - (n - b);
            check_eq!(&s.m[tail..], &old[b..], "elements after the range after {}", what);
            if h.fused && h.kind == Kind::Next as u32 {
                check!(E::ZST || sub_seq(&s.m[a..tail], &new), "elements in the range after the replacement panicked: {}", show(&s.m));
            }
            if !h.fused {
                check_eq!(&s.m[a..tail], &new[..], "elements in the range after {}", what);
            }
            untracked(|| drop(new));
            hit = h;
        }
        15 => {
            let plan: Vec<(usize, bool, usize)> = (0..6).map(|_| (cx.rng.below(6), cx.rng.chance(1, 2), cx.rng.below(4))).collect();
            let mut spare: Vec<E> = (0..6).map(|_| cx.make()).collect();
            let mut g = untracked(|| iters::Gap::new(&old, a, b));
            let v = &mut s.g.v;
            let h = {
                let (held, spare, g) = (&mut held, &mut spare, &mut g);
                let (_, h) = armed(cx, k, mask, what, || {
                    let mut c = v.cursor(range);
                    for &(what, back, k) in &plan {
                        let left = c.len();
                        match what {
                            0 if left > 0 => {
                                let e = if back { c.take_back() } else { c.take_front() };
                                untracked(|| {
                                    g.take(back, 1);
                                    held.push(e)
                                })
                            }
                            1 if left > 0 => {
                                untracked(|| g.keep(back, 1));
                                if back {
                                    c.skip_back()
                                } else {
                                    c.skip_front()
                                }
                            }
                            2 if left > 0 => {
                                untracked(|| g.take(back, 1));
                                if back {
                                    c.drop_back()
                                } else {
                                    c.drop_front()
                                }
                            }
                            3 | 4 => {
                                let k = k.min(left);
                                untracked(|| g.take(back, k));
                                if back {
                                    c.drop_n_back(k)
                                } else {
                                    c.drop_n_front(k)
                                }
                            }
                            _ => {
                                if let Some(e) = untracked(|| spare.pop()) {
                                    let it = e.item();
                                    match if back { c.try_write_back(e) } else { c.try_write_front(e) } {
                                        Ok(()) => untracked(|| g.wrote(back, it)),
                                        Err(e) => untracked(|| spare.push(e)),
                                    }
                                }
                            }
                        }
                    }
                });
                h
            };
            outside = spare.len() as isize;
            settle!();
            outside = 0;
            let want = g.all();
            check_eq!(s.m, want, "contents after a cursor's work, panicked: {}", h.fused);
            untracked(|| drop((want, g)));
            iters::drop_held(spare);
            hit = h;
        }
        16 | 17 => {
            let to = if op == 16 { cx.index(n) } else { 0 };
            let v = &mut s.g.v;
            let (_, h) = armed(cx, k, mask, what, || if op == 16 { v.truncate(to) } else { v.clear() });
            settle!();
            check!(s.m.len() >= to && s.m.len() <= n, "length {} after {}({})", s.m.len(), what, to);
            check_eq!(&s.m[..], &old[..s.m.len()], "contents after {}", what);
            hit = h;
        }
        18 | 19 | 23 | 24 => {
            // the vector is used up
            let steps = cx.rng.below(n + 1);
            let (v, m, store) = s.into_parts();
            let h = {
                let held = &mut held;
                let (_, h) = armed(cx, k, mask, what, || match op {
                    18 => {
                        let mut it = v.into_iter();
                        for i in 0..steps {
                            let e = match kind >> (i % 20) & 3 {
                                0 => it.next_back(),
                                1 => it.nth((kind >> 7) as usize % 3),
                                _ => it.next(),
                            };
                            match e {
                                Some(e) if i % 2 == 0 => untracked(|| held.push(e)),
                                e => drop(e),
                            }
                        }
                    }
                    19 => drop(v),
                    24 => {
                        let mut i = 0;
                        v.into_iter().for_each(|e| {
                            tick(Kind::Other);
                            i += 1;
                            if i % 2 == 0 {
                                drop(e)
                            } else {
                                untracked(|| held.push(e))
                            }
                        })
                    }
                    _ => drop(v.convert::<MonStore<E>>()),
                });
                h
            };
            mon::check_errors(what);
            check_alive(&held, what);
            if E::TRACKED {
                check_eq!(mon::live(), held.len() as isize, "elements alive after {}", what);
            }
            if let Some(e) = store.check() {
                violate!("{} after {}", e, what)
            }
            iters::drop_held(held);
            untracked(|| drop((m, old)));
            cx.nontrivial |= hit_some(&h);
            return h.ticks
        }
        20 => {
            if n == 0 {
                untracked(|| drop(old));
                return 0
            }
            let e: E = cx.make();
            let it = e.item();
            let v = &mut s.g.v;
            let i = cx.rng.below(n);
            let (_, h) = armed(cx, k, mask, what, || v[i] = e);
            settle!();
            check_eq!(s.m[i], it, "assigned element");
            hit = h;
        }
        21 => {
            let xs: Vec<E> = (0..n).map(|i| E::make(old[i].val)).collect();
            outside = xs.len() as isize;
            let v = &mut s.g.v;
            let (_, h) = armed(cx, k, mask, what, || {
                let _ = v == &xs;
                let _ = *v != xs[..];
                let _ = v.first().map_or(false, |x| v[v.len() / 2..].contains(x));
            });
            settle!();
            check_eq!(s.m, old, "contents after {}", what);
            outside = 0;
            drop(xs);
            hit = h;
        }
        _ => {
            // a clone of a vector of another kind
            let mut o: GenericVec<E, MonStore<E>> = GenericVec::with_capacity(0);
            for _ in 0..amount {
                let e = cx.make();
                o.push(e);
            }
            let before = items(&o);
            let (c, h) = armed(cx, k, mask, what, || o.clone());
            outside = o.len() as isize + c.as_ref().map_or(0, |c| c.len()) as isize;
            settle!();
            check_eq!(items(&o), before, "the vector that was cloned");
            check_alive(&o, what);
            if let Some(c) = &c {
                check_alive(c, what);
                check_eq!(c.len(), o.len(), "length of a clone");
            }
            outside = 0;
            untracked(|| drop(before));
            extra = untracked(|| Some(Box::new((o, c)) as Box<dyn std::any::Any>));
            hit = h;
        }
    }
    untracked(|| drop(extra.take()));
    // the vector can still be used
    let left = held.len() as isize;
    s.verify_held(cx, left, what);
    iters::drop_held(held);
    let _ = outside;
    let more = eng::list(&[eng::core_ops::<E, K>, eng::bulk_ops::<E, K>]);
    for _ in 0..3 {
        let op = cx.rng.pick(&more);
        op(cx, &mut s);
    }
    untracked(|| drop((more, old)));
    drop(s);
    mon::check_errors("the end of the vector");
    if E::TRACKED {
        check_eq!(mon::live(), 0, "elements alive at the end, after {}", what);
    }
    cx.nontrivial |= hit_some(&hit);
    hit.ticks
}

fn hit_some(h: &Hit) -> bool {
    h.fused
}

impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let seed = cx.rng.next();
        let mut pick = Rng::new(seed ^ 1);
        let n = attempt::<E, K>(cx, seed, 0);
        let max = if cx.scale == 0 { 4 } else { 24 };
        if n <= max {
            for k in 1..=n {
                attempt::<E, K>(cx, seed, k);
            }
        } else {
            for _ in 0..max {
                let k = 1 + pick.below(n as usize) as u64;
                attempt::<E, K>(cx, seed, k);
            }
        }
    }
}

fn main() {
    drive::main("C03", vharness::common_groups!(W), 4000)
}
