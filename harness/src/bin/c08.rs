//! Reserving gives the promised room, or fails cleanly.
use core::mem::size_of;
use generic_vec::GenericVec;
use vharness::alloc::{self, untracked};
use vharness::cx::{items, Cx, Sub, Work};
use vharness::elem::*;
use vharness::eng::{self, want_ok, want_panic};
use vharness::mon::run;
use vharness::stores::*;
use vharness::{check, check_eq, drive, groups};

struct W;

/// a number of elements for which the vector of `n` elements can never have room
fn too_much<E: Elem>(cx: &mut Cx, n: usize) -> usize {
    let sz = size_of::<E>().max(1);
    match cx.rng.below(6) {
        // the length overflows
        0 if n > 0 => usize::MAX - cx.rng.below(n),
        1 => usize::MAX - n,
        // the size overflows, or is more than `isize::MAX`
        2 => usize::MAX / sz - n,
        3 => isize::MAX as usize / sz + 1,
        4 => usize::MAX / 2 + cx.rng.below(1 << 20),
        _ => isize::MAX as usize / sz - n + 1,
    }
}

/// Puts `k` elements into the room there is for them
fn use_room<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, k: usize, what: &str) {
    let (cap, ptr) = (s.g.v.capacity(), s.g.v.as_ptr());
    let c0 = alloc::counts();
    let mut req = 0;
    let how = cx.rng.below(4);
    let mut left = k;
    while left > 0 {
        match how {
            0 | 3 => {
                let e: E = cx.make();
                let it = e.item();
                s.m_push(it);
                let c = alloc::counts();
                let _ = s.g.v.push(e);
                req += c.requests_since();
                left -= 1
            }
            1 => {
                let e: E = cx.make();
                let it = e.item();
                let i = cx.index(s.m.len());
                let m = &mut s.m;
                untracked(|| m.insert(i, it));
                let c = alloc::counts();
                let _ = s.g.v.insert(i, e);
                req += c.requests_since();
                left -= 1
            }
            _ => {
                let n = s.m.len();
                let e: E = cx.make();
                let c = alloc::counts();
                let extra = left.min(1 + cx.rng.below(40));
                s.g.v.grow_with(extra, || {
                    untracked(|| cx.make())
                });
                req += c.requests_since();
                untracked(|| s.m.extend(items(&s.g.v[n..])));
                check_eq!(s.m.len(), n + extra, "length after grow_with");
                drop(e);
                left -= extra
            }
        }
    }
    let _ = c0;
    // (elements on the heap ask for memory themselves, but not between the counts)
    check_eq!(req, 0, "requests for memory by {} elements after {}", k, what);
    check_eq!(s.g.v.capacity(), cap, "capacity after using the room made by {}", what);
    check_eq!(s.g.v.as_ptr(), ptr, "pointer after using the room made by {}", what);
    s.verify(cx, what);
}

impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        if cx.rng.chance(1, 6) {
            return one_by_one::<E, K>(cx)
        }
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 10 } else { 24 };
        for _ in 0..steps {
            step(cx, &mut s);
            eng::trim(cx, &mut s, 600);
        }
        drop(s);
        if cx.rng.chance(1, 2) {
            made::<E, K>(cx)
        }
    }
}

fn step<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let n = s.m.len();
    let (cap, ptr) = (s.g.v.capacity(), s.g.v.as_ptr());
    let room = cap - n;
    let heap = K::name().starts_with("heap");
    // the block goes back to the allocator as it came
    let unchanged = |s: &mut Sub<E, K>, cx: &mut Cx, what: &str| {
        check_eq!(s.g.v.capacity(), cap, "capacity after {}", what);
        check_eq!(s.g.v.as_ptr(), ptr, "pointer after {}", what);
        s.verify(cx, what);
    };
    let k = match cx.rng.below(10) {
        0 => room.min(1000),
        1 => room.min(1000) + 1,
        2 => room.min(1000).saturating_sub(1),
        3 => cap.min(1000),
        4 => 0,
        5 => 2 * cap.min(1000) + cx.rng.below(4),
        6 if heap => cx.rng.below(5000),
        _ => cx.amount(),
    };
    let zst_or_fits = k <= room;
    let c = alloc::counts();
    match cx.rng.below(9) {
        0 | 1 => {
            let r = run(|| s.g.v.reserve(k));
            let q = c.requests_since();
            cx.log(|| format!("reserve({})  // {} of {} -> {}", k, n, cap, s.g.v.capacity()));
            if zst_or_fits {
                want_ok(r, "reserve of what there is");
                check_eq!(q, 0, "requests for memory by reserve of {} ({} of {})", k, n, cap);
                cx.op("room was there");
                unchanged(s, cx, "reserve of what there is");
            } else if s.is_fixed() {
                want_panic(cx, r, "reserve on a fixed storage");
                cx.op("refused");
                return unchanged(s, cx, "reserve on a fixed storage")
            } else {
                want_ok(r, "reserve");
                check!(s.g.v.capacity() >= n + k, "capacity {} after reserve({}) at length {}", s.g.v.capacity(), k, n);
                check!(s.g.v.remaining_capacity() >= k, "remaining_capacity {} after reserve({})", s.g.v.remaining_capacity(), k);
                if heap {
                    check_eq!(q, 1, "requests for memory by reserve({}) ({} of {})", k, n, cap);
                }
                cx.op("grew");
                s.verify(cx, "reserve");
            }
            cx.nontrivial = true;
            if k <= 400 && cx.rng.chance(1, 2) {
                use_room(cx, s, k, "reserve");
            }
        }
        2 | 3 => {
            let r = want_ok(run(|| s.g.v.try_reserve(k)), "try_reserve");
            let q = c.requests_since();
            cx.log(|| format!("try_reserve({}) is {}  // {} of {} -> {}", k, r, n, cap, s.g.v.capacity()));
            check_eq!(r, zst_or_fits || !s.is_fixed(), "try_reserve({}) at {} of {} ({})", k, n, cap, K::name());
            if zst_or_fits || !r {
                check_eq!(q, 0, "requests for memory by try_reserve of {} ({} of {})", k, n, cap);
                unchanged(s, cx, "try_reserve");
                cx.op(if r { "room was there" } else { "refused" });
            } else {
                check!(s.g.v.capacity() >= n + k, "capacity {} after try_reserve({}) at length {}", s.g.v.capacity(), k, n);
                cx.op("grew");
                s.verify(cx, "try_reserve");
            }
            cx.nontrivial = true;
            if r && k <= 400 && cx.rng.chance(1, 2) {
                use_room(cx, s, k, "try_reserve");
            }
        }
        4 => {
            // more than any vector can hold
            let k = too_much::<E>(cx, n);
            if E::ZST && k <= usize::MAX - n {
                return
            }
            let r = want_ok(run(|| s.g.v.try_reserve(k)), "try_reserve");
            cx.log(|| format!("try_reserve({}) is {}", k, r));
            check_eq!(r, false, "try_reserve({}) at {} of {} ({})", k, n, cap, K::name());
            cx.op("refused");
            cx.nontrivial = true;
            unchanged(s, cx, "try_reserve of too much");
        }
        5 => {
            // the same by panicking; what only the allocator can refuse ends the process
            let k = if cx.rng.chance(1, 2) || size_of::<E>() < 2 { usize::MAX - cx.rng.below(n.max(1)) } else { usize::MAX / size_of::<E>() + 1 };
            if n == 0 && (E::ZST || (!s.is_fixed() && size_of::<E>() == 1)) {
                return
            }
            let k = if E::ZST || size_of::<E>() == 1 { usize::MAX - cx.rng.below(n.max(1)) } else { k };
            let r = run(|| s.g.v.reserve(k));
            want_panic(cx, r, "reserve of too much");
            cx.op("refused");
            cx.nontrivial = true;
            unchanged(s, cx, "reserve of too much");
        }
        6 | 7 if heap && !E::ZST && room < 5000 => {
            // the allocator has nothing left
            let k = room + 1 + cx.rng.below(40);
            let what = cx.rng.below(4);
            let made = if what < 2 && room == 0 { Some(cx.make::<E>()) } else { None };
            let held = made.as_ref().map(|e| e.item());
            let at = cx.index(n);
            let c = alloc::counts();
            match made {
                Some(e) => {
                    let r = alloc::failing(1, || {
                        run(|| match what {
                            0 => s.g.v.try_push(e).map(|_| ()),
                            _ => s.g.v.try_insert(at, e).map(|_| ()),
                        })
                    });
                    let name = if what == 0 { "try_push without memory" } else { "try_insert without memory" };
                    match want_ok(r, name) {
                        Ok(()) => vharness::violate!("{} succeeded", name),
                        Err(e) => check_eq!(Some(e.item()), held, "the element handed back by {}", name),
                    }
                    cx.log(|| name.to_string());
                }
                None => {
                    let r = alloc::failing(1, || run(|| s.g.v.try_reserve(k)));
                    let r = want_ok(r, "try_reserve without memory");
                    check_eq!(r, false, "try_reserve({}) without memory at {} of {}", k, n, cap);
                    // a second request would not have failed before the first
                    cx.log(|| format!("try_reserve({}) without memory", k));
                }
            }
            let now = alloc::counts();
            check_eq!(now.live, c.live - held.map_or(0, |_| (E::NAME == "Boxed") as u64), "blocks after a failed allocation");
            cx.op("refused: out of memory");
            cx.nontrivial = true;
            unchanged(s, cx, "a failed allocation");
            // and again, with memory
            let r = want_ok(run(|| s.g.v.try_reserve(k)), "try_reserve");
            check_eq!(r, true, "try_reserve({}) after a failed one at {} of {}", k, n, cap);
            check!(s.g.v.capacity() >= n + k, "capacity {} after try_reserve({}) at length {}", s.g.v.capacity(), k, n);
            s.verify(cx, "try_reserve after a failed one");
            if k <= 400 && cx.rng.chance(1, 2) {
                use_room(cx, s, k, "try_reserve");
            }
        }
        _ => {
            // away with some
            let i = cx.index(n);
            s.g.v.truncate(i);
            s.m.truncate(i);
            unchanged(s, cx, "truncate");
        }
    }
}

/// Growing by one at a time
fn one_by_one<E: Elem, K: Store<E>>(cx: &mut Cx) {
    let mut s = Sub::<E, K>::with_cap(cx, 0);
    if s.is_fixed() || !K::name().starts_with("heap") {
        return
    }
    let most = if cx.scale == 0 { 150 } else { 2000 };
    // rarely a great many
    let long = !E::TRACKED && cx.scale > 0 && cx.rng.chance(1, 60);
    let k = if long { 1_000_000 + cx.rng.below(400_000) } else { most / 4 + cx.rng.below(most) };
    let how = if long { cx.rng.pick(&[0, 3, 4, 5, 7, 8]) } else { cx.rng.below(if E::TRACKED { 8 } else { 9 }) };
    let (mut req, mut moves, mut cap) = (0, 0, s.g.v.capacity());
    for i in 0..k {
        let e: E = untracked(|| cx.make());
        let at = cx.index(i);
        let c = alloc::counts();
        match how {
            0 | 1 => drop(s.g.v.push(e)),
            2 => drop(s.g.v.insert(at, e)),
            3 => {
                s.g.v.reserve(1);
                drop(s.g.v.push(e))
            }
            4 => s.g.v.grow_with(1, || untracked(|| E::make(2))),
            5 => s.g.v.extend(Some(e)),
            6 => {
                check!(s.g.v.try_reserve(1), "try_reserve on the heap failed");
                check!(s.g.v.try_insert(at, e).is_ok(), "try_insert on the heap failed")
            }
            7 => s.g.v.resize_with(i + 1, || untracked(|| E::make(1))),
            _ => s.g.v.extend_from_slice(core::slice::from_ref(&e)),
        }
        req += c.requests_since();
        if s.g.v.capacity() != cap {
            moves += 1;
            check!(s.g.v.capacity() > cap, "the capacity shrank from {} to {} by growing", cap, s.g.v.capacity());
            cap = s.g.v.capacity();
        }
        check_eq!(s.g.v.len(), i + 1, "length after growing by one");
    }
    let log = 64 - (k as u64 + 1).leading_zeros() as u64;
    let bound = 3 * log + 8;
    cx.log(|| format!("{} elements one by one, way {}: {} requests for memory, {} capacities", k, how, req, moves));
    check!(req <= bound, "{} requests for memory to add {} elements one by one (at most {})", req, k, bound);
    check!(moves <= bound, "the capacity changed {} times while adding {} elements one by one (at most {})", moves, k, bound);
    cx.op("grown one by one");
    cx.nontrivial = true;
    if long {
        return s.g.v.truncate(0)
    }
    s.adopt("growing one by one");
    s.verify(cx, "growing one by one");
}

/// with_capacity
fn made<E: Elem, K: Store<E>>(cx: &mut Cx) {
    #[cfg(feature = "alloc")]
    {
        use generic_vec::raw::{Heap, UninitBuffer};
        heap::<E, Heap<E>>(cx);
        // (of the same alignment)
        heap::<E, Heap<[E; 3]>>(cx);
        boxed::<E, Box<UninitBuffer<[E; 6], E>>>(cx, 6);
    }
    boxed::<E, generic_vec::raw::UninitBuffer<[E; 9], E>>(cx, 9);
}

#[cfg(feature = "alloc")]
fn heap<E: Elem, S: generic_vec::raw::StorageWithCapacity<E>>(cx: &mut Cx) {
    let k = cx.amount() + if cx.rng.chance(1, 8) { 3000 } else { 0 };
    let c = alloc::counts();
    let r = run(|| GenericVec::<E, S>::with_capacity(k));
    let mut v = want_ok(r, "with_capacity");
    let q = c.requests_since();
    check!(v.capacity() >= k, "capacity {} of with_capacity({})", v.capacity(), k);
    check_eq!(v.len(), 0, "length of with_capacity");
    check_eq!(q, (k > 0 && !E::ZST) as u64, "requests for memory by with_capacity({})", k);
    let p = v.as_ptr();
    let c = alloc::counts();
    for _ in 0..k {
        let e = untracked(|| cx.make());
        v.push(e);
    }
    check_eq!(c.requests_since(), 0, "requests for memory while a vector made for {} is filled", k);
    check_eq!(v.as_ptr(), p, "pointer of a vector made for {} when it is full", k);
    check_eq!(v.len(), k, "length of a vector filled");
    cx.op("with_capacity");
    cx.log(|| format!("with_capacity({})", k));
    drop(v);
    // more than there can be
    if size_of::<E>() > 1 {
        let k = usize::MAX / size_of::<E>() + 1 + cx.rng.below(5);
        let r = run(|| GenericVec::<E, S>::with_capacity(k)).map_unit();
        want_panic(cx, r, "with_capacity of too much");
        cx.op("refused");
    }
}

/// storages of a fixed capacity
fn boxed<E: Elem, S: generic_vec::raw::StorageWithCapacity<E>>(cx: &mut Cx, most: usize) {
    let k = cx.rng.below(most + 4);
    let r = run(|| GenericVec::<E, S>::with_capacity(k));
    if k > most && !E::ZST {
        want_panic(cx, r, "with_capacity on a fixed storage");
        cx.op("refused");
    } else {
        let v = want_ok(r, "with_capacity");
        check!(v.capacity() >= k, "capacity {} of with_capacity({})", v.capacity(), k);
        check_eq!(v.len(), 0, "length of with_capacity");
        cx.op("with_capacity");
    }
}

fn main() {
    drive::main(
        "C08",
        groups!(W;
            #[cfg(feature = "alloc")] 5: Tw, HeapK;
            #[cfg(feature = "alloc")] 2: Tb, HeapK;
            #[cfg(feature = "alloc")] 2: T3, HeapK;
            #[cfg(feature = "alloc")] 1: Ta, HeapK;
            #[cfg(feature = "alloc")] 1: Tz, HeapK;
            #[cfg(feature = "alloc")] 3: Cu8, HeapK;
            #[cfg(feature = "alloc")] 2: C24, HeapK;
            #[cfg(feature = "alloc")] 2: Tw, AlienHeapK<u64>;
            #[cfg(feature = "alloc")] 2: T3, AlienHeapK<u16>;
            #[cfg(feature = "alloc")] 2: Cu8, AlienHeapK<[u32; 3]>;
            #[cfg(feature = "alloc")] 1: C24, AlienHeapK<u64>;
            #[cfg(feature = "alloc")] 1: Tw, BoxK<5>;
            #[cfg(feature = "alloc")] 1: Tw, BoxSliceK;
            2: Tw, ExactK;
            2: Tb, MutK<Tb>;
            2: Tb, SliceK;
            1: T3, AlienSliceK<u32>;
            2: Tw, ArrK<8>;
            1: Tw, ArrK<0>;
            1: Ts, BytesK<45>;
            1: Tz, ZsK;
            1: Tz, ArrK<8>;
            1: Cu8, InitSliceK;
            1: Cu32, InitArr16;
        ),
        10000,
    )
}
