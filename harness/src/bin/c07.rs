//! Heap memory is allocated, resized and freed correctly.
#[cfg(feature = "alloc")]
mod c07 {
    use core::mem::{align_of, size_of};
    use generic_vec::raw::Heap;
    use generic_vec::{GenericVec, HeapVec};
    use vharness::alloc::{self, untracked};
    use vharness::cx::{refill, Cx, Sub, Work};
    use vharness::elem::*;
    use vharness::mon::{run, End};
    use vharness::own::same;
    use vharness::stores::*;
    use vharness::{check, check_eq, drive, eng, groups, iters, own};

    /// Runs `f`, which is part of the case, and counts its requests for memory
    fn metered<R>(f: impl FnOnce() -> R) -> (End<R>, u64) {
        let before = alloc::counts();
        let r = run(f);
        let n = before.requests_since();
        (r, n)
    }

    /// The block of the vector has the size and the alignment that its capacity says
    fn block<E: Elem, K: Store<E>>(s: &Sub<E, K>, base: u64, what: &str) {
        let v = &s.g.v;
        let live = alloc::counts().live - base;
        if E::ZST {
            check_eq!(live, 0, "heap blocks of a vector of zero-sized elements after {}", what);
            return
        }
        let (p, cap) = (v.as_ptr(), v.capacity());
        match alloc::block_at(p) {
            Some((size, align)) => {
                check!(cap > 0, "the vector has a block of {} bytes, but no capacity, after {}", size, what);
                check_eq!(size / size_of::<E>(), cap, "elements that fit into the block (capacity) after {}", what);
                check!(align >= align_of::<E>(), "the block is aligned to {}, elements to {}, after {}", align, align_of::<E>(), what);
                check!(p as usize % align == 0, "pointer after {}", what);
                check_eq!(live, 1, "heap blocks of one vector after {}", what);
            }
            None => {
                check_eq!(cap, 0, "capacity of a vector whose pointer is not a heap block, after {}", what);
                check_eq!(live, 0, "heap blocks of a vector without capacity after {}", what);
            }
        }
    }

    struct W;
    impl Work for W {
        fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
            let c0 = alloc::counts();
            let base = c0.live;
            let cap = K::pick(&mut cx.rng);
            let mut store = K::new();
            let (v, req) = metered(|| store.build(cap));
            let v = match v {
                End::Ok(v) => v,
                e => vharness::violate!("making a vector {}", e.name()),
            };
            check!(req <= (cap > 0 && !E::ZST) as u64, "{} requests for memory by a vector made for {} elements", req, cap);
            cx.log(|| format!("with_capacity({})  // capacity {}", cap, v.capacity()));
            let g = untracked(|| Guarded::new(v));
            let cap = g.v.capacity();
            let mut s = Sub::<E, K> { g, m: untracked(|| Vec::with_capacity(2048)), growth: K::growth(0), cap, leaked: 0, store };
            block(&s, base, "making it");
            let n = s.start_len(cx);
            fill(cx, &mut s, n);
            block(&s, base, "filling it");
            let steps = if cx.scale == 0 { 12 } else { 40 };
            for _ in 0..steps {
                step(cx, &mut s, base);
                eng::trim(cx, &mut s, 700);
            }
            cx.nontrivial |= s.cap > 0 || E::ZST;
            // the end
            let Sub { g, m, store, .. } = s;
            let v = untracked(|| (*g).into_inner());
            let _ = store;
            end::<E, K>(cx, v, m, base);
            check_eq!(alloc::counts().live, base, "heap blocks after the end of the vector");
        }
    }

    fn fill<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, n: usize) {
        refill(cx, s, n)
    }

    /// One operation: no request for memory unless `need`
    fn step<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, base: u64) {
        let n = s.m.len();
        let cap = s.g.v.capacity();
        let ptr = s.g.v.as_ptr();
        let room = cap - n;
        let what: &'static str;
        let req;
        // room needed by the operation
        let mut need = 0;
        // operations that never grow keep the block and the capacity
        let amount = if cx.rng.chance(1, 3) { room.min(500) } else if cx.rng.chance(1, 8) { room.min(500) + 1 } else { cx.amount() };
        match cx.rng.below(27) {
            0 | 1 => {
                what = "push";
                need = 1;
                let e: E = cx.make();
                let it = e.item();
                req = metered(|| s.g.v.push(e).item()).1;
                s.m_push(it);
            }
            2 => {
                what = "insert";
                need = 1;
                let e: E = cx.make();
                let it = e.item();
                let i = cx.index(n);
                req = metered(|| s.g.v.insert(i, e).item()).1;
                let m = &mut s.m;
                untracked(|| m.insert(i, it));
            }
            3 => {
                what = "try_push, try_insert";
                let e: E = cx.make();
                let it = e.item();
                let i = cx.index(n);
                let (r, q) = metered(|| if i == n { s.g.v.try_push(e).is_ok() } else { s.g.v.try_insert(i, e).is_ok() });
                req = q;
                if let End::Ok(true) = r {
                    let m = &mut s.m;
                    untracked(|| m.insert(i, it));
                }
            }
            4 | 5 if n > 0 => {
                what = "pop, remove, swap_remove";
                let i = cx.rng.below(n);
                let how = cx.rng.below(6);
                req = metered(|| match how {
                    0 => drop(s.g.v.pop()),
                    1 => drop(s.g.v.remove(i)),
                    2 => drop(s.g.v.swap_remove(i)),
                    3 => drop(s.g.v.try_pop()),
                    4 => drop(s.g.v.try_remove(i)),
                    _ => drop(s.g.v.try_swap_remove(i)),
                })
                .1;
                match how {
                    0 | 3 => drop(s.m.pop()),
                    1 | 4 => drop(s.m.remove(i)),
                    _ => drop(s.m.swap_remove(i)),
                }
            }
            6 => {
                what = "truncate, clear";
                let i = cx.index(n);
                req = metered(|| if i == 0 { s.g.v.clear() } else { s.g.v.truncate(i) }).1;
                s.m.truncate(i);
            }
            7 => {
                what = "reserve";
                need = amount;
                req = metered(|| s.g.v.reserve(amount)).1;
            }
            8 => {
                what = "try_reserve";
                need = amount;
                req = metered(|| s.g.v.try_reserve(amount)).1;
            }
            9 | 10 => {
                what = "grow, resize";
                need = amount;
                let e: E = cx.make();
                let how = cx.rng.below(4);
                req = metered(|| match how {
                    0 => s.g.v.grow(amount, e),
                    1 => s.g.v.resize(n + amount, e),
                    2 => s.g.v.grow_with(amount, || e.clone()),
                    _ => s.g.v.resize_with(n + amount, || e.clone()),
                })
                .1;
                s.adopt(what);
                check_eq!(s.m.len(), n + amount, "length after {}", what);
            }
            11 | 12 => {
                what = "extend_from_slice, extend by reference";
                need = amount;
                let xs: Vec<E> = untracked(|| (0..amount).map(|_| cx.make()).collect());
                let by_ref = cx.rng.chance(1, 2);
                req = metered(|| if by_ref { s.g.v.extend(&xs) } else { s.g.v.extend_from_slice(&xs) }).1;
                untracked(|| drop(xs));
                s.adopt(what);
                check_eq!(s.m.len(), n + amount, "length after {}", what);
            }
            13 => {
                what = "extend";
                need = amount;
                let xs: Vec<E> = untracked(|| (0..amount).map(|_| cx.make()).collect());
                let by_ref = cx.rng.chance(1, 2);
                let mut it = xs.into_iter();
                req = metered(|| if by_ref { s.g.v.extend(&mut it) } else { s.g.v.extend(it.by_ref().filter(|_| true)) }).1;
                untracked(|| drop(it));
                s.adopt(what);
                check_eq!(s.m.len(), n + amount, "length after {}", what);
            }
            14 => {
                what = "clone_from";
                need = amount.saturating_sub(n);
                let xs: Vec<E> = untracked(|| (0..amount).map(|_| cx.make()).collect());
                req = metered(|| s.g.v.clone_from(&xs)).1;
                untracked(|| drop(xs));
                s.adopt(what);
                check_eq!(s.m.len(), amount, "length after {}", what);
            }
            15 => {
                what = "drain";
                let (a, b) = cx.range(n);
                let k = cx.rng.below(4);
                req = metered(|| {
                    let mut d = s.g.v.drain(a..b);
                    for _ in 0..k {
                        drop(d.next());
                        drop(d.next_back())
                    }
                })
                .1;
                untracked(|| drop(s.m.drain(a..b)));
            }
            16 => {
                what = "retain, drain_filter";
                let (a, b) = if cx.rng.chance(1, 2) { (0, n) } else { cx.range(n) };
                let odd = cx.rng.below(3) as u32;
                let all = (a, b) == (0, n);
                req = metered(|| {
                    if all {
                        s.g.v.retain(|x| x.val() % 3 != odd)
                    } else {
                        s.g.v.drain_filter(a..b, |x| x.val() % 3 == odd).for_each(drop)
                    }
                })
                .1;
                let m = &mut s.m;
                untracked(|| {
                    let mut i = 0;
                    m.retain(|x| {
                        i += 1;
                        !(i > a && i <= b && x.val % 3 == odd)
                    })
                });
            }
            17 => {
                what = "dedup";
                req = metered(|| s.g.v.dedup_by_key(|x| x.val() % 2)).1;
                let m = &mut s.m;
                untracked(|| m.dedup_by_key(|x| x.val % 2));
            }
            18 => {
                what = "splice with as many elements";
                let (a, b) = cx.range(n);
                let xs: Vec<E> = untracked(|| (a..b).map(|_| cx.make()).collect());
                // the replacement may be buffered, but not kept
                let mut it = xs.into_iter();
                let _ = metered(|| drop(s.g.v.splice(a..b, it.by_ref()))).1;
                req = 0;
                need = 0;
                untracked(|| drop(it));
                s.adopt(what);
                check_eq!(s.m.len(), n, "length after {}", what);
            }
            19 => {
                what = "cursor";
                let (a, b) = cx.range(n);
                let e: E = cx.make();
                let it = e.item();
                let (r, q) = metered(|| {
                    let mut c = s.g.v.cursor(a..b);
                    if c.is_empty() {
                        false
                    } else {
                        drop(c.take_front());
                        c.write_front(e);
                        c.skip_n_front(c.len());
                        true
                    }
                });
                req = q;
                if let End::Ok(true) = r {
                    s.m[a] = it
                }
            }
            20 => {
                what = "split_off";
                let i = cx.index(n);
                let (o, q) = metered(|| s.g.v.split_off::<Heap<E>>(i));
                check!(q <= (i < n && !E::ZST) as u64, "{} requests for memory by a split_off of {} elements", q, n - i);
                req = 0;
                match o {
                    End::Ok(mut o) => {
                        let mo = untracked(|| s.m.split_off(i));
                        same(&o, &mo, "the vector split off");
                        let live = alloc::counts().live - base;
                        let want = ((cap > 0) as u64 + (o.capacity() > 0) as u64) * !E::ZST as u64;
                        check_eq!(live, want, "heap blocks of two vectors after split_off");
                        if cx.rng.chance(1, 2) {
                            let q = metered(|| s.g.v.append(&mut o)).1;
                            check_eq!(q, 0, "requests for memory when elements are appended again");
                            untracked(|| s.m.extend(mo));
                        }
                    }
                    e => vharness::violate!("split_off {}", e.name()),
                }
            }
            21 => {
                what = "append";
                let mut o: HeapVec<E> = HeapVec::new();
                let k = if cx.rng.chance(1, 2) { 0 } else { amount };
                need = k;
                for _ in 0..k {
                    o.push(cx.make());
                }
                let mo = vharness::cx::items(&o);
                req = metered(|| s.g.v.append(&mut o)).1;
                untracked(|| s.m.extend(mo));
                drop(o);
            }
            22 => {
                what = "spare_capacity_mut";
                let k = cx.rng.below(4).min(room);
                let xs: Vec<E> = untracked(|| (0..k).map(|_| cx.make()).collect());
                let m = vharness::cx::items(&xs);
                let mut it = xs.into_iter();
                req = metered(|| {
                    let mut sp = s.g.v.spare_capacity_mut();
                    for e in it.by_ref() {
                        sp.push(e);
                    }
                    unsafe { generic_vec::save_spare!(sp, &mut s.g.v) }
                })
                .1;
                untracked(|| drop(it));
                untracked(|| s.m.extend(m));
            }
            23 => {
                what = "making empty vectors";
                req = metered(|| {
                    drop(HeapVec::<E>::new());
                    drop(HeapVec::<E>::default());
                    drop(HeapVec::<E>::with_capacity(0));
                    drop(GenericVec::<E, Heap<E>>::with_storage(Heap::new()));
                    drop(HeapVec::<E>::new().clone());
                    let mut v = HeapVec::<E>::new();
                    v.reserve(0);
                    let _ = v.try_reserve(0);
                    v.extend(None::<E>);
                    v.extend_from_slice(&[]);
                    drop(v.drain(..));
                    drop(v.into_iter());
                })
                .1;
            }
            25 => {
                what = "large vectors";
                req = 0;
                if cx.rng.chance(1, if cx.scale == 0 { 30 } else { 8 }) {
                    let most = ((4 << 20) / size_of::<E>().max(1)).max(8);
                    let bits = cx.rng.below((0usize.leading_zeros() - most.leading_zeros()) as usize);
                    let big = (1usize << bits) + cx.rng.below(1 << bits);
                    let how = cx.rng.below(4);
                    let (o, q) = metered(|| match how {
                        0 => HeapVec::<E>::with_capacity(big),
                        1 => HeapVec::<E>::with_storage(generic_vec::raw::StorageWithCapacity::<E>::with_capacity(big)),
                        _ => {
                            let mut o = HeapVec::<E>::new();
                            let _ = if how == 2 { o.reserve(big); true } else { o.try_reserve(big) };
                            o
                        }
                    });
                    check_eq!(q, !E::ZST as u64, "requests for memory by a new vector for {} elements", big);
                    if let End::Ok(mut o) = o {
                        check!(o.capacity() >= big, "capacity {} of a vector made for {} elements", o.capacity(), big);
                        if cx.rng.chance(1, 2) {
                            let more = if E::ZST { big } else { o.capacity() + 1 };
                            let q = metered(|| o.reserve(more)).1;
                            check_eq!(q, !E::ZST as u64, "requests for memory by reserving {} elements in a vector of {}", more, big);
                        }
                        if !E::ZST {
                            let (size, _) = alloc::block_at(o.as_ptr()).expect("a vector without a block");
                            check_eq!(size / size_of::<E>(), o.capacity(), "elements that fit into the block of a large vector");
                        }
                        if cx.rng.chance(1, 3) {
                            let (ptr, c, l) = { let (l, st) = o.into_raw_parts(); let (p, c) = st.into_raw_parts(); (p, c, l) };
                            o = unsafe { HeapVec::from_raw_parts(l, Heap::from_raw_parts(ptr, c)) };
                        }
                        drop(o);
                    }
                }
            }
            24 => {
                what = "clone";
                // the same contents in heap storage of their own
                let mut o: HeapVec<E> = HeapVec::with_capacity(n + cx.rng.below(5));
                o.extend_from_slice(&s.g.v);
                let (c, q) = metered(|| o.clone());
                check!(q <= (n > 0 && !E::ZST) as u64, "{} requests for memory by a clone of {} elements", q, n);
                req = 0;
                if let End::Ok(c) = c {
                    check_eq!(c.len(), n, "length of a clone");
                    drop(c);
                }
            }
            _ => {
                what = "refused requests";
                // none of these can be met, and none may change anything
                let k = cx.rng.pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize, usize::MAX - n]);
                if n == 0 {
                    return
                }
                let k = if E::ZST { usize::MAX - cx.rng.below(n) } else { k };
                let (r, _) = metered(|| s.g.v.try_reserve(k));
                check!(matches!(r, End::Ok(false)), "try_reserve({}) {}", k, r.name());
                let e: E = cx.make();
                // a request that the allocator has to refuse ends the process, but these overflow
                let k = usize::MAX - cx.rng.below(n);
                let how = cx.rng.below(3);
                // (panicking needs memory of its own)
                let (r, _) = metered(|| match how {
                    0 => s.g.v.grow(k, e),
                    1 => s.g.v.grow_with(k, || e.clone()),
                    _ => s.g.v.reserve(k),
                });
                check!(r.panicked(), "growing by {} {}", k, r.name());
                req = 0;
            }
        }
        cx.op(what);
        cx.log(|| format!("{}  // {} of {} -> {} of {}, {} requests", what, n, cap, s.g.v.len(), s.g.v.capacity(), req));
        if need <= room || E::ZST {
            check_eq!(req, 0, "requests for memory by {} of {} elements (capacity {})", what, n, cap);
            check_eq!(s.g.v.capacity(), cap, "capacity after {}", what);
            check_eq!(s.g.v.as_ptr(), ptr, "pointer after {}", what);
        } else {
            check!(req > 0, "no request for memory by {}, which needs room for {} more than {} of {}", what, need, n, cap);
            cx.op("(grew)");
        }
        block(s, base, what);
        s.verify(cx, what);
    }

    /// The vector comes to its end in one of many ways
    fn end<E: Elem, K: Store<E>>(cx: &mut Cx, v: GenericVec<E, K::S>, m: Vec<Item>, base: u64) {
        let how = cx.rng.below(6);
        let has = (v.capacity() > 0 && !E::ZST) as u64;
        cx.log(|| format!("the end, {}", how));
        match how {
            0 => drop(v),
            1 => {
                let (len, st) = v.into_raw_parts();
                check_eq!(alloc::counts().live - base, has, "heap blocks after into_raw_parts");
                drop(unsafe { GenericVec::<E, K::S>::from_raw_parts(len, st) });
            }
            2 | 3 => {
                let (it, q) = metered(move || v.into_iter());
                check_eq!(q, 0, "requests for memory by into_iter");
                let k = if how == 2 { cx.rng.below(m.len() + 1) } else { m.len() };
                if let End::Ok(mut it) = it {
                    for _ in 0..k {
                        drop(it.next())
                    }
                    check_eq!(alloc::counts().live - base, has, "heap blocks while the vector is iterated away");
                    drop(it);
                }
            }
            4 => {
                let (o, q) = metered(move || v.convert::<Heap<E>>());
                check!(q <= 1, "{} requests for memory by convert", q);
                if let End::Ok(o) = o {
                    same(&o, &m, "the converted vector");
                    check_eq!(alloc::counts().live - base, (o.capacity() > 0 && !E::ZST) as u64, "heap blocks after convert");
                }
            }
            _ => {
                // the elements go elsewhere
                let mut v = v;
                let mut o: GenericVec<E, MonStore<E>> = GenericVec::with_capacity(m.len());
                v.append(&mut GenericVec::<E, Heap<E>>::new());
                o.append(&mut v);
                drop(v);
                same(&o, &m, "the vector the elements were moved to");
            }
        }
        untracked(|| drop(m));
    }

    pub fn main() {
        let _ = iters::any_stop;
        let _ = own::limit;
        #[allow(unused_mut)]
        let mut groups = groups!(W;
                4: Tw, HeapK;
                2: Ts, HeapK;
                2: T3, HeapK;
                3: Ta, HeapK;
                3: Tz, HeapK;
                2: Cu8, HeapK;
                2: Cu32, HeapK;
                2: C24, HeapK;
                1: Cz, HeapK;
                2: Tw, AlienHeapK<u64>;
                2: T3, AlienHeapK<u16>;
                2: Cu8, AlienHeapK<[u32; 3]>;
                2: C24, AlienHeapK<u64>;
                1: Cz, AlienHeapK<u16>;
                1: Tz, AlienHeapK<[u64; 2]>;
            );
        #[cfg(feature = "nightly")]
        {
            // the same of blocks of other allocators, which may be larger than was asked for
            groups.push(("AlK<()>/Tw", 2, vharness::al::case::<Tw, ()>));
            groups.push(("AlK<Wide>/Ts", 1, vharness::al::case::<Ts, vharness::al::Wide>));
            groups.push(("AlK<()>/Cu8", 1, vharness::al::case::<Cu8, ()>));
            groups.push(("AlK<()>/C24", 1, vharness::al::case::<C24, ()>));
            groups.push(("AlK<Wide>/Tz", 1, vharness::al::case::<Tz, vharness::al::Wide>));
        }
        drive::main("C07", groups, 10000)
    }
}

fn main() {
    #[cfg(feature = "alloc")]
    c07::main()
}
