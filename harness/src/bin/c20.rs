//! Converting between `HeapVec` and `Vec` moves the buffer.
#[cfg(feature = "alloc")]
mod c20 {
    use core::mem::{align_of, size_of};
    use generic_vec::raw::Heap;
    use generic_vec::{GenericVec, HeapVec};
    use vharness::alloc::{block_at, check_block, counts, untracked};
    use vharness::cx::{check_alive, items, show, Cx, Sub, Work};
    use vharness::elem::*;
    use vharness::eng::{self, want_ok};
    use vharness::mon::{self, run};
    use vharness::stores::*;
    use vharness::{check, check_eq, drive, groups, iters, own};

    struct W;
    impl Work for W {
        fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
            let ops = eng::list(&[eng::core_ops::<E, HeapK>, eng::bulk_ops::<E, HeapK>, eng::cap_ops::<E, HeapK>, eng::arr_ops::<E, HeapK>, iters::iter_ops::<E, HeapK>]);
            let rounds = 1 + cx.rng.below(if cx.scale == 0 { 3 } else { 7 });
            let mut s = if cx.rng.chance(1, 2) {
                let mut s = Sub::<E, HeapK>::new(cx);
                let n = s.start_len(cx);
                s.fill(cx, n);
                s
            } else {
                let (v, m) = fresh::<E>(cx);
                back(cx, v, m)
            };
            for _ in 0..rounds {
                for _ in 0..cx.rng.below(5) {
                    let op = cx.rng.pick(&ops);
                    op(cx, &mut s);
                    eng::trim(cx, &mut s, 400);
                }
                let (mut v, mut m) = there(cx, s);
                for _ in 0..cx.rng.below(6) {
                    on_vec(cx, &mut v, &mut m);
                }
                if cx.rng.chance(1, 6) {
                    // to a boxed slice and back: the capacity becomes the length
                    cx.op("into_boxed_slice");
                    v = v.into_boxed_slice().into_vec();
                    whole(&v, &m, "into_boxed_slice");
                }
                if cx.rng.chance(1, 10) {
                    // the vector ends as a `Vec`
                    cx.log(|| "drop(vec)".into());
                    // (an old `vec::IntoIter` drops zero-sized elements at odd addresses)
                    if !E::ZST && cx.rng.chance(1, 2) {
                        let k = cx.rng.below(m.len() + 1);
                        let mut it = v.into_iter();
                        for _ in 0..k {
                            drop(it.next())
                        }
                        drop(it)
                    } else {
                        drop(v)
                    }
                    if E::TRACKED {
                        check_eq!(mon::live(), 0, "elements alive after dropping the Vec");
                    }
                    untracked(|| drop((m, ops)));
                    mon::check_errors("dropping the Vec");
                    return
                }
                s = back(cx, v, m);
            }
            untracked(|| drop(ops));
            if cx.rng.chance(1, 40) {
                many(cx)
            }
            own::finale(cx, s)
        }
    }

    /// Elements without size, in any number
    fn many(cx: &mut Cx) {
        let n = match cx.rng.below(5) {
            0 => usize::MAX,
            1 => usize::MAX - cx.rng.below(9),
            2 => isize::MAX as usize + cx.rng.below(5) - cx.rng.below(5),
            3 => 1 << cx.rng.below(64),
            _ => cx.rng.next() as usize,
        };
        cx.op("many zero-sized elements");
        cx.log(|| format!("HeapVec::from(a Vec of {} zero-sized elements), and back", n));
        let mut w: Vec<()> = Vec::new();
        unsafe { w.set_len(n) }
        let before = counts();
        let v = want_ok(run(move || HeapVec::from(w)), "into a HeapVec");
        check_eq!(v.len(), n, "length of the HeapVec");
        check_eq!(v.as_slice().len(), n, "length of the slice of the HeapVec");
        check_eq!(v.capacity(), usize::MAX, "capacity of the HeapVec");
        let mut w: Vec<()> = want_ok(run(move || v.into()), "into a Vec");
        check_eq!(counts(), before, "allocator calls of the conversions (before and after)");
        check_eq!(w.len(), n, "length of the Vec");
        check_eq!(w.capacity(), usize::MAX, "capacity of the Vec");
        unsafe { w.set_len(0) }
    }

    fn whole<E: Elem>(v: &[E], m: &[Item], what: &str) {
        mon::check_errors(what);
        check_alive(v, what);
        check_eq!(items(v), m, "contents after {}", what);
        if E::TRACKED {
            check_eq!(mon::live(), m.len() as isize, "elements alive after {}", what);
        }
    }

    /// The `Vec` owns the block
    fn block<E: Elem>(ptr: *const E, cap: usize, what: &str) {
        if E::ZST || cap == 0 {
            check!(ptr as usize % align_of::<E>() == 0, "pointer {:?} after {}", ptr, what);
        } else {
            check_eq!(block_at(ptr), Some((cap * size_of::<E>(), align_of::<E>())), "the block after {}", what);
            check_block(ptr);
        }
    }

    /// A `Vec` made in one of the usual ways
    fn fresh<E: Elem>(cx: &mut Cx) -> (Vec<E>, Vec<Item>) {
        let n = if cx.rng.chance(1, 5) { 0 } else { cx.amount() };
        let how = cx.rng.below(5);
        let mut v: Vec<E> = match how {
            0 => Vec::with_capacity(n + 7),
            1 => Vec::with_capacity(n),
            _ => Vec::new(),
        };
        let mut m = untracked(|| Vec::with_capacity(4096));
        for _ in 0..n {
            let e: E = cx.make();
            m.push(e.item());
            v.push(e)
        }
        match how {
            2 => v = v.into_boxed_slice().into_vec(),
            3 => v.reserve_exact(3),
            _ => (),
        }
        cx.log(|| format!("Vec of {} with capacity {}: {}", n, v.capacity(), show(&m)));
        (v, m)
    }

    /// Into a `Vec`
    fn there<E: Elem>(cx: &mut Cx, s: Sub<E, HeapK>) -> (Vec<E>, Vec<Item>) {
        check_eq!(s.leaked, 0, "elements leaked");
        let (g, m, store) = s.into_parts();
        drop(store);
        let (ptr, cap, len) = (g.as_ptr(), g.capacity(), g.len());
        cx.nontrivial |= len > 0;
        cx.op("into Vec");
        cx.log(|| format!("Vec::from(v)  // of {}, capacity {}", len, cap));
        let how = cx.rng.below(3);
        let before = counts();
        let v: Vec<E> = match how {
            0 => want_ok(run(move || g.into()), "into a Vec"),
            1 => want_ok(run(move || Vec::from(g)), "Vec::from"),
            _ => {
                // by hand
                let (len, heap) = g.into_raw_parts();
                let (p, c) = heap.into_raw_parts();
                check_eq!((len, p.as_ptr() as *const E, c), (m.len(), ptr, cap), "into_raw_parts");
                unsafe { Vec::from_raw_parts(p.as_ptr(), len, c) }
            }
        };
        check_eq!(counts(), before, "allocator calls of the conversion into a Vec (before and after)");
        check_eq!(v.len(), len, "length of the Vec");
        check_eq!(v.capacity(), cap, "capacity of the Vec");
        if !E::ZST && cap > 0 {
            check_eq!(v.as_ptr(), ptr, "data pointer of the Vec");
        }
        block(v.as_ptr(), v.capacity(), "the conversion into a Vec");
        whole(&v, &m, "the conversion into a Vec");
        (v, m)
    }

    /// Into a `HeapVec`
    fn back<E: Elem>(cx: &mut Cx, v: Vec<E>, m: Vec<Item>) -> Sub<E, HeapK> {
        let (ptr, cap, len) = (v.as_ptr(), v.capacity(), v.len());
        cx.nontrivial |= len > 0;
        cx.op("into HeapVec");
        cx.log(|| format!("HeapVec::from(vec)  // of {}, capacity {}", len, cap));
        let how = cx.rng.below(3);
        let before = counts();
        let g: HeapVec<E> = match how {
            0 => want_ok(run(move || v.into()), "into a HeapVec"),
            1 => want_ok(run(move || HeapVec::from(v)), "HeapVec::from"),
            _ => {
                let mut v = core::mem::ManuallyDrop::new(v);
                let p = unsafe { core::ptr::NonNull::new_unchecked(v.as_mut_ptr()) };
                unsafe { GenericVec::from_raw_parts(len, Heap::from_raw_parts(p, cap)) }
            }
        };
        check_eq!(counts(), before, "allocator calls of the conversion into a HeapVec (before and after)");
        check_eq!(g.len(), len, "length of the HeapVec");
        check_eq!(g.capacity(), cap, "capacity of the HeapVec");
        if !E::ZST && cap > 0 {
            check_eq!(g.as_ptr(), ptr, "data pointer of the HeapVec");
        }
        block(g.as_ptr(), g.capacity(), "the conversion into a HeapVec");
        let mut s = Sub { g: Guarded::new(g), m, growth: <HeapK as Store<E>>::growth(0), cap, leaked: 0, store: HeapK };
        s.verify(cx, "the conversion into a HeapVec");
        s
    }

    fn on_vec<E: Elem>(cx: &mut Cx, v: &mut Vec<E>, m: &mut Vec<Item>) {
        cx.op("operation on the Vec");
        let n = m.len();
        let (a, b) = cx.range(n);
        let k = cx.amount().min(60);
        let what = match cx.rng.below(9) {
            0 | 1 => {
                for _ in 0..k {
                    let e: E = cx.make();
                    untracked(|| m.push(e.item()));
                    v.push(e)
                }
                "push"
            }
            2 => {
                drop(v.drain(a..b));
                untracked(|| drop(m.drain(a..b)));
                "drain"
            }
            3 => {
                v.shrink_to_fit();
                "shrink_to_fit"
            }
            4 => {
                let e: E = cx.make();
                untracked(|| m.insert(a, e.item()));
                v.insert(a, e);
                "insert"
            }
            5 if n > 0 => {
                let i = a.min(n - 1);
                let (e, it) = (v.remove(i), m.remove(i));
                check_eq!(e.item(), it, "element removed from the Vec");
                "remove"
            }
            6 => {
                v.reserve(k);
                "reserve"
            }
            7 if cx.rng.chance(1, 3) => {
                v.clear();
                m.clear();
                "clear"
            }
            _ => {
                v.truncate(b);
                m.truncate(b);
                "truncate"
            }
        };
        cx.log(|| format!("Vec: {} {}..{} {}  // {}", what, a, b, k, show(m)));
        whole(v, m, "an operation on the Vec");
        block(v.as_ptr(), v.capacity(), "an operation on the Vec");
    }

    pub fn main() {
        drive::main(
            "C20",
            groups!(W;
                4: Tb, HeapK;
                3: Tw, HeapK;
                2: Ts, HeapK;
                2: Ta, HeapK;
                2: T3, HeapK;
                2: Tz, HeapK;
                1: Tza, HeapK;
                1: Cu8, HeapK;
                1: C24, HeapK;
            ),
            10000,
        )
    }
}

fn main() {
    #[cfg(feature = "alloc")]
    c20::main()
}
