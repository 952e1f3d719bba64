//! Array operations act like their element-wise counterparts.
#[cfg(feature = "nightly")]
mod c22 {
    use generic_vec::{gvec, ArrayVec, InitArrayVec};
    use vharness::alloc::untracked;
    use vharness::cx::{check_alive, items, refill, Cx, Sub, Work};
    use vharness::elem::*;
    use vharness::eng::{want_ok, want_panic};
    use vharness::mon::{self, run};
    use vharness::stores::*;
    use vharness::{arr, check_eq, drive, eng};

    struct W;
    impl Work for W {
        fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
            let mut s = Sub::<E, K>::new(cx);
            let n = s.start_len(cx).min(30);
            s.fill(cx, n);
            let steps = if cx.scale == 0 { 10 } else { 24 };
            for _ in 0..steps {
                match cx.rng.below(12) {
                    0 => eng::truncate(cx, &mut s),
                    1 => eng::top_up(cx, &mut s),
                    2 => {
                        let n = cx.rng.below(20);
                        refill(cx, &mut s, n)
                    }
                    3 => eng::insert(cx, &mut s),
                    _ => arr::any(cx, &mut s),
                }
            }
            let held = s.m.len() as isize;
            match cx.rng.below(4) {
                0 => whole::<E, 0>(cx, held),
                1 => whole::<E, 1>(cx, held),
                2 => whole::<E, 4>(cx, held),
                _ => whole::<E, 11>(cx, held),
            }
            s.verify(cx, "operations on another vector");
            drop(s);
        }
    }

    /// from_array, into_array, From, gvec!
    fn whole<E: Elem, const N: usize>(cx: &mut Cx, held: isize) {
        let (a, m) = arr::array::<E, N>(cx);
        cx.op("from_array");
        cx.log(|| format!("ArrayVec::from_array of {}", N));
        let mut v: ArrayVec<E, N> = if cx.rng.chance(1, 2) { ArrayVec::from_array(a) } else { a.into() };
        let same = |v: &ArrayVec<E, N>, m: &[Item], what: &str| {
            check_eq!(items(v), m, "contents of {}", what);
            check_alive(v, what);
            if E::TRACKED {
                check_eq!(mon::live(), held + m.len() as isize, "elements alive after {}", what);
            }
        };
        same(&v, &m, "from_array");
        if !E::ZST {
            check_eq!(v.capacity(), N, "capacity of from_array");
            check_eq!(v.is_full(), true, "is_full after from_array");
        }
        let mut m = m;
        let k = if N > 0 && cx.rng.chance(1, 2) { cx.rng.below(N + 1) } else { 0 };
        for _ in 0..k {
            let e = v.pop();
            check_eq!(e.item(), m.pop().unwrap(), "element popped from an ArrayVec");
        }
        same(&v, &m, "pop");
        if cx.rng.chance(1, 2) {
            for _ in 0..k {
                let e: E = cx.make();
                untracked(|| m.push(e.item()));
                v.push(e);
            }
            same(&v, &m, "push");
        }
        cx.op("into_array");
        let full = v.is_full();
        let r = run(move || v.into_array());
        if full {
            let a = want_ok(r, "into_array");
            check_eq!(items(&a), m, "contents of into_array");
            check_alive(&a, "into_array");
            if E::TRACKED {
                check_eq!(mon::live(), held + N as isize, "elements alive after into_array");
            }
            drop(a);
        } else if !E::ZST {
            want_panic(cx, r, "into_array of a vector that is not full");
        } else {
            drop(r);
        }
        mon::check_errors("into_array");
        if E::TRACKED {
            check_eq!(mon::live(), held, "elements alive after an ArrayVec");
        }
        untracked(|| drop(m));
        // gvec!
        let (a, b, c): (E, E, E) = (cx.make(), cx.make(), cx.make());
        let m = untracked(|| vec![a.item(), b.item(), c.item()]);
        let v: ArrayVec<E, 5> = gvec![a, b, c];
        check_eq!(items(&v), m, "contents of gvec!");
        drop(v);
        let e: E = cx.make();
        let val = e.val();
        let v: ArrayVec<E, 5> = gvec![e; 4];
        check_eq!(v.len(), 4, "length of gvec!");
        for x in &v {
            check_eq!(x.val(), val, "element of gvec!");
        }
        drop(v);
        mon::check_errors("gvec!");
        if E::TRACKED {
            check_eq!(mon::live(), held, "elements alive after gvec!");
        }
        untracked(|| drop(m));
        let v: InitArrayVec<Cu32, N> = InitArrayVec::new([Cu32::make(7); N]);
        check_eq!(v.len(), N, "length of InitArrayVec::new");
        check_eq!(v.iter().filter(|x| x.val() == 7).count(), N, "contents of InitArrayVec::new");
    }

    pub fn main() {
        drive::main("C22", vharness::common_groups!(W), 10000)
    }
}

fn main() {
    #[cfg(feature = "nightly")]
    c22::main()
}
