//! The same cases in several builds: everything that can be observed goes into a hash.
use vharness::alloc::untracked;
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::eng::{self, Op};
use vharness::mon;
use vharness::stores::*;
use generic_vec::raw::Storage;
use vharness::{bad, check, drive, groups, iters, own};

/// The state of the vector, and what the callbacks saw on the way
fn observe<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let v = &s.g.v;
    let its = untracked(|| v.iter().map(|x| x.item()).collect::<Vec<_>>());
    for i in &its {
        cx.hash((i.id as u64) << 32 | i.val as u64);
    }
    untracked(|| drop(its));
    cx.hash(v.len() as u64);
    cx.hash(v.capacity() as u64);
    cx.hash(mon::trace());
    // the storage by itself
    if !E::ZST {
        let fixed = s.is_fixed();
        let cap = s.g.v.capacity();
        let st = unsafe { s.g.v.storage_mut() };
        check!(st.try_reserve(cap), "try_reserve of a storage, within its capacity {}", cap);
        if fixed {
            check!(!st.try_reserve(cap + 1), "try_reserve of a storage, past its capacity {}", cap);
        }
    }
}

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        cx.same_everywhere = true;
        observe(cx, &mut s);
        let ops: Vec<Op<E, K>> = eng::list(&[
            eng::core_ops::<E, K>,
            eng::bulk_ops::<E, K>,
            eng::cap_ops::<E, K>,
            eng::try_ops::<E, K>,
            eng::unchecked_ops::<E, K>,
            rest::<E, K>,
        ]);
        for step in 0..25 {
            if step % 8 == 7 {
                refill(cx, &mut s, 6);
            }
            let op = cx.rng.pick(&ops);
            op(cx, &mut s);
            observe(cx, &mut s);
            eng::trim(cx, &mut s, 600);
        }
        own::into_iter(cx, s, false);
        cx.hash(mon::trace());
        cx.nontrivial = true;
        untracked(|| drop(ops));
    }
}

fn rest<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![
        iters::drain,
        iters::drain_filter,
        iters::retain,
        iters::dedup,
        splice,
        splice,
        iters::cursor,
        iters::raw_cursor,
        own::split_exact,
        own::split_arr,
        own::exchange::<E, K, SliceK>,
        own::exchange::<E, K, ExactK>,
        bad::step,
        bad::step,
        bad::step,
    ]
}

/// How much of a replacement that does not fit is taken may depend on the build
fn splice<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    if s.is_fixed() && !E::ZST && s.room(400) < 400 {
        return iters::drain(cx, s)
    }
    iters::splice(cx, s)
}

fn main() {
    #[allow(unused_mut)]
    let mut all = groups!(W;
            4: Tb, SliceK;
            4: Tb, ArrK<8>;
            5: Tb, ExactK;
            3: Tw, MutK<Tw>;
            2: Tw, ArrK<20>;
            2: Tw, ArrK<1>;
            1: Tw, ArrK<0>;
            2: Cu8, InitArr1;
            3: Ts, BytesK<45>;
            2: Ta, ExactK;
            2: T3, AlienSliceK<u32>;
            2: Tz, ZsK;
            2: Tz, SliceK;
            3: Cu32, ExactK;
            2: Cu8, InitSliceK;
            3: Cu32, InitArr16;
            2: C24, SliceK;
            #[cfg(feature = "alloc")] 5: Tb, HeapK;
            #[cfg(feature = "alloc")] 3: Cu8, HeapK;
            #[cfg(feature = "alloc")] 2: Ta, HeapK;
            #[cfg(feature = "alloc")] 2: T3, AlienHeapK<u64>;
            #[cfg(feature = "alloc")] 2: Tz, HeapK;
            #[cfg(feature = "alloc")] 2: Tw, BoxK<5>;
            #[cfg(feature = "alloc")] 2: T3, BoxSliceK;
    );
    // every build has to run as many cases of each
    #[cfg(not(feature = "alloc"))]
    all.push(("none", 18, |_| ()));
    drive::main("C27", all, 2500)
}
