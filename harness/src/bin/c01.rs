//! Core operations behave like `Vec`'s, on every storage.
use vharness::alloc::untracked;
use vharness::cx::{Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng, groups};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let mut ops = untracked(|| eng::core_ops::<E, K>());
        untracked(|| {
            ops.extend(eng::core_ops::<E, K>());
            ops.extend(eng::bulk_ops::<E, K>());
            ops.extend(eng::cap_ops::<E, K>());
        });
        let steps = if cx.scale == 0 { 12 } else { 30 };
        for _ in 0..steps {
            let op = cx.rng.pick(&ops);
            op(cx, &mut s);
            eng::trim(cx, &mut s, 600);
        }
        cx.nontrivial = true;
        untracked(|| drop(ops));
    }
}

fn main() {
    drive::main(
        "C01",
        groups!(W;
            #[cfg(feature = "alloc")] 6: Tb, HeapK;
            4: Tb, SliceK;
            4: Tb, ArrK<8>;
            3: Tb, ExactK;
            #[cfg(feature = "alloc")] 4: Tw, HeapK;
            2: Tw, MutK<Tw>;
            #[cfg(feature = "alloc")] 2: Tw, BoxK<5>;
            2: Tw, ArrK<1>;
            1: Tw, ArrK<0>;
            #[cfg(feature = "alloc")] 3: Ts, HeapK;
            #[cfg(feature = "alloc")] 3: Ts, AlienHeapK<u64>;
            3: Ts, BytesK<45>;
            #[cfg(feature = "alloc")] 2: Ta, HeapK;
            2: Ta, SliceK;
            3: T3, AlienSliceK<u32>;
            #[cfg(feature = "alloc")] 2: T3, BoxSliceK;
            #[cfg(feature = "alloc")] 2: Tz, HeapK;
            2: Tz, ZsK;
            2: Tz, SliceK;
            #[cfg(feature = "alloc")] 3: Cu8, HeapK;
            2: Cu8, InitSliceK;
            3: Cu32, InitArr16;
            2: Cu32, SliceK;
            #[cfg(feature = "alloc")] 2: C24, HeapK;
        ),
        20000,
    )
}
