//! Every element is owned by exactly one place and dropped exactly once.
use vharness::cx::{Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng, groups, iters, own};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let ops = eng::list(&[
            eng::core_ops::<E, K>,
            eng::bulk_ops::<E, K>,
            eng::cap_ops::<E, K>,
            eng::try_ops::<E, K>,
            eng::arr_ops::<E, K>,
            iters::iter_ops::<E, K>,
            own::own_ops::<E, K>,
        ]);
        let steps = if cx.scale == 0 { 10 } else { 25 };
        eng::history(cx, &mut s, ops, steps);
        own::finale(cx, s);
        cx.nontrivial = true;
    }
}

fn main() {
    drive::main(
        "C02",
        groups!(W;
            #[cfg(feature = "alloc")] 6: Tb, HeapK;
            4: Tb, SliceK;
            4: Tb, ArrK<8>;
            3: Tb, ExactK;
            2: Tw, MutK<Tw>;
            #[cfg(feature = "alloc")] 2: Tw, BoxK<5>;
            1: Tw, ArrK<1>;
            3: Ts, BytesK<45>;
            2: Ta, SliceK;
            #[cfg(feature = "alloc")] 2: T3, HeapK;
            #[cfg(feature = "alloc")] 3: Tz, HeapK;
            2: Tz, ZsK;
            2: Tz, SliceK;
        ),
        12000,
    )
}
