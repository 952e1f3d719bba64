//! A fixed capacity is never exceeded.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng, iters, own};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 10 } else { 25 };
        let ops = eng::list(&[
            eng::core_ops::<E, K>,
            eng::bulk_ops::<E, K>,
            eng::cap_ops::<E, K>,
            eng::try_ops::<E, K>,
            eng::arr_ops::<E, K>,
            iters::iter_ops::<E, K>,
            own::own_ops::<E, K>,
        ]);
        let refused = cx.refused();
        for _ in 0..steps {
            if cx.rng.chance(1, 3) {
                eng::top_up(cx, &mut s)
            }
            let op = cx.rng.pick(&ops);
            op(cx, &mut s);
        }
        vharness::alloc::untracked(|| drop(ops));
        cx.nontrivial = cx.refused() > refused;
        drop(s);
    }
}

fn main() {
    drive::main("C04", vharness::fixed_groups!(W), 10000)
}
