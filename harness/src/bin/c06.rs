//! try_ operations.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 12 } else { 30 };
        refill(cx, &mut s, 0);
        let ops = eng::list(&[eng::try_ops::<E, K>, eng::try_ops::<E, K>, eng::try_more::<E, K>, eng::arr_try_ops::<E, K>]);
        for _ in 0..steps {
            match cx.rng.below(12) {
                0 => eng::truncate(cx, &mut s),
                1 => eng::top_up(cx, &mut s),
                _ => {
                    let op = cx.rng.pick(&ops);
                    op(cx, &mut s)
                }
            }
            eng::trim(cx, &mut s, 600);
        }
        vharness::alloc::untracked(|| drop(ops));
        cx.nontrivial = true;
    }
}

fn main() {
    drive::main("C06", vharness::common_groups!(W), 10000)
}
