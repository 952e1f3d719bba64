//! Moves between vectors.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng, own};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 3 } else { 8 };
        for _ in 0..steps {
            let n = cx.rng.below(if cx.scale == 0 { 8 } else { 24 });
            refill(cx, &mut s, n);
            let ops = eng::list(&[own::own_ops::<E, K>]);
            let op = cx.rng.pick(&ops);
            op(cx, &mut s);
            vharness::alloc::untracked(|| drop(ops));
            eng::trim(cx, &mut s, 600);
        }
        own::move_away(cx, s);
    }
}

fn main() {
    drive::main("C15", vharness::common_groups!(W), 10000)
}
