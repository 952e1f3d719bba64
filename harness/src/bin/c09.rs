//! Drain removes exactly its range.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, iters};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 3 } else { 8 };
        for _ in 0..steps {
            let n = cx.rng.below(if cx.scale == 0 { 8 } else { 24 });
            refill(cx, &mut s, n);
            iters::drain(cx, &mut s);
        }
        drop(s);
    }
}

fn main() {
    drive::main("C09", vharness::common_groups!(W), 10000)
}
