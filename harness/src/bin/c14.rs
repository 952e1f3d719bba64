//! Iterating by value.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, own};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        // some history, so that capacity and length differ
        let k = cx.rng.below(4);
        for _ in 0..k {
            vharness::eng::pop(cx, &mut s);
            refill(cx, &mut s, 3);
        }
        own::into_iter(cx, s, false);
    }
}

fn main() {
    drive::main("C14", vharness::common_groups!(W), 20000)
}
