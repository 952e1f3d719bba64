//! Out-of-bounds indexes and ranges are rejected and change nothing.
use vharness::bad::step;
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::drive;

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx).min(30);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 8 } else { 20 };
        for _ in 0..steps {
            if s.m.len() < 3 && cx.rng.chance(1, 2) {
                let n = cx.rng.below(9);
                refill(cx, &mut s, n)
            }
            step(cx, &mut s);
            #[cfg(feature = "nightly")]
            if cx.rng.chance(1, 6) {
                vharness::arr::any(cx, &mut s)
            }
        }
    }
}

fn main() {
    drive::main("C05", vharness::common_groups!(W), 10000)
}
