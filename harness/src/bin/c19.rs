//! Leaked iterators are safe.
use vharness::cx::{refill, Cx, Sub, Work};
use vharness::elem::*;
use vharness::stores::*;
use vharness::{drive, eng, iters, own};

struct W;
impl Work for W {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let steps = if cx.scale == 0 { 6 } else { 14 };
        let ops = eng::list(&[eng::core_ops::<E, K>, eng::bulk_ops::<E, K>, iters::iter_ops::<E, K>]);
        for _ in 0..steps {
            let stop = iters::Stop::Forget;
            let n = cx.rng.below(12);
            refill(cx, &mut s, n);
            match cx.rng.below(8) {
                0 => iters::drain_stop(cx, &mut s, stop),
                1 => iters::drain_filter_stop(cx, &mut s, stop),
                2 => iters::splice_stop(cx, &mut s, stop),
                3 | 4 => iters::cursor_stop(cx, &mut s, stop),
                _ => {
                    let op = cx.rng.pick(&ops);
                    op(cx, &mut s)
                }
            }
            eng::trim(cx, &mut s, 600);
        }
        vharness::alloc::untracked(|| drop(ops));
        let forget = cx.rng.chance(1, 2);
        own::into_iter(cx, s, forget);
    }
}

fn main() {
    drive::main("C19", vharness::common_groups!(W), 10000)
}
