//! Operations on arrays, which exist with the nightly feature only.

use crate::alloc::untracked;
use crate::cx::{check_alive, items, show, Cx, Sub};
use crate::elem::{Elem, Item};
use crate::eng::{want_ok, want_panic};
use crate::mon::{self, run};
use crate::stores::Store;
use core::mem::MaybeUninit;

pub fn array<E: Elem, const N: usize>(cx: &mut Cx) -> ([E; N], Vec<Item>) {
    let mut a: MaybeUninit<[E; N]> = MaybeUninit::uninit();
    let p = a.as_mut_ptr() as *mut E;
    for i in 0..N {
        unsafe { p.add(i).write(cx.make()) }
    }
    let a = unsafe { a.assume_init() };
    let m = items(&a);
    (a, m)
}

/// an index at, around or far past the bounds of `0..=n`
fn index(cx: &mut Cx, n: usize) -> usize {
    match cx.rng.below(12) {
        0 => n + 1 + cx.rng.below(10),
        1 => usize::MAX - cx.rng.below(12),
        2 => isize::MAX as usize,
        _ => cx.index(n),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Way {
    Any,
    Try,
    Unchecked,
}

fn one<E: Elem, K: Store<E>, const N: usize>(cx: &mut Cx, s: &mut Sub<E, K>, way: Way) {
    let n = s.m.len();
    let (cap, ptr) = (s.g.v.capacity(), s.g.v.as_ptr());
    let tries = match way {
        Way::Any => cx.rng.chance(1, 2),
        w => w == Way::Try,
    };
    // how often the unchecked variant is used where it may be: 1 in `rare`
    let rare = if way == Way::Unchecked { 1 } else { 3 };
    let i = index(cx, n);
    macro_rules! rejected {
        ($held:expr, $what:expr) => {{
            check_eq!(s.g.v.capacity(), cap, "capacity after {} was rejected", $what);
            check_eq!(s.g.v.as_ptr(), ptr, "pointer after {} was rejected", $what);
            s.verify_held(cx, $held as isize, $what);
        }};
    }
    match cx.rng.below(8) {
        0 | 1 => {
            let (a, m) = array::<E, N>(cx);
            cx.log(|| format!("{}push_array({})", if tries { "try_" } else { "" }, show(&m)));
            cx.op("push_array");
            if tries {
                let room = cap - n >= N;
                let r = want_ok(run(|| s.g.v.try_push_array(a).map(|a| a as *mut [E; N] as *const E)), "try_push_array");
                match r {
                    Ok(p) => {
                        check!(room, "try_push_array of {} at length {} and capacity {} succeeded", N, n, cap);
                        check_eq!(p, unsafe { s.g.v.as_ptr().add(n) }, "the reference that try_push_array returned");
                        untracked(|| s.m.extend(m.iter().cloned()));
                    }
                    Err(a) => {
                        check!(!room, "try_push_array of {} at length {} and capacity {} failed", N, n, cap);
                        check_eq!(items(&a), m, "the array handed back");
                        check_alive(&a, "the array handed back");
                        cx.op("handed back");
                        rejected!(N, "try_push_array");
                    }
                }
                check_eq!(s.g.v.capacity(), cap, "capacity after try_push_array");
            } else if cap - n >= N && cx.rng.chance(1, rare) {
                cx.op("push_array_unchecked");
                let p = want_ok(run(|| unsafe { s.g.v.push_array_unchecked(a) as *mut [E; N] as *const E }), "push_array_unchecked");
                check_eq!(p, unsafe { s.g.v.as_ptr().add(n) }, "the reference that push_array_unchecked returned");
                untracked(|| s.m.extend(m.iter().cloned()));
            } else {
                let fits = s.fits(N);
                let r = run(|| s.g.v.push_array(a) as *mut [E; N] as *const E);
                if fits {
                    let p = want_ok(r, "push_array");
                    check_eq!(p, unsafe { s.g.v.as_ptr().add(n) }, "the reference that push_array returned");
                    untracked(|| s.m.extend(m.iter().cloned()));
                } else {
                    want_panic(cx, r, "push_array without room");
                    rejected!(0, "push_array");
                }
            }
            untracked(|| drop(m));
        }
        2 | 3 | 4 => {
            let (a, m) = array::<E, N>(cx);
            cx.log(|| format!("{}insert_array({}, {})", if tries { "try_" } else { "" }, i, show(&m)));
            cx.op("insert_array");
            if tries {
                let room = cap - n >= N && i <= n;
                let r = want_ok(run(|| s.g.v.try_insert_array(i, a).map(|a| a as *mut [E; N] as *const E)), "try_insert_array");
                match r {
                    Ok(p) => {
                        check!(room, "try_insert_array of {} at {}, length {}, capacity {} succeeded", N, i, n, cap);
                        check_eq!(p, unsafe { s.g.v.as_ptr().add(i) }, "the reference that try_insert_array returned");
                        splice(&mut s.m, i, &m);
                    }
                    Err(a) => {
                        check!(!room, "try_insert_array of {} at {}, length {}, capacity {} failed", N, i, n, cap);
                        check_eq!(items(&a), m, "the array handed back");
                        check_alive(&a, "the array handed back");
                        cx.op("handed back");
                        rejected!(N, "try_insert_array");
                    }
                }
                check_eq!(s.g.v.capacity(), cap, "capacity after try_insert_array");
            } else if cap - n >= N && i <= n && cx.rng.chance(1, rare) {
                cx.op("insert_array_unchecked");
                let p = want_ok(run(|| unsafe { s.g.v.insert_array_unchecked(i, a) as *mut [E; N] as *const E }), "insert_array_unchecked");
                check_eq!(p, unsafe { s.g.v.as_ptr().add(i) }, "the reference that insert_array_unchecked returned");
                splice(&mut s.m, i, &m);
            } else {
                let fits = s.fits(N);
                let r = run(|| s.g.v.insert_array(i, a) as *mut [E; N] as *const E);
                if i > n {
                    want_panic(cx, r, "insert_array out of bounds");
                    rejected!(0, "insert_array");
                } else if fits {
                    let p = want_ok(r, "insert_array");
                    check_eq!(p, unsafe { s.g.v.as_ptr().add(i) }, "the reference that insert_array returned");
                    splice(&mut s.m, i, &m);
                } else {
                    want_panic(cx, r, "insert_array without room");
                    rejected!(0, "insert_array");
                }
            }
            untracked(|| drop(m));
        }
        5 => {
            cx.log(|| format!("{}pop_array::<{}>() at length {}", if tries { "try_" } else { "" }, N, n));
            cx.op("pop_array");
            let a = if tries {
                let r = want_ok(run(|| s.g.v.try_pop_array::<N>()), "try_pop_array");
                check_eq!(r.is_some(), n >= N, "try_pop_array::<{}> at length {} succeeded", N, n);
                r
            } else if n >= N && cx.rng.chance(1, rare) {
                Some(want_ok(run(|| unsafe { s.g.v.pop_array_unchecked::<N>() }), "pop_array_unchecked"))
            } else {
                let r = run(|| s.g.v.pop_array::<N>());
                if n >= N {
                    Some(want_ok(r, "pop_array"))
                } else {
                    want_panic(cx, r, "pop_array of too many");
                    None
                }
            };
            got(cx, s, a, n.wrapping_sub(N), cap, "pop_array");
        }
        _ => {
            let ok = i <= n && n - i >= N;
            cx.log(|| format!("{}remove_array::<{}>({}) at length {}", if tries { "try_" } else { "" }, N, i, n));
            cx.op("remove_array");
            let a = if tries {
                let r = want_ok(run(|| s.g.v.try_remove_array::<N>(i)), "try_remove_array");
                check_eq!(r.is_some(), ok, "try_remove_array::<{}>({}) at length {} succeeded", N, i, n);
                r
            } else if ok && cx.rng.chance(1, rare) {
                Some(want_ok(run(|| unsafe { s.g.v.remove_array_unchecked::<N>(i) }), "remove_array_unchecked"))
            } else {
                let r = run(|| s.g.v.remove_array::<N>(i));
                if ok {
                    Some(want_ok(r, "remove_array"))
                } else {
                    want_panic(cx, r, "remove_array out of bounds");
                    None
                }
            };
            got(cx, s, a, i, cap, "remove_array");
        }
    }
    s.verify(cx, "an array operation");
    cx.nontrivial = true;
}

fn splice(m: &mut Vec<Item>, i: usize, xs: &[Item]) {
    untracked(|| {
        let t = m.split_off(i);
        m.extend(xs.iter().cloned());
        m.extend(t);
    })
}

fn got<E: Elem, K: Store<E>, const N: usize>(cx: &mut Cx, s: &mut Sub<E, K>, a: Option<[E; N]>, i: usize, cap: usize, what: &str) {
    check_eq!(s.g.v.capacity(), cap, "capacity after {}", what);
    if let Some(a) = a {
        let want: Vec<Item> = untracked(|| s.m.drain(i..i + N).collect());
        check_eq!(items(&a), want, "elements of {}", what);
        check_alive(&a, what);
        s.verify_held(cx, N as isize, what);
        untracked(|| drop(want));
        drop(a);
    } else {
        cx.op("handed back");
    }
    mon::check_errors(what);
    s.verify(cx, what);
}

fn sized<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, way: Way) {
    match cx.rng.below(12) {
        0 => one::<E, K, 0>(cx, s, way),
        1 | 2 => one::<E, K, 1>(cx, s, way),
        3 | 4 => one::<E, K, 2>(cx, s, way),
        5 | 6 => one::<E, K, 3>(cx, s, way),
        7 => one::<E, K, 5>(cx, s, way),
        8 => one::<E, K, 8>(cx, s, way),
        9 => one::<E, K, 13>(cx, s, way),
        10 => one::<E, K, 20>(cx, s, way),
        // what is exactly full, or empty afterwards
        _ => match s.cap {
            4 => one::<E, K, 4>(cx, s, way),
            7 => one::<E, K, 7>(cx, s, way),
            9 => one::<E, K, 9>(cx, s, way),
            11 => one::<E, K, 11>(cx, s, way),
            16 => one::<E, K, 16>(cx, s, way),
            32 => one::<E, K, 32>(cx, s, way),
            _ => one::<E, K, 33>(cx, s, way),
        },
    }
}

/// an array operation with any N
pub fn any<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    sized(cx, s, Way::Any)
}
pub fn any_try<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    sized(cx, s, Way::Try)
}
pub fn any_unchecked<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    sized(cx, s, Way::Unchecked)
}
