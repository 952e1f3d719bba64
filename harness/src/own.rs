//! Moving elements between vectors, and giving vectors away.

use crate::alloc::{self, untracked};
use crate::cx::{check_alive, items, show, Cx, Sub};
use crate::elem::{Elem, Item};
use crate::eng::{want_ok, want_panic, Op};
use crate::mon::{self, run};
use crate::stores::{Growth, MonStore, Store};
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer};
use generic_vec::GenericVec;

/// Compares a vector that is not a `Sub` with its model
pub fn same<E: Elem, S: Storage<E>>(v: &GenericVec<E, S>, m: &[Item], what: &str) {
    mon::check_errors(what);
    check_eq!(v.len(), m.len(), "length of {}", what);
    check!(v.capacity() >= v.len(), "length {} exceeds the capacity {} of {}", v.len(), v.capacity(), what);
    check_eq!(v.as_ptr() as usize % core::mem::align_of::<E>(), 0, "alignment of {}", what);
    check_alive(v, what);
    check_eq!(items(v), m, "contents of {}", what);
    mon::check_errors(what);
}

/// `split_off` into a new vector with the storage `B`, of capacity `bcap` if it is fixed
pub fn split_off_to<E: Elem, K: Store<E>, B: StorageWithCapacity<E>>(cx: &mut Cx, s: &mut Sub<E, K>, bcap: Option<usize>, name: &'static str) {
    cx.op(name);
    let n = s.m.len();
    let i = cx.index(n);
    cx.log(|| format!("split_off({}) into {}", i, name));
    let fits = E::ZST || bcap.map_or(true, |c| n - i <= c);
    let ptr = s.g.v.as_ptr();
    let r = run(|| s.g.v.split_off::<B>(i));
    cx.nontrivial |= i < n;
    if fits {
        let o = want_ok(r, "split_off");
        let mo = untracked(|| s.m.split_off(i));
        same(&o, &mo, "the vector split off");
        check_eq!(s.g.v.as_ptr(), ptr, "pointer after split_off");
        check_eq!(s.g.v.capacity(), s.cap, "capacity after split_off");
        s.verify_held(cx, mo.len() as isize, "split_off");
        if cx.rng.chance(1, 2) {
            // and back again
            let mut o = o;
            cx.log(|| "  append it again".into());
            want_ok(run(|| s.g.v.append(&mut o)), "append");
            same(&o, &[], "the appended vector");
            untracked(|| s.m.extend(mo));
            s.verify(cx, "append");
        } else {
            drop(o);
            untracked(|| drop(mo));
        }
    } else {
        want_panic(cx, r, "split_off into a vector that is too small");
    }
    s.verify(cx, "split_off");
}

/// `append` and `split_off_into` with another vector that already has elements
pub fn exchange<E: Elem, K: Store<E>, K2: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    cx.op("exchange");
    let mut o = Sub::<E, K2>::new(cx);
    let k = o.start_len(cx).min(cx.amount());
    let held = s.m.len() as isize + s.leaked;
    fill_beside(cx, &mut o, k, held);
    let n = s.m.len();
    let into = cx.rng.chance(1, 2);
    cx.nontrivial = true;
    if into {
        let i = cx.index(n);
        cx.log(|| format!("split_off_into({}, {} {})", i, K2::name(), show(&o.m)));
        cx.op("split_off_into");
        let fits = o.fits(n - i);
        let r = run(|| s.g.v.split_off_into(i, &mut o.g.v));
        if fits {
            want_ok(r, "split_off_into");
            untracked(|| {
                let t = s.m.split_off(i);
                o.m.extend(t)
            });
        } else {
            want_panic(cx, r, "split_off_into a full vector");
        }
    } else {
        cx.log(|| format!("append({} {})", K2::name(), show(&o.m)));
        cx.op("append");
        let fits = s.fits(o.m.len());
        let r = run(|| s.g.v.append(&mut o.g.v));
        if fits {
            want_ok(r, "append");
            untracked(|| s.m.extend(o.m.drain(..)));
        } else {
            want_panic(cx, r, "append to a full vector");
        }
    }
    let (a, b) = (s.m.len() as isize + s.leaked, o.m.len() as isize);
    o.verify_held(cx, a, "moving elements between vectors");
    s.verify_held(cx, b, "moving elements between vectors");
    drop(o);
    s.verify(cx, "moving elements between vectors");
}

/// `fill` while `held` other elements are alive
pub fn fill_beside<E: Elem, K: Store<E>>(cx: &mut Cx, o: &mut Sub<E, K>, n: usize, held: isize) {
    let n = o.room(n);
    for _ in 0..n {
        let e: E = cx.make();
        o.m_push(e.item());
        let _ = o.g.v.push(e);
    }
    o.verify_held(cx, held, "filling another vector");
}

/// The vector is converted to another storage
pub fn move_away<E: Elem, K: Store<E>>(cx: &mut Cx, s: Sub<E, K>) {
    finale_how(cx, s, 3, 7)
}

/// The vector is moved, taken apart, converted or iterated away
pub fn finale<E: Elem, K: Store<E>>(cx: &mut Cx, s: Sub<E, K>) {
    finale_how(cx, s, 0, 7)
}

fn finale_how<E: Elem, K: Store<E>>(cx: &mut Cx, s: Sub<E, K>, lo: usize, hi: usize) {
    let how = lo + cx.rng.below(hi - lo);
    cx.op("finale");
    let leaked = s.leaked;
    match how {
        0 => {
            cx.log(|| "drop(v)".into());
            drop(s)
        }
        1 | 2 => {
            into_iter(cx, s, false);
        }
        3 => {
            cx.log(|| "into_raw_parts, from_raw_parts".into());
            let ptr = s.g.v.as_ptr();
            let inline = {
                let base = &s.g.v as *const _ as usize;
                let p = ptr as usize;
                p >= base && p < base + core::mem::size_of_val(&s.g.v)
            };
            let (v, m, store) = s.into_parts();
            let cap = v.capacity();
            let before = alloc::counts();
            let (len, st) = v.into_raw_parts();
            check_eq!(len, m.len(), "length of into_raw_parts");
            if E::TRACKED {
                check_eq!(mon::live(), m.len() as isize + leaked, "elements alive after into_raw_parts");
            }
            let v: GenericVec<E, K::S> = unsafe { GenericVec::from_raw_parts(len, st) };
            check_eq!(before.requests_since(), 0, "requests for memory by into_raw_parts and from_raw_parts");
            check_eq!(v.capacity(), cap, "capacity after from_raw_parts");
            if cap > 0 && !inline && !E::ZST {
                check_eq!(v.as_ptr(), ptr, "pointer after from_raw_parts");
            }
            same(&v, &m, "the vector put together again");
            drop(v);
            if let Some(e) = store.check() {
                violate!("{}", e)
            }
            untracked(|| drop(m));
        }
        4 => convert::<E, K, MonStore<E>>(cx, s, None),
        5 => convert::<E, K, UninitBuffer<[E; 24], E>>(cx, s, Some(24)),
        #[cfg(feature = "alloc")]
        _ => convert::<E, K, generic_vec::raw::Heap<E>>(cx, s, None),
        #[cfg(not(feature = "alloc"))]
        _ => drop(s),
    }
    mon::check_errors("the end of the vector");
    if E::TRACKED {
        check_eq!(mon::live(), leaked, "elements alive after the end of the vector");
    }
}

pub fn convert<E: Elem, K: Store<E>, B: StorageWithCapacity<E>>(cx: &mut Cx, s: Sub<E, K>, bcap: Option<usize>) {
    cx.op("convert");
    cx.log(|| format!("convert() into {}", core::any::type_name::<B>()));
    let leaked = s.leaked;
    cx.nontrivial |= !s.m.is_empty();
    let (v, m, store) = s.into_parts();
    let fits = E::ZST || bcap.map_or(true, |c| m.len() <= c);
    let r = run(move || v.convert::<B>());
    if fits {
        let o = want_ok(r, "convert");
        same(&o, &m, "the converted vector");
        if E::TRACKED {
            check_eq!(mon::live(), m.len() as isize + leaked, "elements alive after convert");
        }
        drop(o);
    } else {
        want_panic(cx, r, "convert into a vector that is too small");
    }
    if let Some(e) = store.check() {
        violate!("{} after convert", e)
    }
    mon::check_errors("convert");
    if E::TRACKED {
        check_eq!(mon::live(), leaked, "elements alive after convert, and the end of the vector");
    }
    untracked(|| drop(m));
}

/// Iterates the vector away; `forget`: leaks the iterator
pub fn into_iter<E: Elem, K: Store<E>>(cx: &mut Cx, s: Sub<E, K>, forget: bool) {
    cx.op("into_iter");
    let leaked = s.leaked;
    cx.nontrivial |= !s.m.is_empty();
    let (v, m, store) = s.into_parts();
    cx.log(|| format!("into_iter() over {}", show(&m)));
    let mut want: std::collections::VecDeque<Item> = untracked(|| m.iter().cloned().collect());
    let mut held: Vec<E> = Vec::new();
    let before = alloc::counts();
    let mut it = Box::new(want_ok(run(move || v.into_iter()), "into_iter"));
    check!(before.requests_since() <= 1, "into_iter asked for memory");
    let mut steps = match cx.rng.below(4) {
        0 => 0,
        1 => usize::MAX,
        _ => cx.rng.below(want.len() + 3),
    };
    let dir = cx.rng.below(4);
    while steps > 0 {
        steps -= 1;
        mon::check_errors("into_iter");
        cx.op("iterator step");
        check_eq!(it.size_hint(), (want.len(), Some(want.len())), "size_hint of into_iter");
        #[cfg(feature = "nightly")]
        check_eq!(ExactSizeIterator::is_empty(&it), want.is_empty(), "is_empty of into_iter");
        check_eq!(it.len(), want.len(), "len of into_iter");
        check_eq!(items(it.as_slice()), want.iter().cloned().collect::<Vec<_>>(), "as_slice of into_iter");
        check_alive(it.as_slice(), "into_iter");
        if E::TRACKED {
            check_eq!(mon::live(), (want.len() + held.len()) as isize + leaked, "elements alive during into_iter");
        }
        let (got, exp) = match if dir < 2 { dir } else { cx.rng.below(7) } {
            0 => (it.next(), want.pop_front()),
            1 => (it.next_back(), want.pop_back()),
            2 => {
                let k = match cx.rng.below(4) {
                    0 => want.len(),
                    1 => want.len() + 1 + cx.rng.below(3),
                    2 => 0,
                    _ => cx.rng.below(4),
                };
                for _ in 0..k {
                    let _ = want.pop_front();
                }
                cx.log(|| format!("  nth({})", k));
                (it.nth(k), want.pop_front())
            }
            3 => {
                let k = cx.rng.below(4);
                for _ in 0..k {
                    let _ = want.pop_back();
                }
                cx.log(|| format!("  nth_back({})", k));
                (it.nth_back(k), want.pop_back())
            }
            4 if !want.is_empty() => {
                let i = cx.rng.below(want.len());
                let val = cx.val::<E>();
                it.as_mut_slice()[i].set(val);
                want[i].val = val;
                continue
            }
            5 if want.len() > 1 => {
                let last = want.len() - 1;
                it.as_mut_slice().swap(0, last);
                want.swap(0, last);
                continue
            }
            _ => (it.next(), want.pop_front()),
        };
        check_eq!(got.as_ref().map(|e| e.item()), exp, "element of into_iter");
        match got {
            None => {
                check!(it.next().is_none() && it.next_back().is_none(), "into_iter went on after its end");
                break
            }
            Some(e) => {
                if cx.rng.chance(1, 2) {
                    untracked(|| held.push(e))
                }
            }
        }
    }
    let left = want.len() as isize;
    cx.log(|| format!("  ends with {} left", left));
    let mut lost = leaked;
    if forget {
        core::mem::forget(it);
        cx.leaky = true;
        if E::TRACKED {
            lost += left
        }
    } else if cx.rng.chance(1, 3) {
        let how = cx.rng.next();
        cx.log(|| format!("  used up by value, way {}", how % 11));
        want_ok(run(|| crate::iters::use_up(how, *it, &want, &mut held, "into_iter")), "using up an into_iter");
    } else {
        want_ok(run(move || drop(it)), "dropping an into_iter");
    }
    mon::check_errors("into_iter");
    if E::TRACKED {
        check_eq!(mon::live(), held.len() as isize + lost, "elements alive after into_iter");
    }
    check_alive(&held, "elements taken from into_iter");
    if let Some(e) = store.check() {
        violate!("{} after into_iter", e)
    }
    crate::iters::drop_held(held);
    mon::check_errors("into_iter");
    untracked(|| drop((m, want)));
}

pub fn split_exact<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    split_off_to::<E, K, MonStore<E>>(cx, s, None, "split_off into custom storage")
}
pub fn split_arr<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    split_off_to::<E, K, UninitBuffer<[E; 9], E>>(cx, s, Some(9), "split_off into array storage")
}
#[cfg(feature = "alloc")]
pub fn split_heap<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    split_off_to::<E, K, generic_vec::raw::Heap<E>>(cx, s, None, "split_off into heap storage")
}
#[cfg(feature = "alloc")]
pub fn split_box<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    split_off_to::<E, K, Box<UninitBuffer<[E; 30], E>>>(cx, s, Some(30), "split_off into boxed storage")
}

pub fn own_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    let mut v: Vec<Op<E, K>> = vec![
        split_exact,
        split_arr,
        exchange::<E, K, crate::stores::SliceK>,
        exchange::<E, K, crate::stores::ExactK>,
    ];
    #[cfg(feature = "alloc")]
    v.push(split_heap);
    #[cfg(feature = "alloc")]
    v.push(split_box);
    #[cfg(feature = "alloc")]
    v.push(exchange::<E, K, crate::stores::HeapK>);
    v
}

/// `len` for the growth rule of a storage
pub fn limit(g: Growth) -> Option<usize> {
    match g {
        Growth::Fixed(n) => Some(n),
        Growth::Heap => None,
    }
}
