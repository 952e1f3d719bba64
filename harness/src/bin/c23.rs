//! No safe program has undefined behaviour.
//!
//! Random programs over the whole safe interface, with arguments inside and
//! outside of the bounds, panics in callbacks and destructors, leaks and
//! changing storages. There is no model: the interpreter, the sanitizer, the
//! ledger of elements and the allocator monitor are watching.
use core::mem::{forget, replace, swap, MaybeUninit};
#[cfg(feature = "alloc")]
use generic_vec::raw::Heap;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer};
use generic_vec::{save_spare, GenericVec, SliceVec};
use std::cell::Cell;
use std::fmt::Debug;
use std::num::NonZeroU8;
use std::rc::Rc;
use vharness::alloc::untracked;
use vharness::cx::{Cx, Group};
use vharness::elem::*;
use vharness::mon::{self, run, tick, End, Kind};
use vharness::stores::MonStore;
use vharness::{drive, violate};

/// A type some of whose bit patterns are invalid, or that owns something
trait Val: Clone + PartialEq + PartialOrd + Debug + 'static {
    fn new(n: u32) -> Self;
    /// looks at every part of it
    fn look(&self) -> u32;
}
macro_rules! elems {
    ($($E:ty),*) => {$(
        impl Val for $E {
            fn new(n: u32) -> Self { <$E as Elem>::make(n % <$E as Elem>::VALS) }
            fn look(&self) -> u32 { self.val() }
        }
    )*};
}
elems!(Tb, Tw, Ts, Ta, T3, Tz, Tza);

macro_rules! vals {
    ($($T:ty, $n:ident => $new:expr, $x:ident => $look:expr;)*) => {$(
        impl Val for $T {
            fn new($n: u32) -> Self { $new }
            fn look(&self) -> u32 { let $x = self; $look }
        }
    )*};
}
static TABLE: [u32; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
fn bad(what: &str) -> u32 {
    violate!("an element is not a value of its type: {}", what)
}
vals! {
    bool, n => n % 2 == 1, x => if *x { 1 } else { 0 };
    char, n => core::char::from_u32(0x3b1 + n % 20).unwrap(), x => if ('α'..='ω').contains(x) { *x as u32 } else { bad("char") };
    &'static u32, n => &TABLE[n as usize % 8], x => if core::ptr::eq(*x, &TABLE[**x as usize % 8]) { **x } else { bad("reference") };
    NonZeroU8, n => NonZeroU8::new(1 + (n % 9) as u8).unwrap(), x => if x.get() < 10 { x.get() as u32 } else { bad("NonZeroU8") };
    String, n => format!("s{}", n % 1000), x => match x.strip_prefix('s').and_then(|s| s.parse().ok()) { Some(n) => n, None => bad("String") };
    Option<Box<u32>>, n => if n % 3 == 0 { None } else { Some(Box::new(n)) }, x => x.as_ref().map_or(0, |b| **b);
    Rc<Cell<u32>>, n => Rc::new(Cell::new(n)), x => { x.set(x.get() + 1); x.get() };
    (u8, u32), n => (n as u8, !(n as u8) as u32), x => if x.1 == !x.0 as u32 { x.1 } else { bad("pair") };
    (bool, Box<(u8, char)>), n => (n % 2 == 0, Box::new((n as u8, 'x'))), x => { x.0 as u32 + (x.1).0 as u32 + if (x.1).1 == 'x' { 0 } else { bad("pair") } };
    (), _n => (), _x => 0;
    [Option<String>; 2], n => [None, Some(n.to_string())], x => match (&x[0], x[1].as_ref().and_then(|s| s.parse().ok())) { (None, Some(n)) => n, _ => bad("array") };
}

/// An iterator with an opinion about its length
struct Stream<T> {
    left: usize,
    next: u32,
    hint: (usize, Option<usize>),
    mark: core::marker::PhantomData<T>,
}
impl<T: Val> Iterator for Stream<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick(Kind::Next);
        if self.left == 0 {
            return None
        }
        self.left -= 1;
        self.next += 1;
        Some(T::new(self.next))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn stream<T: Val>(cx: &mut Cx) -> Stream<T> {
    let n = cx.rng.below(9);
    let hint = match cx.rng.below(6) {
        0 => (0, None),
        1 => (n / 2, Some(n + 1)),
        // lies: allowed in safe code
        2 => (n + 1, Some(n + 1)),
        3 => (0, Some(0)),
        _ => (n, Some(n)),
    };
    Stream { left: n, next: cx.rng.below(50) as u32, hint, mark: core::marker::PhantomData }
}

/// Runs a piece of the program; perhaps one of its callbacks panics
fn call<R>(cx: &mut Cx, what: &'static str, f: impl FnOnce() -> R) -> Option<R> {
    cx.op(what);
    if cx.rng.chance(1, 4) {
        let k = 1 + cx.rng.below(7) as u64;
        let mask = if cx.rng.chance(1, 2) { !0 } else { !(Kind::Drop as u32) };
        cx.log(|| format!("{}, to panic at callback {}", what, k));
        mon::arm(k, mask)
    } else {
        cx.log(|| what.to_string());
        mon::arm(0, !0)
    }
    let r = run(f);
    let _ = mon::disarm();
    mon::check_errors(what);
    match r {
        End::Ok(r) => Some(r),
        End::Panic(m) => {
            cx.op("panic of the crate");
            cx.log(|| format!("  panicked: {}", m));
            cx.hash(1);
            None
        }
        End::Fuse => {
            cx.op("panic of a callback");
            cx.log(|| "  panicked".into());
            cx.hash(2);
            cx.nontrivial = true;
            None
        }
    }
}

fn look<T: Val, S: ?Sized + Storage<T>>(cx: &mut Cx, v: &GenericVec<T, S>, what: &str) {
    mon::check_errors(what);
    if v.len() > v.capacity() {
        violate!("length {} exceeds the capacity {} after {}", v.len(), v.capacity(), what)
    }
    if v.len() > 1 << 16 {
        violate!("length {} after {}", v.len(), what)
    }
    if v.as_ptr() as usize % core::mem::align_of::<T>() != 0 {
        violate!("the data pointer is not aligned after {}", what)
    }
    for x in v.iter() {
        let _ = x.look();
    }
    cx.hash(v.len() as u64);
    mon::check_errors(what);
}

fn position(cx: &mut Cx, n: usize) -> usize {
    if cx.rng.chance(1, 8) {
        cx.rng.pick(&[n, n + 1, usize::MAX, usize::MAX / 2, isize::MAX as usize])
    } else {
        cx.rng.below(n.max(1))
    }
}

type Pair = (core::ops::Bound<usize>, core::ops::Bound<usize>);

/// A range that may give other bounds when it is asked again
#[derive(Debug)]
struct Bounds {
    at: [Pair; 2],
    asked: (std::cell::Cell<bool>, std::cell::Cell<bool>),
}

fn by_ref(b: &core::ops::Bound<usize>) -> core::ops::Bound<&usize> {
    use core::ops::Bound::*;
    match b {
        Included(x) => Included(x),
        Excluded(x) => Excluded(x),
        Unbounded => Unbounded,
    }
}

impl core::ops::RangeBounds<usize> for Bounds {
    fn start_bound(&self) -> core::ops::Bound<&usize> { by_ref(&self.at[self.asked.0.replace(true) as usize].0) }
    fn end_bound(&self) -> core::ops::Bound<&usize> { by_ref(&self.at[self.asked.1.replace(true) as usize].1) }
}

fn range(cx: &mut Cx, n: usize) -> Bounds {
    let first = pair(cx, n);
    let second = if cx.rng.chance(1, 4) { (pair(cx, n).0, pair(cx, n).1) } else { first };
    Bounds { at: [first, second], asked: Default::default() }
}

fn pair(cx: &mut Cx, n: usize) -> Pair {
    use core::ops::Bound::*;
    if cx.rng.chance(1, 8) {
        let a = position(cx, n);
        let b = position(cx, n);
        return match cx.rng.below(4) {
            0 => (Included(a), Included(b)),
            1 => (Excluded(a), Excluded(b)),
            2 => (Unbounded, Included(b)),
            _ => (Excluded(a), Unbounded),
        }
    }
    let (a, b) = cx.range(n);
    match cx.rng.below(4) {
        0 => (Unbounded, Excluded(b)),
        1 => (Included(a), Unbounded),
        _ => (Included(a), Excluded(b)),
    }
}

/// Things a callback may do to the elements it is shown
fn meddle<T: Val>(how: u64, n: u32, x: &mut T) {
    tick(Kind::Pred);
    match how % 4 {
        0 => *x = T::new(n),
        1 => drop(replace(x, T::new(n + 1))),
        2 => {
            let mut y = T::new(n + 2);
            swap(x, &mut y)
        }
        _ => {
            let _ = x.look();
        }
    }
}

/// A vector that grows
type Other<T> = GenericVec<T, MonStore<T>>;

fn step<T: Val, S: Storage<T>>(cx: &mut Cx, v: &mut GenericVec<T, S>, o: &mut Other<T>) {
    let n = v.len();
    let i = position(cx, n);
    let x = cx.rng.below(100) as u32;
    let k = cx.rng.below(7);
    let how = cx.rng.next();
    let forgotten = cx.rng.chance(1, 12);
    macro_rules! end {
        ($it:ident) => {
            if forgotten {
                cx.op("leaked");
                cx.leaky = true;
                forget($it)
            } else {
                let _ = call(cx, "drop of an iterator", move || drop($it));
            }
        };
    }
    match cx.rng.below(46) {
        0 | 1 => {
            let _ = call(cx, "push", || v.push(T::new(x)).look());
        }
        2 => {
            let _ = call(cx, "pop", || v.pop().look());
        }
        3 => {
            let _ = call(cx, "insert", || v.insert(i, T::new(x)).look());
        }
        4 => {
            let _ = call(cx, "remove", || v.remove(i).look());
        }
        5 => {
            let _ = call(cx, "swap_remove", || v.swap_remove(i).look());
        }
        6 => {
            let _ = call(cx, "try_push", || v.try_push(T::new(x)).map(|x| x.look()).map_err(|x| x.look()));
        }
        7 => {
            let _ = call(cx, "try_insert", || v.try_insert(i, T::new(x)).map(|x| x.look()).map_err(|x| x.look()));
        }
        8 => {
            let _ = call(cx, "try_pop", || v.try_pop().map(|x| x.look()));
        }
        9 => {
            let _ = call(cx, "try_remove", || v.try_remove(i).map(|x| x.look()));
            let _ = call(cx, "try_swap_remove", || v.try_swap_remove(i).map(|x| x.look()));
        }
        10 => {
            let _ = call(cx, "truncate", || v.truncate(i));
        }
        11 if cx.rng.chance(1, 3) => {
            let _ = call(cx, "clear", || v.clear());
        }
        12 => {
            let _ = call(cx, "grow", || v.grow(k, T::new(x)));
        }
        13 => {
            let _ = call(cx, "grow_with", || {
                v.grow_with(k, || {
                    tick(Kind::Make);
                    T::new(x)
                })
            });
        }
        14 => {
            let to = cx.rng.below(n + 6);
            let _ = call(cx, "resize", || v.resize(to, T::new(x)));
        }
        15 => {
            let to = cx.rng.below(n + 6);
            let _ = call(cx, "resize_with", || {
                v.resize_with(to, || {
                    tick(Kind::Make);
                    T::new(x)
                })
            });
        }
        16 | 17 => {
            let s = stream::<T>(cx);
            let _ = call(cx, "extend", || v.extend(s));
        }
        18 => {
            let _ = call(cx, "extend_from_slice", || v.extend_from_slice(o));
        }
        19 => {
            let _ = call(cx, "clone_from", || v.clone_from(o));
        }
        20 => {
            let _ = call(cx, "reserve", || v.reserve(k));
            let _ = call(cx, "try_reserve", || v.try_reserve(k + 2));
        }
        21 => {
            if let Some(it) = call(cx, "drain", || ()) {
                let () = it;
                let b = range(cx, n);
                let r = run(|| v.drain(b));
                if let End::Ok(mut it) = r {
                    for _ in 0..k {
                        let f = cx.rng.below(5);
                        let _ = call(cx, "step of a drain", || match f {
                            0 => it.next_back().map(|x| x.look()),
                            1 => it.nth(1).map(|x| x.look()),
                            2 => it.nth_back(1).map(|x| x.look()),
                            3 => Some(it.len() as u32 + it.size_hint().0 as u32),
                            _ => it.next().map(|x| x.look()),
                        });
                    }
                    end!(it)
                }
            }
        }
        22 | 23 => {
            let b = range(cx, n);
            let mut c = how;
            let r = run(|| {
                v.drain_filter(b, move |x| {
                    c = c.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(1);
                    meddle(c >> 30, 7, x);
                    (c >> 40) % 3 != 0
                })
            });
            if let End::Ok(mut it) = r {
                for _ in 0..k / 2 {
                    let back = cx.rng.chance(1, 3);
                    let _ = call(cx, "step of a drain_filter", || if back { it.next_back().map(|x| x.look()) } else { it.next().map(|x| x.look()) });
                }
                end!(it)
            }
        }
        24 => {
            let mut c = how;
            let _ = call(cx, "retain", || {
                v.retain(|x| {
                    c = c.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(1);
                    meddle(c >> 30, 8, x);
                    (c >> 40) % 3 != 0
                })
            });
        }
        25 => {
            let _ = call(cx, "dedup_by", || {
                v.dedup_by(|a, b| {
                    if how % 5 == 0 {
                        swap(a, b)
                    }
                    meddle(how >> 9, 9, if how % 2 == 0 { a } else { b });
                    a.look() % 3 == b.look() % 3
                })
            });
        }
        26 => {
            let _ = call(cx, "dedup_by_key", || {
                v.dedup_by_key(|x| {
                    meddle(how, 3, x);
                    x.look() % 2
                })
            });
        }
        27 => {
            let _ = call(cx, "dedup", || v.dedup::<(), ()>());
        }
        28 | 29 => {
            let b = range(cx, n);
            let s = stream::<T>(cx);
            let r = run(|| v.splice(b, s));
            if let End::Ok(mut it) = r {
                for _ in 0..k / 2 {
                    let back = cx.rng.chance(1, 3);
                    let _ = call(cx, "step of a splice", || if back { it.next_back().map(|x| x.look()) } else { it.next().map(|x| x.look()) });
                }
                end!(it)
            }
        }
        30 | 31 | 32 | 33 => cursor(cx, v, forgotten),
        34 => {
            let (a, b) = (cx.rng.below(n + 2), cx.rng.below(3));
            match b {
                0 => {
                    let _ = call(cx, "split_off_into", || v.split_off_into(a, o));
                }
                1 => {
                    let w = call(cx, "split_off", || v.split_off::<MonStore<T>>(a));
                    if let Some(w) = w {
                        look(cx, &w, "split_off");
                        let _ = call(cx, "drop of a vector", move || drop(w));
                    }
                }
                _ => {
                    let w = call(cx, "split_off", || v.split_off::<UninitBuffer<[T; 4], T>>(a));
                    if let Some(w) = w {
                        look(cx, &w, "split_off");
                        *o = w.convert();
                    }
                }
            }
        }
        35 => {
            let _ = call(cx, "append", || v.append(o));
        }
        36 => {
            let _ = call(cx, "append", || o.append(v));
        }
        37 => {
            // spare capacity
            let mut sp = v.spare_capacity_mut();
            let fit = sp.capacity().min(k);
            let r = call(cx, "work on spare capacity", || {
                for j in 0..fit {
                    let _ = sp.push(T::new(x + j as u32));
                }
                sp.extend(Some(T::new(x)));
                sp.remove(0).look()
            });
            if r.is_some() && cx.rng.chance(1, 2) {
                unsafe { save_spare!(sp, v) }
            } else {
                end!(sp)
            }
        }
        38 => {
            let w = call(cx, "clone", || o.clone());
            if let Some(w) = w {
                look(cx, &w, "clone");
                let old = replace(o, w);
                let _ = call(cx, "drop of a vector", move || drop(old));
            }
        }
        39 => {
            // by value
            let w = replace(o, GenericVec::with_capacity(k));
            let mut it = w.into_iter();
            for _ in 0..k {
                let f = cx.rng.below(6);
                let _ = call(cx, "step of an into_iter", || match f {
                    0 => it.next_back().map(|x| x.look()),
                    1 => it.nth(1).map(|x| x.look()),
                    2 => it.nth_back(1).map(|x| x.look()),
                    3 => Some(it.as_slice().iter().map(|x| x.look() % 7).sum()),
                    4 => {
                        if let Some(x) = it.as_mut_slice().first_mut() {
                            meddle(how, 4, x)
                        }
                        None
                    }
                    _ => it.next().map(|x| x.look()),
                });
            }
            end!(it)
        }
        40 => {
            let _ = call(cx, "traits", || {
                let _ = *v == *o;
                let _ = PartialOrd::partial_cmp(&*v, &*o);
                let _ = format!("{:?}", v);
                let b: &[T] = v.as_ref();
                let _ = b.len();
                let c: &mut [T] = v.as_mut();
                let _ = c.first_mut().map(|x| x.look());
            });
        }
        41 => {
            let (a, z) = cx.range(n);
            let b = a..if cx.rng.chance(1, 8) { i } else { z };
            let _ = call(cx, "index", || {
                let s: Vec<u32> = v[b.clone()].iter().map(|x| x.look()).collect();
                v[i] = T::new(x);
                v[b].reverse();
                s.len()
            });
        }
        42 => {
            let _ = call(cx, "slice methods", || {
                v.reverse();
                v.rotate_left(n / 2);
                v.sort_by(|a, b| {
                    tick(Kind::Eq);
                    a.partial_cmp(b).unwrap_or(core::cmp::Ordering::Equal)
                });
                v.swap(0, n.saturating_sub(1))
            });
        }
        43 => unchecked(cx, v),
        44 => raw_cursor(cx, v, forgotten),
        _ => {
            let s = stream::<T>(cx);
            let _ = call(cx, "extend of the other", || o.extend(s));
        }
    }
    look(cx, v, "a step");
    look(cx, o, "a step (other vector)");
}

fn cursor<T: Val, S: ?Sized + Storage<T>>(cx: &mut Cx, v: &mut GenericVec<T, S>, forgotten: bool) {
    let b = range(cx, v.len());
    let mut c = match run(|| v.cursor(b)) {
        End::Ok(c) => c,
        _ => return,
    };
    for _ in 0..cx.rng.below(10) {
        let (f, k, x) = (cx.rng.below(22), cx.rng.below(5), cx.rng.below(100) as u32);
        let _ = call(cx, "step of a cursor", || match f {
            0 | 1 => c.take_front().look(),
            2 | 3 => c.take_back().look(),
            4 => {
                c.drop_front();
                0
            }
            5 => {
                c.drop_back();
                0
            }
            6 => {
                c.drop_n_front(k);
                0
            }
            7 => {
                c.drop_n_back(k);
                0
            }
            8 | 9 => {
                c.write_front(T::new(x));
                0
            }
            10 | 11 => {
                c.write_back(T::new(x));
                0
            }
            12 => c.try_write_front(T::new(x)).is_ok() as u32,
            13 => c.try_write_back(T::new(x)).is_ok() as u32,
            14 => {
                c.skip_front();
                0
            }
            15 => {
                c.skip_back();
                0
            }
            16 => {
                c.skip_n_front(k);
                0
            }
            17 => {
                c.skip_n_back(k);
                0
            }
            18 => {
                c.reserve(k);
                0
            }
            19 => {
                if let Some(y) = c.front_mut() {
                    meddle(x as u64, 5, y)
                }
                c.front().map_or(0, |x| x.look())
            }
            20 => {
                if let Some(y) = c.back_mut() {
                    meddle(x as u64, 6, y)
                }
                c.back().map_or(0, |x| x.look())
            }
            _ => (c.len() + c.write_len() + c.write_front_len() + c.write_back_len()) as u32,
        });
    }
    if forgotten {
        cx.op("leaked");
        cx.leaky = true;
        forget(c)
    } else {
        let _ = call(cx, "drop of a cursor", move || drop(c));
    }
}

/// The raw cursor, within its contract
fn raw_cursor<T: Val, S: ?Sized + Storage<T>>(cx: &mut Cx, v: &mut GenericVec<T, S>, forgotten: bool) {
    let b = range(cx, v.len());
    let mut c = match run(|| v.raw_cursor(b)) {
        End::Ok(c) => c,
        _ => return,
    };
    for _ in 0..cx.rng.below(10) {
        let (len, wf, wb) = (c.len(), c.write_front_len(), c.write_back_len());
        let (f, x) = (cx.rng.below(14), cx.rng.below(100) as u32);
        let k = cx.rng.below(len + 1);
        let _ = call(cx, "step of a raw cursor", || unsafe {
            match f {
                0 if len > 0 => c.take_front().look(),
                1 if len > 0 => c.take_back().look(),
                2 if len > 0 => {
                    c.drop_front();
                    0
                }
                3 if len > 0 => {
                    c.drop_back();
                    0
                }
                4 => {
                    c.drop_n_front(k);
                    0
                }
                5 => {
                    c.drop_n_back(k);
                    0
                }
                6 if wf > 0 => {
                    c.write_front(T::new(x));
                    0
                }
                7 if wb > 0 => {
                    c.write_back(T::new(x));
                    0
                }
                8 => {
                    c.skip_n_front(k);
                    0
                }
                9 => {
                    c.skip_n_back(k);
                    0
                }
                10 if len > 0 => {
                    c.skip_front();
                    0
                }
                11 if len > 0 => c.front().look() + c.back().look(),
                12 if len > 0 => {
                    meddle(x as u64, 1, c.front_mut());
                    meddle(x as u64, 2, c.back_mut());
                    c.skip_back();
                    0
                }
                _ => {
                    c.reserve(k);
                    0
                }
            }
        });
    }
    if cx.rng.chance(1, 4) {
        let _ = call(cx, "finish of a raw cursor", || c.finish());
    }
    if forgotten {
        cx.op("leaked");
        cx.leaky = true;
        forget(c)
    } else {
        let _ = call(cx, "drop of a raw cursor", move || drop(c));
    }
}

/// The unchecked operations, within their contracts
fn unchecked<T: Val, S: ?Sized + Storage<T>>(cx: &mut Cx, v: &mut GenericVec<T, S>) {
    let (n, room) = (v.len(), v.remaining_capacity());
    let x = cx.rng.below(100) as u32;
    let f = cx.rng.below(6);
    let i = cx.rng.below(n.max(1));
    let _ = call(cx, "an unchecked operation", || unsafe {
        match f {
            0 if room > 0 => v.push_unchecked(T::new(x)).look(),
            1 if room > 0 => v.insert_unchecked(i.min(n), T::new(x)).look(),
            2 if n > 0 => v.pop_unchecked().look(),
            3 if n > 0 => v.remove_unchecked(i).look(),
            4 if n > 0 => v.swap_remove_unchecked(i).look(),
            _ if n > 0 => {
                // moved out of the vector, and back
                let k = n - i;
                v.set_len_unchecked(i);
                let p = v.as_mut_ptr().add(i);
                let xs: Vec<MaybeUninit<T>> = (0..k).map(|j| MaybeUninit::new(p.add(j).read())).collect();
                v.extend_from_slice_unchecked(core::slice::from_raw_parts(xs.as_ptr() as *const T, k));
                0
            }
            _ => 0,
        }
    });
}

#[cfg(feature = "nightly")]
fn arrays<T: Val, S: ?Sized + Storage<T>>(cx: &mut Cx, v: &mut GenericVec<T, S>) {
    let i = position(cx, v.len() + 1);
    let f = cx.rng.below(9);
    let _ = call(cx, "an array operation", || match f {
        0 => v.push_array([T::new(1), T::new(2), T::new(3)]).len(),
        1 => v.insert_array(i, [T::new(1), T::new(2)]).len(),
        2 => v.pop_array::<2>().len(),
        3 => v.remove_array::<2>(i).len(),
        4 => v.try_push_array([T::new(1), T::new(2), T::new(3)]).is_ok() as usize,
        5 => v.try_insert_array(i, [T::new(1)]).is_ok() as usize,
        6 => v.try_pop_array::<3>().map_or(0, |x| x.len()),
        7 => v.try_remove_array::<3>(i).map_or(0, |x| x.len()),
        _ => v.insert_array::<0>(i, []).len(),
    });
    look(cx, v, "an array operation");
}

fn program<T: Val, S: Storage<T>>(cx: &mut Cx, v: GenericVec<T, S>) {
    let mut v = v;
    let mut o: Other<T> = GenericVec::with_capacity(cx.rng.below(4));
    cx.log(|| format!("a vector of {}, capacity {}", core::any::type_name::<T>(), v.capacity()));
    let n = cx.rng.below(12).min(v.capacity());
    for _ in 0..n {
        let _ = v.push(T::new(cx.rng.below(30) as u32));
    }
    for _ in 0..if cx.scale == 0 { 16 } else { 40 } {
        step(cx, &mut v, &mut o);
        #[cfg(feature = "nightly")]
        {
            if cx.rng.chance(1, 8) {
                arrays(cx, &mut v)
            }
        }
        if v.len() > 60 {
            v.truncate(5)
        }
        if o.len() > 60 {
            o.truncate(5)
        }
    }
    cx.nontrivial = true;
    end(cx, v);
    end(cx, o);
}

/// The end of a vector
fn end<T: Val, S: Storage<T>>(cx: &mut Cx, v: GenericVec<T, S>) {
    match cx.rng.below(6) {
        0 => {
            let mut it = v.into_iter();
            let k = cx.rng.below(5);
            let _ = call(cx, "iterating away", || {
                for _ in 0..k {
                    let _ = it.next().map(|x| x.look());
                }
            });
            let _ = call(cx, "drop of an into_iter", move || drop(it));
        }
        1 => {
            let c = call(cx, "convert", || v.convert::<MonStore<T>>());
            if let Some(c) = c {
                look(cx, &c, "convert");
                let _ = call(cx, "drop of a vector", move || drop(c));
            }
        }
        2 => {
            let c = call(cx, "convert", || v.convert::<UninitBuffer<[T; 6], T>>());
            if let Some(c) = c {
                look(cx, &c, "convert");
                let moved = Some(c);
                let c = Box::new(moved);
                let _ = call(cx, "drop of a vector", move || drop(c));
            }
        }
        3 => {
            let (n, s) = v.into_raw_parts();
            let w = unsafe { GenericVec::<T, S>::from_raw_parts(n, s) };
            look(cx, &w, "from_raw_parts");
            let _ = call(cx, "drop of a vector", move || drop(w));
        }
        #[cfg(feature = "alloc")]
        4 => {
            let c = call(cx, "convert", || v.convert::<Heap<T>>());
            if let Some(c) = c {
                look(cx, &c, "convert");
                let w: Vec<T> = c.into();
                for x in &w {
                    let _ = x.look();
                }
                let c: generic_vec::HeapVec<T> = w.into();
                look(cx, &c, "conversion from a Vec");
                let _ = call(cx, "drop of a vector", move || drop(c));
            }
        }
        _ => {
            let _ = call(cx, "drop of a vector", move || drop(v));
        }
    }
}

#[cfg(feature = "alloc")]
fn heap<T: Val>(cx: &mut Cx) {
    let v = if cx.rng.chance(1, 2) { generic_vec::HeapVec::<T>::new() } else { GenericVec::with_capacity(cx.rng.below(5)) };
    program(cx, v)
}
#[cfg(feature = "alloc")]
fn boxed<T: Val>(cx: &mut Cx) {
    program::<T, Box<UninitBuffer<[T; 9], T>>>(cx, GenericVec::default())
}
/// in memory of another type
#[cfg(feature = "alloc")]
fn alien<T: Val>(cx: &mut Cx) {
    program::<T, Heap<u64>>(cx, GenericVec::default())
}
fn array<T: Val>(cx: &mut Cx) {
    program(cx, generic_vec::TypeVec::<T, [T; 9]>::new())
}
fn one<T: Val>(cx: &mut Cx) {
    program(cx, generic_vec::TypeVec::<T, [T; 1]>::new())
}
fn bytes<T: Val>(cx: &mut Cx) {
    program(cx, generic_vec::TypeVec::<T, [u8; 77], u64>::with_align())
}
fn slice<T: Val>(cx: &mut Cx) {
    let mut a: [MaybeUninit<T>; 12] = generic_vec::uninit_array!(12);
    program(cx, SliceVec::new(&mut a[1..11]))
}
fn exact<T: Val>(cx: &mut Cx) {
    program::<T, MonStore<T>>(cx, GenericVec::with_capacity(0));
    let _: fn(usize) -> MonStore<T> = <MonStore<T> as StorageWithCapacity<T>>::with_capacity;
}
fn zs<T: Val>(cx: &mut Cx) {
    program(cx, generic_vec::ZSVec::<()>::new());
    program(cx, generic_vec::TypeVec::<T, [T; 3]>::new())
}

fn main() {
    let _ = untracked(|| 0);
    let mut g: Vec<Group> = Vec::new();
    macro_rules! add {
        ($w:literal, $f:ident: $($T:ty),*) => { $(g.push((concat!(stringify!($f), " of ", stringify!($T)), $w, $f::<$T>));)* };
    }
    #[cfg(feature = "alloc")]
    {
        add!(2, heap: Tb, String);
        add!(1, heap: bool, char, &'static u32, Tz, (), (u8, u32), Rc<Cell<u32>>, Ta, [Option<String>; 2]);
        add!(1, boxed: Tb, Option<Box<u32>>);
        add!(1, alien: bool, char, String, (u8, u32));
    }
    add!(2, array: Tb, String);
    add!(1, array: bool, NonZeroU8, (bool, Box<(u8, char)>), Tw, Tza);
    add!(1, one: Tb, char);
    add!(1, bytes: String, char, T3);
    add!(2, slice: Tb, Option<Box<u32>>);
    add!(1, slice: bool, Ts, ());
    add!(1, exact: Tb, Rc<Cell<u32>>, &'static u32);
    add!(1, zs: Tz);
    drive::main("C23", g, 3000)
}
