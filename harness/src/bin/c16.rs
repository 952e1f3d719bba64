//! Zero-sized elements are counted exactly.
use core::mem::align_of;
use generic_vec::raw::{Storage, StorageWithCapacity};
use generic_vec::GenericVec;
use std::sync::atomic::{AtomicBool, Ordering};
use vharness::alloc;
use vharness::cx::{Cx, Sub, Work};
use vharness::elem::*;
use vharness::eng::{self, want_ok, want_panic};
use vharness::mon::{run, End};
use vharness::stores::*;
use vharness::{check, check_eq, drive, groups, iters, own};

/// Histories with counted destructors
struct Counted;
impl Work for Counted {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        let mut s = Sub::<E, K>::new(cx);
        let n = s.start_len(cx);
        s.fill(cx, n);
        let ops = eng::list(&[
            eng::core_ops::<E, K>,
            eng::bulk_ops::<E, K>,
            eng::cap_ops::<E, K>,
            eng::try_ops::<E, K>,
            eng::arr_ops::<E, K>,
            eng::unchecked_ops::<E, K>,
            iters::iter_ops::<E, K>,
            own::own_ops::<E, K>,
        ]);
        let steps = if cx.scale == 0 { 12 } else { 40 };
        eng::history(cx, &mut s, ops, steps);
        cx.nontrivial = true;
        if cx.rng.chance(1, 2) {
            own::finale(cx, s)
        }
    }
}

/// Whether something that is done to a number of elements at once takes time for each of them. That is nobody's mistake, but
/// then it cannot be done to 2^63 of them.
static LINEAR: AtomicBool = AtomicBool::new(false);
const MOST: usize = 1000;

fn linear() -> bool { LINEAR.load(Ordering::Relaxed) }

/// the number of elements that something is done to
fn bulk(n: usize) -> usize { if linear() { n.min(MOST) } else { n } }

/// Everything that is done to many elements at once in this program
fn probe() {
    use generic_vec::ZSVec;
    const N: usize = usize::MAX - 9;
    let full = || {
        let mut v: ZSVec<()> = ZSVec::new();
        unsafe { v.set_len_unchecked(N) }
        v
    };
    drop(full());
    drop(full().into_iter());
    drop(full().into_iter().nth(N / 2));
    full().into_iter().count();
    full().truncate(3);
    full().resize(3, ());
    full().resize_with(4, || ());
    full().clone_from(&[()]);
    drop(full().split_off::<generic_vec::raw::ZeroSized<()>>(5));
    drop(full().convert::<generic_vec::raw::ZeroSized<()>>());
    let mut v: ZSVec<()> = ZSVec::new();
    v.append(&mut full());
    v.insert(0, ());
    v.remove(0);
    drop(v.splice(1.., None));
    let mut v = full();
    {
        let mut c = v.cursor(1..);
        c.skip_n_front(N / 5);
        c.skip_n_back(N / 5);
        c.drop_n_front(N / 5);
        c.drop_n_back(N / 5);
    }
    {
        let mut c = v.raw_cursor(0..1);
        unsafe {
            c.drop_front();
            c.reserve(N / 5);
            c.write_slice_front(huge(N / 10));
            c.write_slice_back(huge(N / 10));
        }
    }
    let mut v = full();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.extend_from_slice(huge(N))));
}

/// runs the probe, for a while, in a process of its own
fn find_linear() {
    if cfg!(miri) {
        return LINEAR.store(true, Ordering::Relaxed)
    }
    alloc::untracked(|| {
        use std::process::{Command, Stdio};
        let exe = std::env::current_exe().expect("the path of the program");
        let mut c = Command::new(exe);
        c.arg("--probe").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        let mut c = c.spawn().expect("the probe");
        let start = std::time::Instant::now();
        loop {
            if c.try_wait().expect("the probe's end").is_some() {
                return
            }
            if start.elapsed().as_secs() >= 10 {
                break
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        let _ = c.kill();
        let _ = c.wait();
        eprintln!("NOTE: things done to many zero-sized elements at once take time for each: at most {} at a time", MOST);
        LINEAR.store(true, Ordering::Relaxed)
    })
}

/// A length near something
fn length(cx: &mut Cx) -> usize {
    match cx.rng.below(8) {
        0 | 1 => usize::MAX,
        2 | 3 => usize::MAX - cx.rng.below(6),
        4 => isize::MAX as usize + cx.rng.below(4) - cx.rng.below(4),
        5 => cx.rng.next() as usize,
        6 => 1 << cx.rng.below(64),
        _ => cx.rng.below(10),
    }
}

fn huge<E>(n: usize) -> &'static [E] {
    // there is nothing to drop, and nothing to read
    unsafe { core::slice::from_raw_parts(core::ptr::NonNull::dangling().as_ptr(), n) }
}

/// Runs `f`, which may not ask for memory unless it panics
fn meter<R>(what: &str, f: impl FnOnce() -> R) -> End<R> {
    let c = alloc::counts();
    let r = run(f);
    if let End::Ok(_) = r {
        check_eq!(c.requests_since(), 0, "requests for memory by {} of zero-sized elements", what);
    }
    r
}

fn same_len<E: Elem, S: Storage<E>>(v: &GenericVec<E, S>, n: usize, what: &str) {
    check_eq!(v.len(), n, "length after {}", what);
    check_eq!(v.as_slice().len(), n, "length of the slice after {}", what);
    check_eq!(v.capacity(), usize::MAX, "capacity after {}", what);
    check_eq!(v.remaining_capacity(), usize::MAX - n, "remaining capacity after {}", what);
    check_eq!(v.is_full(), n == usize::MAX, "is_full after {}", what);
    check_eq!(v.is_empty(), n == 0, "is_empty after {}", what);
    check!(!v.as_ptr().is_null() && v.as_ptr() as usize % align_of::<E>() == 0, "pointer {:?} after {}", v.as_ptr(), what);
    check_eq!(v.iter().len(), n, "length of the iterator after {}", what);
}

/// Lengths up to the capacity, without destructors
struct Long;
impl Work for Long {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx) {
        assert!(E::ZST && !core::mem::needs_drop::<E>());
        let mut s = Sub::<E, K>::new(cx);
        same_len(&s.g.v, 0, "making it");
        let mut n = length(cx);
        unsafe { s.g.v.set_len_unchecked(n) }
        same_len(&s.g.v, n, "set_len_unchecked");
        let steps = if cx.scale == 0 { 15 } else { 60 };
        for _ in 0..steps {
            n = step(cx, &mut s.g.v, n);
            same_len(&s.g.v, n, "the operation");
            s.check_guards("the operation");
            cx.hash(n as u64);
        }
        cx.nontrivial = true;
        let (v, _, store) = s.into_parts();
        end::<E, K::S>(cx, v, n);
        drop(store);
    }
}

fn step<E: Elem, S: Storage<E>>(cx: &mut Cx, v: &mut GenericVec<E, S>, n: usize) -> usize {
    let e: E = E::make(0);
    let room = usize::MAX - n;
    // a position in 0..=n
    let at = match cx.rng.below(4) {
        0 => n,
        1 => 0,
        2 => n - n.min(1),
        _ => cx.rng.next() as usize % n.max(1),
    };
    let at = at.max(n - bulk(n));
    let few = cx.rng.below(6);
    let what: &'static str;
    let mut m = n;
    #[cfg(feature = "nightly")]
    {
        if cx.rng.chance(1, 6) {
            return match cx.rng.below(3) {
                0 => array::<E, S, 0>(cx, v, n, at),
                1 => array::<E, S, 1>(cx, v, n, at),
                _ => array::<E, S, 4>(cx, v, n, at),
            }
        }
    }
    match cx.rng.below(26) {
        0 | 1 => {
            what = "push";
            let r = meter(what, || drop(v.push(e)));
            if room > 0 {
                want_ok(r, what);
                m += 1
            } else {
                want_panic(cx, r, "push past the capacity")
            }
        }
        2 => {
            what = "try_push";
            let r = want_ok(meter(what, || v.try_push(e).is_ok()), what);
            check_eq!(r, room > 0, "try_push at length {}", n);
            m += r as usize
        }
        3 | 4 => {
            what = "insert";
            let r = meter(what, || drop(v.insert(at, e)));
            if room > 0 {
                want_ok(r, what);
                m += 1
            } else {
                want_panic(cx, r, "insert past the capacity")
            }
        }
        5 => {
            what = "try_insert";
            let r = want_ok(meter(what, || v.try_insert(at, e).is_ok()), what);
            check_eq!(r, room > 0, "try_insert at length {}", n);
            m += r as usize;
            let out = m.saturating_add(1 + cx.rng.below(3));
            if out > m {
                // out of bounds: a panic, or the element is handed back
                let e = E::make(0);
                let r = run(|| v.try_insert(out, e).is_ok());
                check!(!matches!(r, End::Ok(true)), "try_insert at {} of {} succeeded", out, m);
            }
        }
        6 | 7 => {
            what = "pop, remove, swap_remove";
            let how = cx.rng.below(6);
            let i = at.min(n.saturating_sub(1));
            let r = meter(what, || match how {
                0 => drop(v.pop()),
                1 => drop(v.remove(i)),
                2 => drop(v.swap_remove(i)),
                3 => assert!(v.try_pop().is_some()),
                4 => assert!(v.try_remove(i).is_some()),
                _ => assert!(v.try_swap_remove(i).is_some()),
            });
            if n > 0 {
                want_ok(r, what);
                m -= 1
            } else {
                want_panic(cx, r, "taking an element of an empty vector")
            }
        }
        8 => {
            what = "remove, swap_remove out of bounds";
            let how = cx.rng.below(4);
            let r = run(|| match how {
                0 => drop(v.remove(n)),
                1 => drop(v.swap_remove(n)),
                2 => assert!(v.try_remove(n).is_some()),
                _ => assert!(v.try_swap_remove(n).is_some()),
            });
            want_panic(cx, r, what)
        }
        9 => {
            what = "truncate";
            let to = length(cx).max(n - bulk(n));
            want_ok(meter(what, || v.truncate(to)), what);
            m = n.min(to)
        }
        10 => {
            what = "reserve";
            let k = length(cx);
            let r = meter(what, || v.reserve(k));
            if k <= room {
                want_ok(r, what)
            } else {
                want_panic(cx, r, "reserve past the capacity")
            }
            let r = want_ok(meter(what, || v.try_reserve(k)), "try_reserve");
            check_eq!(r, k <= room, "try_reserve({}) at length {}", k, n);
        }
        11 => {
            what = "grow";
            let how = cx.rng.below(2);
            let r = meter(what, || if how == 0 { v.grow(few, e) } else { v.grow_with(few, || E::make(0)) });
            if few <= room {
                want_ok(r, what);
                m += few
            } else {
                want_panic(cx, r, "grow past the capacity")
            }
        }
        12 => {
            what = "resize";
            let to = if cx.rng.chance(1, 2) { n.saturating_add(few) } else { at };
            let how = cx.rng.below(2);
            want_ok(meter(what, || if how == 0 { v.resize(to, e) } else { v.resize_with(to, || E::make(0)) }), what);
            m = to
        }
        13 => {
            what = "extend_from_slice";
            let k = if n == 0 || cx.rng.chance(1, 2) { few } else { room.saturating_add(1 + cx.rng.below(3)) };
            // (elements are cloned one at a time)
            let k = if k > 100 && k <= room { few } else { bulk(k) };
            let k = if k > 100 && k <= room { few } else { k };
            let r = meter(what, || v.extend_from_slice(huge(k)));
            if k <= room {
                want_ok(r, what);
                m += k
            } else {
                want_panic(cx, r, "extend_from_slice past the capacity")
            }
        }
        14 => {
            what = "extend";
            let r = meter(what, || v.extend((0..few).map(|_| E::make(0))));
            if few <= room {
                want_ok(r, what);
                m += few
            } else {
                want_panic(cx, r, "extend past the capacity");
                // some of the elements may be in
                m = v.len();
                check!(m >= n, "length {} after an extend that panicked at length {}", m, n);
            }
        }
        15 => {
            what = "clone_from";
            if linear() {
                unsafe { v.set_len_unchecked(bulk(n)) }
            }
            want_ok(meter(what, || v.clone_from(huge(few))), what);
            m = few
        }
        16 => {
            what = "split_off";
            let o = want_ok(meter(what, || v.split_off::<generic_vec::raw::ZeroSized<E>>(at)), what);
            same_len(&o, n - at, "split_off");
            m = at
        }
        17 | 18 => {
            what = "append";
            let mut o = generic_vec::ZSVec::<E>::new();
            let k = match cx.rng.below(3) {
                0 => few,
                1 => bulk(room),
                _ => bulk(length(cx)),
            };
            unsafe { o.set_len_unchecked(k) }
            let r = meter(what, || v.append(&mut o));
            if k <= room {
                want_ok(r, what);
                same_len(&o, 0, "its elements went to another vector");
                m += k
            } else {
                want_panic(cx, r, "append past the capacity");
                // every element is in one of the two
                check_eq!(o.len() as u128 + v.len() as u128, k as u128 + n as u128, "elements after a refused append");
                m = v.len();
            }
        }
        19 => {
            what = "split_off_into";
            let mut o = generic_vec::ZSVec::<E>::new();
            let k = bulk(length(cx));
            unsafe { o.set_len_unchecked(k) }
            let r = meter(what, || v.split_off_into(at, &mut o));
            if n - at <= usize::MAX - k {
                want_ok(r, what);
                same_len(&o, k + (n - at), "it got elements of another vector");
                m = at
            } else {
                want_panic(cx, r, "split_off_into past the capacity");
                check_eq!(o.len() as u128 + v.len() as u128, k as u128 + n as u128, "elements after a refused split_off_into");
                m = v.len();
            }
        }
        20 => {
            what = "drain of a few";
            let to = at.saturating_add(few).min(n);
            let k = want_ok(
                meter(what, || {
                    let mut d = v.drain(at..to);
                    let mut k = 0;
                    while d.next().is_some() {
                        k += 1;
                        if d.next_back().is_some() {
                            k += 1
                        }
                    }
                    k
                }),
                what,
            );
            check_eq!(k, to - at, "elements drained");
            m -= k
        }
        21 => {
            what = "splice";
            let (a, b) = (at, n - (n - at).min(cx.rng.below(4)));
            let r = meter(what, || drop(v.splice(a..b, (0..few).map(|_| E::make(0)))));
            if few <= usize::MAX - (n - (b - a)) {
                want_ok(r, what);
                m = n - (b - a) + few
            } else {
                want_panic(cx, r, "splice past the capacity");
                m = v.len()
            }
        }
        22 | 23 => {
            what = "cursor";
            let (a, b) = (at, n - (n - at).min(length(cx)));
            want_ok(
                meter(what, || {
                    let mut c = v.cursor(a..b);
                    let all = b - a;
                    check_eq!(c.len(), all, "length of a cursor");
                    let (x, y) = (all / 3, all / 5);
                    c.skip_n_front(x);
                    check_eq!(c.len(), all - x, "length of a cursor after skip_n_front");
                    c.skip_n_back(y);
                    check_eq!(c.len(), all - x - y, "length of a cursor after skip_n_back");
                    let left = c.len();
                    let mut gone = 0;
                    if left >= 3 {
                        drop(c.take_front());
                        drop(c.take_back());
                        gone = 2;
                        check_eq!(c.write_front_len(), 1, "slots at the front of a cursor");
                        check_eq!(c.write_back_len(), 1, "slots at the back of a cursor");
                        if few & 1 == 0 {
                            c.write_front(E::make(0));
                            gone -= 1;
                        }
                        if few & 2 == 0 {
                            c.write_back(E::make(0));
                            gone -= 1;
                        }
                    }
                    let more = c.len() / 2;
                    c.drop_n_front(more);
                    gone += more;
                    check_eq!(c.write_len(), c.len() + gone, "slots of a cursor");
                    let rest = c.len();
                    if few == 3 {
                        c.drop_n_back(rest);
                        gone += rest;
                        check_eq!(c.is_empty(), true, "is_empty of a cursor");
                    }
                    drop(c);
                    m -= gone;
                }),
                what,
            );
        }
        24 => {
            what = "cursor with reserve";
            let k = bulk(length(cx));
            let mut got = 0;
            let r = meter(what, || {
                if few & 1 == 0 {
                    let mut c = v.raw_cursor(at..at);
                    c.reserve(k);
                    check_eq!(c.write_front_len(), k, "slots of a raw cursor after reserve");
                    if few & 2 == 0 {
                        unsafe { c.write_slice_front(huge(k)) }
                    } else {
                        unsafe { c.write_slice_back(huge(k)) }
                    }
                    check_eq!(c.is_write_empty(), true, "is_write_empty of a raw cursor");
                    got = k;
                } else {
                    let mut c = v.cursor(at..at);
                    c.reserve(k);
                    check_eq!(c.write_len(), k, "slots of a cursor after reserve");
                    if k > 0 {
                        c.write_back(E::make(0));
                        check_eq!(c.write_back_len(), k - 1, "slots of a cursor after a write");
                        got = 1;
                    }
                }
            });
            if k <= room {
                want_ok(r, what);
                m += got;
            } else {
                want_panic(cx, r, "reserve of a cursor past the capacity");
                m = v.len();
                check_eq!(m, n, "length after a cursor refused to reserve");
            }
        }
        _ => {
            what = "spare_capacity_mut";
            let r = meter(what, || {
                let mut sp = v.spare_capacity_mut();
                check_eq!(sp.len(), 0, "length of the spare slice");
                check!(sp.capacity() >= room, "capacity of the spare slice: {} for {}", sp.capacity(), room);
                for _ in 0..few.min(room) {
                    sp.push(E::make(0));
                }
                unsafe { generic_vec::save_spare!(sp, v) }
            });
            want_ok(r, what);
            m += few.min(room);
        }
    }
    cx.op(what);
    cx.log(|| format!("{}  // length {} -> {}", what, n, m));
    m
}

#[cfg(feature = "nightly")]
fn array<E: Elem, S: Storage<E>, const N: usize>(cx: &mut Cx, v: &mut GenericVec<E, S>, n: usize, at: usize) -> usize {
    use core::mem::MaybeUninit;
    let room = usize::MAX - n;
    let a: [E; N] = unsafe { MaybeUninit::uninit().assume_init() };
    let how = cx.rng.below(8);
    cx.op("array operations");
    cx.log(|| format!("array operation {} of {} at {} of {}", how, N, at, n));
    let what = ["push_array", "insert_array", "try_push_array", "try_insert_array", "pop_array", "remove_array", "try_pop_array", "try_remove_array"][how];
    let r = meter(what, || match how {
        0 => {
            let _ = v.push_array(a);
            true
        }
        1 => {
            let _ = v.insert_array(at, a);
            true
        }
        2 => v.try_push_array(a).is_ok(),
        3 => v.try_insert_array(at, a).is_ok(),
        4 => {
            let _ = v.pop_array::<N>();
            true
        }
        5 => {
            let _ = v.remove_array::<N>(at);
            true
        }
        6 => v.try_pop_array::<N>().is_some(),
        _ => v.try_remove_array::<N>(at).is_some(),
    });
    let fits = match how {
        0..=3 => N <= room,
        5 | 7 => N <= n - at,
        _ => N <= n,
    };
    if how == 2 || how == 3 || how >= 6 {
        check_eq!(want_ok(r, what), fits, "{} of {} at {} of {}", what, N, at, n);
    } else if fits {
        let _ = want_ok(r, what);
    } else {
        want_panic(cx, r, what)
    }
    match (fits, how < 4) {
        (false, _) => n,
        (_, true) => n + N,
        _ => n - N,
    }
}

/// The vector is used up
fn end<E: Elem, S: Storage<E>>(cx: &mut Cx, mut v: GenericVec<E, S>, n: usize) {
    let n = bulk(n);
    unsafe { v.set_len_unchecked(n) }
    match cx.rng.below(3) {
        0 => drop(want_ok(meter("drop", move || drop(v)), "drop")),
        1 => {
            let mut it = want_ok(meter("into_iter", move || v.into_iter()), "into_iter");
            check_eq!(it.len(), n, "length of into_iter");
            let mut left = n;
            for _ in 0..cx.rng.below(10) {
                match cx.rng.below(4) {
                    0 => {
                        check_eq!(it.next().is_some(), left > 0, "next of into_iter with {} left", left);
                        left = left.saturating_sub(1)
                    }
                    1 => {
                        check_eq!(it.next_back().is_some(), left > 0, "next_back of into_iter with {} left", left);
                        left = left.saturating_sub(1)
                    }
                    2 => {
                        let k = bulk(length(cx));
                        check_eq!(it.nth(k).is_some(), left > k, "nth({}) of into_iter with {} left", k, left);
                        left = left.saturating_sub(k).saturating_sub(1)
                    }
                    _ => check_eq!(it.as_slice().len(), left, "slice of into_iter"),
                }
                check_eq!(it.len(), left, "length of into_iter");
                check_eq!(it.size_hint(), (left, Some(left)), "size_hint of into_iter");
            }
            if cx.rng.chance(1, 2) {
                check_eq!(it.count(), left, "count of into_iter");
            }
        }
        _ => {
            let o = want_ok(meter("convert", move || v.convert::<generic_vec::raw::ZeroSized<E>>()), "convert");
            same_len(&o, n, "convert");
        }
    }
    // made for any number
    let k = length(cx);
    made::<E, generic_vec::raw::ZeroSized<E>>(k);
    made::<E, generic_vec::raw::UninitBuffer<[E; 3], E>>(k);
    #[cfg(feature = "alloc")]
    {
        made::<E, generic_vec::raw::Heap<E>>(k);
        made::<E, generic_vec::raw::Heap<u128>>(0);
        vec(n);
    }
}

fn made<E: Elem, S: StorageWithCapacity<E>>(k: usize) {
    if align_of::<E>() > 16 {
        return
    }
    let v = want_ok(meter("with_capacity", || GenericVec::<E, S>::with_capacity(k)), "with_capacity");
    same_len(&v, 0, "with_capacity");
    drop(v);
}

/// Vectors of the standard library
#[cfg(feature = "alloc")]
fn vec(n: usize) {
    let mut w: Vec<Cz> = Vec::new();
    unsafe { w.set_len(n) }
    let v = want_ok(meter("from Vec", move || generic_vec::HeapVec::from(w)), "from Vec");
    same_len(&v, n, "from Vec");
    let w: Vec<Cz> = want_ok(meter("into Vec", move || v.into()), "into Vec");
    check_eq!(w.len(), n, "length of the Vec");
    check_eq!(w.capacity(), usize::MAX, "capacity of the Vec");
}

fn main() {
    if std::env::args().any(|a| a == "--probe") {
        return probe()
    }
    find_linear();
    let mut g = groups!(Counted;
        #[cfg(feature = "alloc")] 3: Tz, HeapK;
        #[cfg(feature = "alloc")] 2: Tza, HeapK;
        #[cfg(feature = "alloc")] 1: Tz, AlienHeapK<[u64; 2]>;
        #[cfg(feature = "alloc")] 1: Tz, BoxK<5>;
        #[cfg(feature = "alloc")] 1: Tza, BoxSliceK;
        2: Tz, ZsK;
        2: Tza, ZsK;
        2: Tza, SliceK;
        1: Tz, ArrK<8>;
        1: Tza, ArrK<0>;
        1: Tz, BytesK<45>;
        1: Tza, ExactK;
        1: Tz, MutK<Tz>;
        1: Tza, AlienSliceK<Ta>;
    );
    g.extend(groups!(Long;
        #[cfg(feature = "alloc")] 3: Cz, HeapK;
        #[cfg(feature = "alloc")] 2: Cza, HeapK;
        #[cfg(feature = "alloc")] 1: Cz, AlienHeapK<[u64; 2]>;
        #[cfg(feature = "alloc")] 1: Cza, BoxK<5>;
        #[cfg(feature = "alloc")] 1: Cz, BoxSliceK;
        2: Cz, ZsK;
        2: Cza, ZsK;
        1: Cza, SliceK;
        1: Cz, SliceK;
        1: Cz, ArrK<8>;
        1: Cza, ArrK<0>;
        1: Cz, BytesK<45>;
        1: Cza, ExactK;
        1: Cz, MutK<Cz>;
        1: Cz, InitSliceK;
        1: Cza, InitArr16;
    ));
    drive::main("C16", g, 10000)
}
