//! Storages report a capacity that fits, and aligned pointers.
use core::mem::{align_of, size_of, size_of_val, MaybeUninit};
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice};
use generic_vec::GenericVec;
#[cfg(feature = "alloc")]
use vharness::alloc;
use vharness::alloc::untracked;
use vharness::cx::{Cx, Group};
use vharness::eng::{want_ok, want_panic};
use vharness::mon::{self, run};
use vharness::stores::{Guarded, Zone};
use vharness::{check, check_eq, drive};

/// Any bytes are a value, and there is no padding
unsafe trait Pod: Copy + 'static {}
macro_rules! pods { ($($T:ty),*) => { $(unsafe impl Pod for $T {})* } }
#[derive(Clone, Copy)]
#[repr(C, align(32))]
struct Al32([u8; 64]);
#[derive(Clone, Copy)]
#[repr(C, align(32))]
struct Al0([u8; 0]);
pods!(u8, [u8; 3], u16, [u16; 3], u32, [u32; 3], u64, [u64; 2], u128, Al32, Al0, (), [u8; 17], [u64; 0], [u8; 64], [u32; 7]);

fn value<E: Pod>(k: usize) -> E {
    let mut x = MaybeUninit::<E>::uninit();
    let p = x.as_mut_ptr() as *mut u8;
    for i in 0..size_of::<E>() {
        unsafe { *p.add(i) = (k.wrapping_mul(31) + i * 7 + 1) as u8 }
    }
    unsafe { x.assume_init() }
}

fn is_value<E: Pod>(x: &E, k: usize) -> bool {
    let p = x as *const E as *const u8;
    (0..size_of::<E>()).all(|i| unsafe { *p.add(i) == (k.wrapping_mul(31) + i * 7 + 1) as u8 })
}

/// how many `E`s fit into `bytes` bytes
fn fit<E>(bytes: usize) -> usize {
    match size_of::<E>() {
        0 => usize::MAX,
        n => bytes / n,
    }
}

fn aligned<E, S: Storage<E>>() -> bool {
    S::IS_ALIGNED
}

/// where the memory of the storage is, as far as the test knows
type Mem = Option<(usize, usize)>;

fn look<E: Pod, S: Storage<E>>(v: &mut GenericVec<E, S>, mem: Mem, cap: usize, len: usize, what: &str) {
    check_eq!(v.capacity(), cap, "capacity {}", what);
    check_eq!(v.len(), len, "length {}", what);
    if size_of::<E>() > 0 {
        check_eq!(v.storage().capacity(), cap, "capacity of the storage {}", what);
    }
    let p = v.as_ptr();
    check!(!p.is_null() && p as usize % align_of::<E>() == 0, "the pointer {:?} is not aligned to {} {}", p, align_of::<E>(), what);
    check_eq!(v.as_mut_ptr() as *const E, p, "as_mut_ptr {}", what);
    check_eq!(v.storage().as_ptr(), p, "pointer of the storage {}", what);
    check_eq!(v.as_slice().as_ptr(), p, "pointer of the slice {}", what);
    check_eq!(v.as_mut_slice().as_ptr(), p, "pointer of the mutable slice {}", what);
    if let (Some((at, bytes)), true) = (mem, size_of::<E>() > 0 && cap > 0) {
        let p = p as usize;
        check!(p >= at && p + cap * size_of::<E>() <= at + bytes, "{} elements at {:#x} are not in the storage's {} bytes at {:#x} {}", cap, p, bytes, at, what);
    }
    {
        let sp = v.spare_capacity_mut();
        check_eq!(sp.as_ptr() as usize, p as usize + len * size_of::<E>(), "pointer of the spare slice {}", what);
        if size_of::<E>() > 0 {
            check_eq!(sp.capacity(), cap - len, "capacity of the spare slice {}", what);
        }
    }
}

fn contents<E: Pod, S: Storage<E>>(v: &GenericVec<E, S>, m: &[usize], what: &str) {
    check_eq!(v.len(), m.len(), "length {}", what);
    for (i, (x, k)) in v.iter().zip(m).enumerate() {
        check!(is_value(x, *k), "element {} of {} was overwritten {}", i, m.len(), what);
    }
}

/// Fills the storage to its capacity and looks at it all the time. `mem` tells where its memory is.
fn exercise<E: Pod, S: Storage<E>>(cx: &mut Cx, v: &mut GenericVec<E, S>, mem: &mut dyn FnMut(&GenericVec<E, S>) -> Mem, cap: usize, fixed: bool) {
    let at = mem(v);
    cx.hash(at.map_or(0, |a| a.1 as u64));
    look(v, at, cap, 0, "of a new vector");
    let n = if cx.rng.chance(1, 3) { cx.rng.below(cap.min(300) + 1) } else { cap.min(if cx.scale == 0 { 40 } else { 300 }) };
    let mut m: Vec<usize> = Vec::new();
    cx.hash(n as u64);
    for k in 0..n {
        untracked(|| m.push(k + 1));
        let _ = v.push(value(k + 1));
    }
    look(v, at, cap, n, "after push");
    contents(v, &m, "after push");
    for _ in 0..cx.rng.below(6) {
        let i = cx.rng.below(m.len() + 1);
        if m.len() < cap && cx.rng.chance(1, 2) {
            let k = 1000 + cx.rng.below(1000);
            let _ = v.insert(i, value(k));
            untracked(|| m.insert(i, k))
        } else if i < m.len() {
            let x = v.remove(i);
            let k = m.remove(i);
            cx.hash(i as u64);
            check!(is_value(&x, k), "the element removed at {} was overwritten", i);
        }
        contents(v, &m, "after insert and remove");
        let l = m.len();
        look(v, at, cap, l, "after insert and remove");
    }
    let l = m.len();
    if l < cap {
        let k = (cap - l).min(20);
        let ok = v.try_reserve(cap - l);
        check_eq!(ok, true, "try_reserve of the room there is ({})", cap - l);
        v.extend((0..k).map(|i| value::<E>(i + 7)));
        untracked(|| m.extend((0..k).map(|i| i + 7)));
        contents(v, &m, "after extend");
        look(v, at, cap, l + k, "after extend");
    }
    if size_of::<E>() > 0 && fixed {
        let l = m.len();
        if l == cap {
            check_eq!(v.try_push(value(5)).is_err(), true, "try_push on a full fixed storage is refused");
            let r = run(|| drop(v.push(value(5))));
            want_panic(cx, r, "push on a full fixed storage");
        }
        check_eq!(v.try_reserve(cap - l + 1), false, "try_reserve past the capacity of a fixed storage");
        look(v, at, cap, l, "after a refusal");
        contents(v, &m, "after a refusal");
    }
    // the storage by itself
    if size_of::<E>() > 0 {
        let l = m.len();
        let st = unsafe { v.storage_mut() };
        check!(Storage::<E>::try_reserve(st, cap) && Storage::<E>::try_reserve(st, l), "try_reserve of a storage, within its capacity {}", cap);
        want_ok(run(|| Storage::<E>::reserve(st, cap)), "reserve of a storage, within its capacity");
        if fixed {
            let more = match cx.rng.below(3) {
                0 => cap + 1,
                1 => usize::MAX,
                _ => cap + 1 + cx.rng.below(100),
            };
            check!(!Storage::<E>::try_reserve(st, more), "try_reserve({}) of a fixed storage of capacity {} succeeded", more, cap);
            let r = run(|| Storage::<E>::reserve(st, more));
            want_panic(cx, r, "reserve of a fixed storage past its capacity");
        }
        check_eq!(Storage::<E>::capacity(st), cap, "capacity of a storage after reserve and try_reserve");
        look(v, at, cap, l, "after reserving on the storage");
        contents(v, &m, "after reserving on the storage");
    }
    spare(cx, v, &m);
    untracked(|| drop(m));
    cx.nontrivial = true;
}

/// save_spare!
fn spare<E: Pod, S: Storage<E>>(cx: &mut Cx, v: &mut GenericVec<E, S>, m: &[usize]) {
    let len = m.len();
    let p = v.as_ptr();
    generic_vec::validate_spare(p.wrapping_add(len), v);
    if cfg!(debug_assertions) && size_of::<E>() > 0 {
        let off = match cx.rng.below(3) {
            0 => len + 1 + cx.rng.below(3),
            1 => len.wrapping_sub(1 + cx.rng.below(3)),
            _ => len ^ (1 << cx.rng.below(20)),
        };
        let r = run(|| generic_vec::validate_spare(p.wrapping_add(off), v));
        want_panic(cx, r, "save_spare with the slice of something else");
    }
    let k = (v.capacity() - len).min(3);
    let mut sp = v.spare_capacity_mut();
    for i in 0..k {
        sp.push(value(i + 50));
    }
    unsafe { generic_vec::save_spare!(sp, v) }
    check_eq!(v.len(), len + k, "length after save_spare");
    let (a, b) = v.split_at(len);
    check!(a.iter().zip(m).all(|(x, k)| is_value(x, *k)), "the contents were overwritten through the spare capacity");
    check!(b.iter().enumerate().all(|(i, x)| is_value(x, i + 50)), "elements written to the spare capacity");
}

/// `&mut UninitSlice<U>`, `Box<UninitSlice<U>>`
fn slices<E: Pod, U: Pod>(cx: &mut Cx) {
    let ok = align_of::<U>() >= align_of::<E>();
    check_eq!(aligned::<E, &mut UninitSlice<U>>(), ok || aligned::<E, &mut UninitSlice<U>>() && size_of::<E>() == 0, "IS_ALIGNED of a slice");
    let n = cx.rng.below(if size_of::<U>() > 8 { 40 } else { 200 });
    let skip = cx.rng.below(4);
    let z = Zone::new((n + skip) * size_of::<U>(), align_of::<U>());
    let at = z.ptr() as usize + skip * size_of::<U>();
    let s: &mut [MaybeUninit<U>] = unsafe { core::slice::from_raw_parts_mut(at as *mut MaybeUninit<U>, n) };
    let bytes = n * size_of::<U>();
    cx.log(|| format!("slice of {} items of {} bytes aligned to {}", n, size_of::<U>(), align_of::<U>()));
    let how = cx.rng.below(4);
    let cap = fit::<E>(bytes);
    match how {
        0 | 1 => {
            let st = UninitSlice::from_mut(s);
            let r = run(|| if how == 0 { GenericVec::<E, _>::with_storage(st) } else { unsafe { GenericVec::<E, _>::from_raw_parts(0, st) } });
            if !ok {
                return want_panic(cx, r.map_unit(), "making a vector of a misaligned slice")
            }
            let mut v = want_ok(r, "with_storage");
            exercise(cx, &mut v, &mut |_| Some((at, bytes)), cap, true);
        }
        2 => {
            // a reference to a reference
            let mut st = UninitSlice::from_mut(s);
            let r = run(|| GenericVec::<E, _>::with_storage(&mut st));
            if !ok {
                return want_panic(cx, r.map_unit(), "making a vector of a misaligned slice")
            }
            let mut v = want_ok(r, "with_storage");
            exercise(cx, &mut v, &mut |_| Some((at, bytes)), cap, true);
        }
        _ => {
            #[cfg(feature = "alloc")]
            {
                let mut v: Vec<MaybeUninit<U>> = Vec::with_capacity(n);
                unsafe { v.set_len(n) }
                let b: Box<[MaybeUninit<U>]> = v.into_boxed_slice();
                let at = b.as_ptr() as usize;
                let b = unsafe { Box::from_raw(Box::into_raw(b) as *mut UninitSlice<U>) };
                let r = run(|| GenericVec::<E, _>::with_storage(b));
                if !ok {
                    return want_panic(cx, r.map_unit(), "making a vector of a misaligned box")
                }
                let mut v = want_ok(r, "with_storage");
                exercise(cx, &mut v, &mut |_| Some((at, bytes)), cap, true);
            }
        }
    }
    if let Some(e) = z.check() {
        vharness::violate!("{}", e)
    }
}

/// `UninitBuffer<[U; N], A>`
fn buffers<E: Pod, U: Pod>(cx: &mut Cx) {
    match cx.rng.below(7) {
        0 => buffer::<E, UninitBuffer<[U; 0], U>>(cx, 0),
        1 => buffer::<E, UninitBuffer<[U; 1], U>>(cx, UninitBuffer::<[U; 1], U>::capacity::<E>()),
        2 => buffer::<E, UninitBuffer<[U; 13], U>>(cx, UninitBuffer::<[U; 13], U>::capacity::<E>()),
        3 => buffer::<E, UninitBuffer<[u8; 61], U>>(cx, UninitBuffer::<[u8; 61], U>::capacity::<E>()),
        4 => buffer::<E, UninitBuffer<[u16; 29], U>>(cx, UninitBuffer::<[u16; 29], U>::capacity::<E>()),
        5 => buffer::<E, UninitBuffer<U>>(cx, UninitBuffer::<U>::capacity::<E>()),
        _ => buffer::<E, UninitBuffer<[U; 7], u64>>(cx, UninitBuffer::<[U; 7], u64>::capacity::<E>()),
    }
}

fn buffer<E: Pod, S: StorageWithCapacity<E>>(cx: &mut Cx, said: usize) {
    let ok = align_of::<S>() >= align_of::<E>();
    check_eq!(S::IS_ALIGNED, ok, "IS_ALIGNED of a buffer aligned to {}, for elements aligned to {}", align_of::<S>(), align_of::<E>());
    let cap = fit::<E>(size_of::<S>());
    check!(said == cap || said == 0, "capacity of a buffer of {} bytes: {} instead of {}", size_of::<S>(), said, cap);
    let how = cx.rng.below(4);
    let k = cx.rng.below(cap.min(400) + 1);
    cx.log(|| format!("buffer of {} bytes aligned to {}, way {}", size_of::<S>(), align_of::<S>(), how));
    let r = run(|| match how {
        0 => GenericVec::<E, S>::with_storage(S::default()),
        1 => GenericVec::<E, S>::with_capacity(k),
        2 => GenericVec::<E, S>::default(),
        _ => unsafe { GenericVec::<E, S>::from_raw_parts(0, S::default()) },
    });
    if !ok {
        return want_panic(cx, r.map_unit(), "making a vector of a misaligned buffer")
    }
    let v = want_ok(r, "making a vector of a buffer");
    let mut g = untracked(|| Guarded::new(v));
    exercise(cx, &mut g.v, &mut |v| Some((v.storage() as *const S as usize, size_of_val(v.storage()))), cap, true);
    if let Some(e) = g.check() {
        vharness::violate!("{}", e)
    }
    // it may move
    let n = g.v.len();
    let first = if n > 0 { Some(g.v[n - 1]) } else { None };
    let v = untracked(move || Box::new((1u8, g.into_inner())));
    let (at, bytes) = (v.1.storage() as *const S as usize, size_of::<S>());
    let p = v.1.as_ptr() as usize;
    check!(size_of::<E>() == 0 || cap == 0 || p >= at && p + cap * size_of::<E>() <= at + bytes, "the elements stay behind when the vector is moved");
    check_eq!(v.1.len(), n, "length after a move");
    if let Some(x) = first {
        let a = unsafe { core::slice::from_raw_parts(&x as *const E as *const u8, size_of::<E>()) };
        let b = unsafe { core::slice::from_raw_parts(&v.1[n - 1] as *const E as *const u8, size_of::<E>()) };
        check_eq!(a, b, "the last element after a move");
    }
    untracked(|| drop(v));
    if size_of::<E>() > 0 {
        let r = run(|| GenericVec::<E, S>::with_capacity(cap + 1 + k));
        want_panic(cx, r.map_unit(), "with_capacity past the capacity of a buffer");
    }
}

/// `[E; N]`, `&mut [E; N]`, and a storage in a box
fn arrays<E: Pod + Default>(cx: &mut Cx) {
    match cx.rng.below(9) {
        7 => {
            // a borrowed slice, or a borrow of a borrowed slice
            let n = cx.rng.below(40);
            let mut a = vec![E::default(); n];
            let at = a.as_ptr() as usize;
            check!(<&mut [E] as Storage<E>>::IS_ALIGNED, "IS_ALIGNED of a slice of elements");
            let mut st = &mut a[..];
            if cx.rng.chance(1, 2) {
                let mut v = want_ok(run(|| GenericVec::<E, _>::with_storage(&mut st)), "making a vector of a borrowed slice");
                exercise(cx, &mut v, &mut |_| Some((at, n * size_of::<E>())), n, true);
            } else {
                let mut v = want_ok(run(|| GenericVec::<E, _>::with_storage(st)), "making a vector of a slice");
                exercise(cx, &mut v, &mut |_| Some((at, n * size_of::<E>())), n, true);
            }
        }
        #[cfg(feature = "alloc")]
        8 => {
            let n = cx.rng.below(40);
            let b = vec![E::default(); n].into_boxed_slice();
            let at = b.as_ptr() as usize;
            let mut v = want_ok(run(|| GenericVec::<E, _>::with_storage(b)), "making a vector of a boxed slice");
            exercise(cx, &mut v, &mut |_| Some((at, n * size_of::<E>())), n, true);
        }
        0 => buffer::<E, [E; 0]>(cx, 0),
        1 => buffer::<E, [E; 1]>(cx, 1),
        2 => buffer::<E, [E; 13]>(cx, 13),
        3 => buffer::<E, [E; 32]>(cx, 32),
        4 => {
            let mut a = [E::default(); 13];
            let at = a.as_ptr() as usize;
            check!(<&mut [E; 13] as Storage<E>>::IS_ALIGNED, "IS_ALIGNED of a reference to an array");
            let v = want_ok(run(|| GenericVec::<E, _>::with_storage(&mut a)), "making a vector of a borrowed array");
            let mut g = untracked(|| Guarded::new(v));
            exercise(cx, &mut g.v, &mut |_| Some((at, 13 * size_of::<E>())), 13, true);
        }
        #[cfg(feature = "alloc")]
        5 => boxed::<E, [E; 17]>(cx, 17),
        #[cfg(feature = "alloc")]
        6 => boxed::<E, UninitBuffer<[E; 9], E>>(cx, 9),
        _ => buffer::<E, [E; 7]>(cx, 7),
    }
    mon::check_errors("the end");
}

/// A buffer around a value, and clones of buffers
fn filled<E: Pod, A: Pod>(cx: &mut Cx, v: [usize; 3]) {
    let a = [value::<E>(v[0]), value(v[1]), value(v[2])];
    let st = UninitBuffer::<[E; 3], A>::new(a);
    let p = st.as_ptr() as *const E;
    for (i, k) in v.iter().enumerate() {
        check!(is_value(unsafe { &*p.add(i) }, *k), "item {} of a buffer made around a value", i);
    }
    let how = cx.rng.below(3);
    let n = cx.rng.below(4);
    cx.log(|| format!("buffer around {} {}-byte elements, way {}", n, size_of::<E>(), how));
    let cap = fit::<E>(size_of::<UninitBuffer<[E; 3], A>>());
    match how {
        0 => {
            let mut w = want_ok(run(|| unsafe { GenericVec::<E, _>::from_raw_parts(n, st) }), "from_raw_parts");
            contents(&w, &v[..n], "of a buffer made around a value");
            let base = w.storage() as *const _ as usize;
            look(&mut w, Some((base, size_of::<UninitBuffer<[E; 3], A>>())), cap, n, "of a buffer made around a value");
        }
        1 => {
            let w = want_ok(run(|| GenericVec::<E, _>::with_storage(st)), "with_storage");
            let mut g = untracked(|| Guarded::new(w));
            exercise(cx, &mut g.v, &mut |v| Some((v.storage() as *const _ as usize, size_of_val(v.storage()))), cap, true);
            if let Some(e) = g.check() {
                vharness::violate!("{}", e)
            }
        }
        _ => {
            let w = want_ok(run(|| GenericVec::<E, _>::with_storage(st.clone())), "with_storage of a clone");
            let mut g = untracked(|| Guarded::new(w));
            exercise(cx, &mut g.v, &mut |v| Some((v.storage() as *const _ as usize, size_of_val(v.storage()))), cap, true);
            for (i, k) in v.iter().enumerate() {
                check!(is_value(unsafe { &*(st.as_ptr() as *const E).add(i) }, *k), "item {} of a buffer after its clone was used", i);
            }
        }
    }
    cx.nontrivial = true;
    mon::check_errors("the end");
}

/// `ZeroSized<E>` by itself
fn zeros<E: Pod>(cx: &mut Cx) {
    use generic_vec::raw::ZeroSized;
    check!(ZeroSized::<u8>::TRY_NEW.is_none() && ZeroSized::<[u64; 2]>::TRY_NEW.is_none(), "TRY_NEW for elements with a size");
    let st = match ZeroSized::<E>::TRY_NEW {
        Some(st) => st,
        None => vharness::violate!("TRY_NEW is None for {}", std::any::type_name::<E>()),
    };
    let how = cx.rng.below(3);
    cx.log(|| format!("a storage of zero-sized elements, way {}", how));
    #[allow(clippy::clone_on_copy)]
    let mut st = if how == 0 { st.clone() } else { st };
    let k = cx.rng.pick(&[0, 1, 1000, usize::MAX / 2, usize::MAX]);
    check!(Storage::<E>::capacity(&st) >= k, "capacity of a storage of zero-sized elements");
    check!(Storage::<E>::try_reserve(&mut st, k), "try_reserve({}) of a storage of zero-sized elements", k);
    want_ok(run(|| Storage::<E>::reserve(&mut st, k)), "reserve of a storage of zero-sized elements");
    check!(<ZeroSized<E> as Storage<E>>::IS_ALIGNED, "IS_ALIGNED of a storage of zero-sized elements");
    let r = run(|| match how {
        1 => GenericVec::<E, ZeroSized<E>>::with_capacity(k),
        2 => GenericVec::<E, ZeroSized<E>>::new(),
        _ => GenericVec::<E, ZeroSized<E>>::with_storage(st),
    });
    let mut v = want_ok(r, "making a vector of zero-sized elements");
    exercise(cx, &mut v, &mut |_| None, usize::MAX, false);
    mon::check_errors("the end");
}

fn filleds<E: Pod>(cx: &mut Cx) {
    let v = [cx.rng.below(200), cx.rng.below(200), cx.rng.below(200)];
    match cx.rng.below(3) {
        0 => filled::<E, u8>(cx, v),
        1 => filled::<E, u64>(cx, v),
        _ => filled::<E, Al32>(cx, v),
    }
}

#[cfg(feature = "alloc")]
fn boxed<E: Pod, S: StorageWithCapacity<E>>(cx: &mut Cx, cap: usize) {
    check!(<Box<S> as Storage<E>>::IS_ALIGNED, "IS_ALIGNED of a box");
    let how = cx.rng.below(3);
    let k = cx.rng.below(cap + 1);
    cx.log(|| format!("box of a storage of capacity {}, way {}", cap, how));
    let r = run(|| match how {
        0 => GenericVec::<E, Box<S>>::with_storage(Box::new(S::default())),
        1 => GenericVec::<E, Box<S>>::with_capacity(k),
        _ => unsafe { GenericVec::<E, Box<S>>::from_raw_parts(0, <Box<S> as StorageWithCapacity<E>>::with_capacity(k)) },
    });
    let mut v = want_ok(r, "making a vector of a boxed storage");
    let at = &**v.storage() as *const S as usize;
    exercise(cx, &mut v, &mut |_| Some((at, size_of::<S>())), cap, true);
    let r = run(|| GenericVec::<E, Box<S>>::with_capacity(cap + 1 + k));
    want_panic(cx, r.map_unit(), "with_capacity past the capacity of a boxed storage");
}

/// `Heap<U>`
#[cfg(feature = "alloc")]
fn heaps<E: Pod, U: Pod>(cx: &mut Cx) {
    use generic_vec::raw::Heap;
    let ok = align_of::<U>() >= align_of::<E>();
    check_eq!(aligned::<E, Heap<U>>(), ok || aligned::<E, Heap<U>>() && size_of::<E>() == 0, "IS_ALIGNED of a heap");
    let k = match cx.rng.below(4) {
        0 => 0,
        1 => 1,
        _ => cx.rng.below(200),
    };
    let never = size_of::<U>() == 0 && size_of::<E>() > 0;
    let how = cx.rng.below(3);
    cx.log(|| format!("heap of {}-byte items aligned to {} for {}, way {}", size_of::<U>(), align_of::<U>(), k, how));
    let k = if how == 0 || (never && how == 2) { 0 } else { k };
    let r = run(|| match how {
        0 => GenericVec::<E, Heap<U>>::default(),
        1 => GenericVec::<E, Heap<U>>::with_capacity(k),
        _ => GenericVec::<E, Heap<U>>::with_storage(<Heap<U> as StorageWithCapacity<E>>::with_capacity(k)),
    });
    if !ok || (never && k > 0) {
        return want_panic(cx, r.map_unit(), "making a vector of a heap that cannot hold the elements")
    }
    let mut v = want_ok(r, "making a vector on the heap");
    check!(v.capacity() >= k, "capacity {} of a vector made for {}", v.capacity(), k);
    // the number of elements is what fits into the block
    let block = |v: &GenericVec<E, Heap<U>>| alloc::block_at(v.as_ptr()).map_or(0, |b| b.0);
    let mut mem = |v: &GenericVec<E, Heap<U>>| Some((v.as_ptr() as usize, block(v)));
    if size_of::<E>() > 0 && size_of::<U>() > 0 {
        check_eq!(block(&v) % size_of::<U>(), 0, "size of the block of a heap of {}-byte items", size_of::<U>());
    }
    let cap = fit::<E>(block(&v));
    exercise(cx, &mut v, &mut mem, cap, never);
    if never {
        check_eq!(v.try_reserve(1), false, "try_reserve on a heap of zero-sized items");
        return
    }
    // and grow
    let n = v.len();
    let c: Vec<u8> = untracked(|| unsafe { core::slice::from_raw_parts(v.as_ptr() as *const u8, n * size_of::<E>()).to_vec() });
    let more = v.capacity().min(1000) - n.min(1000) + 1 + cx.rng.below(60);
    let r = run(|| v.reserve(more));
    want_ok(r, "reserve");
    check!(v.capacity() >= n.saturating_add(more), "capacity {} after reserve({}) at length {}", v.capacity(), more, n);
    let cap = fit::<E>(block(&v));
    let at = mem(&v);
    look(&mut v, at, cap, n, "after growing");
    check_eq!(unsafe { core::slice::from_raw_parts(v.as_ptr() as *const u8, n * size_of::<E>()) }, &c[..], "contents after growing");
    untracked(|| drop(c));
    alloc::check_block(v.as_ptr());
    // apart and together
    let (len, heap) = v.into_raw_parts();
    let (p, items) = heap.into_raw_parts();
    let v = unsafe { GenericVec::<E, Heap<U>>::from_raw_parts(len, Heap::from_raw_parts(p, items)) };
    check_eq!(v.len(), n, "length after into_raw_parts and from_raw_parts");
    check_eq!(v.capacity(), cap, "capacity after into_raw_parts and from_raw_parts");
    check_eq!(v.as_ptr() as usize, p.as_ptr() as usize, "pointer after into_raw_parts and from_raw_parts");
}

fn pair<E: Pod, U: Pod>(cx: &mut Cx) {
    match cx.rng.below(3) {
        0 => slices::<E, U>(cx),
        1 => buffers::<E, U>(cx),
        _ => {
            #[cfg(feature = "alloc")]
            heaps::<E, U>(cx);
            #[cfg(not(feature = "alloc"))]
            slices::<E, U>(cx)
        }
    }
    mon::check_errors("the end");
}

/// Storages whose items are not aligned enough
fn misfit<E: Pod, U: Pod>(cx: &mut Cx) {
    assert!(align_of::<U>() < align_of::<E>());
    let n = cx.rng.below(40);
    let how = cx.rng.below(11);
    cx.hash(how as u64 * 64 + n as u64);
    cx.nontrivial = true;
    cx.log(|| format!("misfit {}, {} items", how, n));
    // even if this one happens to be aligned
    let al = if cx.rng.chance(1, 2) { align_of::<E>() } else { align_of::<U>() };
    let z = Zone::new(n * size_of::<U>(), al);
    let s: &mut [MaybeUninit<U>] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut MaybeUninit<U>, n) };
    let mut st = UninitSlice::from_mut(s);
    let r = match how {
        0 => run(|| drop(GenericVec::<E, _>::with_storage(st))),
        1 => run(|| drop(GenericVec::<E, _>::with_storage(&mut st))),
        2 => run(|| drop(unsafe { GenericVec::<E, _>::from_raw_parts(0, st) })),
        3 => run(|| drop(GenericVec::<E, UninitBuffer<[U; 8]>>::default())),
        4 => run(|| drop(GenericVec::<E, UninitBuffer<[U; 8], U>>::with_capacity(n.min(2)))),
        5 => run(|| drop(GenericVec::<E, UninitBuffer<[u8; 70], U>>::with_storage(UninitBuffer::uninit()))),
        6 => run(|| drop(unsafe { GenericVec::<E, UninitBuffer<[u8; 70], U>>::from_raw_parts(0, UninitBuffer::default()) })),
        #[cfg(feature = "alloc")]
        7 => run(|| drop(GenericVec::<E, generic_vec::raw::Heap<U>>::default())),
        #[cfg(feature = "alloc")]
        8 => run(|| drop(GenericVec::<E, generic_vec::raw::Heap<U>>::with_capacity(n))),
        #[cfg(feature = "alloc")]
        9 => run(|| drop(GenericVec::<E, Box<UninitBuffer<[U; 8], U>>>::default())),
        _ => run(|| drop(generic_vec::TypeVec::<E, [u8; 70], U>::with_align())),
    };
    want_panic(cx, r, "making a vector of a misaligned storage");
    check!(!aligned::<E, &mut UninitSlice<U>>() && !aligned::<E, UninitBuffer<[U; 8], U>>() && !aligned::<E, UninitBuffer<[U; 8]>>(), "IS_ALIGNED of misaligned storages");
    #[cfg(feature = "alloc")]
    check!(!aligned::<E, generic_vec::raw::Heap<U>>() && !aligned::<E, Box<UninitSlice<U>>>(), "IS_ALIGNED of misaligned storages");
    if let Some(e) = z.check() {
        vharness::violate!("{}", e)
    }
    mon::check_errors("the end");
}

macro_rules! pairs {
    ($f:ident: $($E:ty, $U:ty;)*) => {{
        let mut v: Vec<Group> = Vec::new();
        $(v.push((concat!(stringify!($E), " in ", stringify!($U)), 1, $f::<$E, $U>));)*
        v
    }};
}

fn main() {
    let _ = Al0([]).0;
    let _ = Al32([0; 64]).0;
    let mut g = pairs!(pair:
        u8, u8; u8, [u16; 3]; u8, u32; u8, Al32; u8, ();
        [u8; 3], u8; [u8; 3], u16; [u8; 3], [u32; 7]; [u8; 3], [u8; 17];
        u16, u16; u16, [u16; 3]; u16, u64; u16, [u64; 0];
        u32, u32; u32, [u32; 7]; u32, u64; u32, Al32;
        [u32; 3], u32; [u32; 3], u64; [u32; 3], [u32; 7]; [u32; 3], [u64; 0];
        u64, u64; u64, Al32; u64, Al0;
        [u8; 64], u8; [u8; 64], u64; [u8; 17], [u8; 3]; [u64; 2], u64;
        Al32, Al32; Al0, Al32; (), u8; [u64; 0], u64;
    );
    let bad = pairs!(misfit:
        u16, u8; u16, [u8; 3]; u16, (); u32, u16; u32, [u8; 17]; u32, [u16; 3]; [u32; 3], [u16; 3]; u64, u32; u64, u8;
        u128, u32; Al32, u64; Al32, u128; Al32, (); Al32, [u64; 0]; Al0, u64; [u64; 0], u8;
    );
    g.extend(bad);
    g.push(("buffers around u8", 1, filleds::<u8>));
    g.push(("buffers around [u16; 3]", 1, filleds::<[u16; 3]>));
    g.push(("buffers around u32", 1, filleds::<u32>));
    g.push(("buffers around [u64; 2]", 1, filleds::<[u64; 2]>));
    g.push(("ZeroSized of ()", 1, zeros::<()>));
    g.push(("ZeroSized of [u64; 0]", 1, zeros::<[u64; 0]>));
    g.push(("ZeroSized of Al0", 1, zeros::<Al0>));
    g.push(("arrays of u8", 1, arrays::<u8>));
    g.push(("arrays of u16", 1, arrays::<u16>));
    g.push(("arrays of [u32; 3]", 1, arrays::<[u32; 3]>));
    g.push(("arrays of u64", 1, arrays::<u64>));
    g.push(("arrays of u128", 1, arrays::<u128>));
    drive::main("C17", g, 20000)
}
