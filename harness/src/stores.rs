//! Ways to make a vector, with guard zones around the memory it may use.

use crate::elem::{CopyElem, Elem};
use crate::rng::Rng;
use core::mem::{align_of, size_of, MaybeUninit};
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::GenericVec;
use std::alloc::Layout;
use std::marker::PhantomData;

pub const CANARY: u8 = 0xC7;
const ZONE: usize = 64;

/// Guarded memory for `bytes` bytes
pub struct Zone {
    base: *mut u8,
    layout: Layout,
    off: usize,
    bytes: usize,
}

impl Zone {
    pub fn new(bytes: usize, align: usize) -> Self {
        let off = ZONE.max(align);
        let layout = Layout::from_size_align(off + bytes + ZONE, align).unwrap();
        unsafe {
            let base = std::alloc::alloc(layout);
            if base.is_null() {
                std::alloc::handle_alloc_error(layout)
            }
            core::ptr::write_bytes(base, CANARY, off);
            core::ptr::write_bytes(base.add(off), 0x6B, bytes);
            core::ptr::write_bytes(base.add(off + bytes), CANARY, ZONE);
            Zone { base, layout, off, bytes }
        }
    }
    pub fn ptr(&self) -> *mut u8 {
        unsafe { self.base.add(self.off) }
    }
    pub fn bytes(&self) -> usize {
        self.bytes
    }
    pub fn check(&self) -> Option<String> {
        unsafe {
            for i in 0..self.off {
                if *self.base.add(i) != CANARY {
                    return Some(format!("write {} bytes before the start of the storage", self.off - i))
                }
            }
            for i in 0..ZONE {
                if *self.base.add(self.off + self.bytes + i) != CANARY {
                    return Some(format!("write {} bytes past the end of the storage", i + 1))
                }
            }
        }
        None
    }
}

impl Drop for Zone {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, self.layout) }
    }
}

/// A vector with canaries around it, for storages inside of the vector itself
#[repr(C, align(64))]
pub struct Guarded<V> {
    pre: [u64; 8],
    pub v: V,
    post: [u64; 8],
}
const WORD: u64 = 0xC7C7_C7C7_C7C7_C7C7;
impl<V> Guarded<V> {
    pub fn new(v: V) -> Box<Self> {
        Box::new(Guarded { pre: [WORD; 8], v, post: [WORD; 8] })
    }
    pub fn check(&self) -> Option<String> {
        if self.pre != [WORD; 8] {
            Some("write before the start of the vector".to_string())
        } else if self.post != [WORD; 8] {
            Some("write past the end of the vector".to_string())
        } else {
            None
        }
    }
}

/// How a storage behaves when it runs out of space
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Growth {
    /// never grows; the capacity
    Fixed(usize),
    /// grows on demand
    Heap,
}

pub trait Store<E: Elem>: Sized {
    type S: Storage<E>;
    fn name() -> String;
    fn new() -> Self;
    /// A capacity to ask for
    fn pick(rng: &mut Rng) -> usize;
    /// What a vector made for `cap` should do
    fn growth(cap: usize) -> Growth;
    /// Makes an empty vector
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S>;
    fn check(&self) -> Option<String> {
        None
    }
}

/// the usual capacity of a fixed storage
pub fn pick_cap(rng: &mut Rng) -> usize {
    if !cfg!(miri) && rng.chance(1, 150) {
        return rng.range(321, 3000)
    }
    match rng.below(20) {
        0 => 0,
        1 => 1,
        2..=9 => rng.range(2, 8),
        10..=16 => rng.range(9, 24),
        17 | 18 => rng.range(25, 80),
        _ => rng.range(81, 320),
    }
}

/// zero-sized elements never run out of space before `usize::MAX`
fn fixed<E: Elem>(n: usize) -> Growth {
    if E::ZST {
        Growth::Fixed(usize::MAX)
    } else {
        Growth::Fixed(n)
    }
}

#[cfg(feature = "alloc")]
pub struct HeapK;
#[cfg(feature = "alloc")]
impl<E: Elem> Store<E> for HeapK {
    type S = generic_vec::raw::Heap<E>;
    fn name() -> String {
        "heap".into()
    }
    fn new() -> Self {
        HeapK
    }
    fn pick(rng: &mut Rng) -> usize {
        if rng.chance(2, 3) {
            0
        } else {
            pick_cap(rng)
        }
    }
    fn growth(_: usize) -> Growth {
        if E::ZST {
            Growth::Fixed(usize::MAX)
        } else {
            Growth::Heap
        }
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        if cap == 0 {
            generic_vec::HeapVec::<E>::new()
        } else {
            GenericVec::with_capacity(cap)
        }
    }
}

/// `&mut [MaybeUninit<E>]` between guard zones
pub struct SliceK(Option<Zone>);
impl<E: Elem> Store<E> for SliceK {
    type S = &'static mut UninitSlice<E>;
    fn name() -> String {
        "slice".into()
    }
    fn new() -> Self {
        SliceK(None)
    }
    fn pick(rng: &mut Rng) -> usize {
        pick_cap(rng)
    }
    fn growth(cap: usize) -> Growth {
        fixed::<E>(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        let z = Zone::new(cap * size_of::<E>(), align_of::<E>());
        let s: &'static mut [MaybeUninit<E>] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut _, cap) };
        self.0 = Some(z);
        generic_vec::SliceVec::new(s)
    }
    fn check(&self) -> Option<String> {
        self.0.as_ref().and_then(|z| z.check())
    }
}

/// a slice of another type
pub struct AlienSliceK<U>(Option<Zone>, PhantomData<U>);
impl<E: Elem, U: 'static> Store<E> for AlienSliceK<U> {
    type S = &'static mut UninitSlice<U>;
    fn name() -> String {
        format!("slice of {}-byte items", size_of::<U>())
    }
    fn new() -> Self {
        AlienSliceK(None, PhantomData)
    }
    fn pick(rng: &mut Rng) -> usize {
        pick_cap(rng)
    }
    fn growth(cap: usize) -> Growth {
        // `build` asks for a buffer for `cap` elements and a little more
        fixed::<E>((cap * size_of::<E>() + 2) / size_of::<U>() * size_of::<U>() / size_of::<E>().max(1))
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        let n = (cap * size_of::<E>() + 2) / size_of::<U>();
        let z = Zone::new(n * size_of::<U>(), align_of::<U>());
        let s: &'static mut [MaybeUninit<U>] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut _, n) };
        self.0 = Some(z);
        GenericVec::with_storage(UninitSlice::from_mut(s))
    }
    fn check(&self) -> Option<String> {
        self.0.as_ref().and_then(|z| z.check())
    }
}

/// `TypeVec<E, [E; N]>`
pub struct ArrK<const N: usize>;
impl<E: Elem, const N: usize> Store<E> for ArrK<N> {
    type S = UninitBuffer<[E; N], E>;
    fn name() -> String {
        format!("array of {}", N)
    }
    fn new() -> Self {
        ArrK
    }
    fn pick(_: &mut Rng) -> usize {
        N
    }
    fn growth(_: usize) -> Growth {
        fixed::<E>(N)
    }
    fn build(&mut self, _: usize) -> GenericVec<E, Self::S> {
        generic_vec::TypeVec::<E, [E; N]>::new()
    }
}

/// `TypeVec<E, [u8; N], u128>`: a byte buffer aligned to 16, rounded up to 16 bytes
pub struct BytesK<const N: usize>;
impl<E: Elem, const N: usize> Store<E> for BytesK<N> {
    type S = UninitBuffer<[u8; N], u128>;
    fn name() -> String {
        format!("buffer of {} bytes", N)
    }
    fn new() -> Self {
        BytesK
    }
    fn pick(_: &mut Rng) -> usize {
        N / size_of::<E>().max(1)
    }
    fn growth(_: usize) -> Growth {
        let al = align_of::<u128>();
        fixed::<E>((N + al - 1) / al * al / size_of::<E>().max(1))
    }
    fn build(&mut self, _: usize) -> GenericVec<E, Self::S> {
        generic_vec::TypeVec::<E, [u8; N], u128>::with_align()
    }
}

/// A storage of the harness: grows to exactly what is asked for, and always moves
pub struct MonStore<E> {
    zone: Zone,
    cap: usize,
    mark: PhantomData<E>,
}
impl<E> MonStore<E> {
    pub fn new(cap: usize) -> Self {
        let bytes = cap.checked_mul(size_of::<E>()).filter(|&b| b <= 1 << 30).expect("MonStore: out of memory");
        MonStore { zone: Zone::new(bytes, align_of::<E>()), cap, mark: PhantomData }
    }
    fn grow(&mut self, cap: usize) {
        let new = Self::new(cap);
        if let Some(e) = self.zone.check() {
            crate::violate!("{}", e)
        }
        unsafe {
            core::ptr::copy_nonoverlapping(self.zone.ptr(), new.zone.ptr(), self.zone.bytes());
            core::ptr::write_bytes(self.zone.ptr(), 0xDD, self.zone.bytes());
        }
        *self = new;
    }
    pub fn check(&self) -> Option<String> {
        self.zone.check()
    }
}
impl<E> Default for MonStore<E> {
    fn default() -> Self {
        Self::new(0)
    }
}
unsafe impl<E> Storage<E> for MonStore<E> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize {
        self.cap
    }
    fn as_ptr(&self) -> *const E {
        self.zone.ptr() as *const E
    }
    fn as_mut_ptr(&mut self) -> *mut E {
        self.zone.ptr() as *mut E
    }
    fn reserve(&mut self, n: usize) {
        if n > self.cap {
            self.grow(n)
        }
    }
    fn try_reserve(&mut self, n: usize) -> bool {
        if n > self.cap {
            if n.checked_mul(size_of::<E>()).map_or(true, |b| b > 1 << 30) {
                return false
            }
            self.grow(n)
        }
        true
    }
}
unsafe impl<E> StorageWithCapacity<E> for MonStore<E> {
    fn with_capacity(cap: usize) -> Self {
        Self::new(cap)
    }
}

pub struct ExactK;
impl<E: Elem> Store<E> for ExactK {
    type S = MonStore<E>;
    fn name() -> String {
        "custom exact".into()
    }
    fn new() -> Self {
        ExactK
    }
    fn pick(rng: &mut Rng) -> usize {
        if rng.chance(1, 2) {
            0
        } else {
            pick_cap(rng)
        }
    }
    fn growth(_: usize) -> Growth {
        if E::ZST {
            Growth::Fixed(usize::MAX)
        } else {
            Growth::Heap
        }
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        GenericVec::with_storage(MonStore::new(cap))
    }
}

/// `&mut MonStore<E>`
pub struct MutK<E>(Option<Box<MonStore<E>>>);
impl<E: Elem> Store<E> for MutK<E> {
    type S = &'static mut MonStore<E>;
    fn name() -> String {
        "&mut custom exact".into()
    }
    fn new() -> Self {
        MutK(None)
    }
    fn pick(rng: &mut Rng) -> usize {
        <ExactK as Store<E>>::pick(rng)
    }
    fn growth(cap: usize) -> Growth {
        <ExactK as Store<E>>::growth(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        self.0 = Some(Box::new(MonStore::new(cap)));
        let s: *mut MonStore<E> = &mut **self.0.as_mut().unwrap();
        GenericVec::with_storage(unsafe { &mut *s })
    }
}

/// `Box<TypeVec's storage>`
#[cfg(feature = "alloc")]
pub struct BoxK<const N: usize>;
#[cfg(feature = "alloc")]
impl<E: Elem, const N: usize> Store<E> for BoxK<N> {
    type S = Box<UninitBuffer<[E; N], E>>;
    fn name() -> String {
        format!("boxed array of {}", N)
    }
    fn new() -> Self {
        BoxK
    }
    fn pick(_: &mut Rng) -> usize {
        N
    }
    fn growth(_: usize) -> Growth {
        fixed::<E>(N)
    }
    fn build(&mut self, _: usize) -> GenericVec<E, Self::S> {
        GenericVec::with_storage(Box::new(UninitBuffer::uninit()))
    }
}

/// `Box<UninitSlice<E>>`
#[cfg(feature = "alloc")]
pub struct BoxSliceK;
#[cfg(feature = "alloc")]
impl<E: Elem> Store<E> for BoxSliceK {
    type S = Box<UninitSlice<E>>;
    fn name() -> String {
        "boxed slice".into()
    }
    fn new() -> Self {
        BoxSliceK
    }
    fn pick(rng: &mut Rng) -> usize {
        pick_cap(rng)
    }
    fn growth(cap: usize) -> Growth {
        fixed::<E>(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        let mut v: Vec<MaybeUninit<E>> = Vec::with_capacity(cap);
        unsafe { v.set_len(cap) }
        let b: Box<[MaybeUninit<E>]> = v.into_boxed_slice();
        // `UninitSlice<E>` is a transparent wrapper of `[MaybeUninit<E>]`
        GenericVec::with_storage(unsafe { Box::from_raw(Box::into_raw(b) as *mut UninitSlice<E>) })
    }
}

/// `Heap<U>`, for elements of another type
#[cfg(feature = "alloc")]
pub struct AlienHeapK<U>(PhantomData<U>);
#[cfg(feature = "alloc")]
impl<E: Elem, U: 'static> Store<E> for AlienHeapK<U> {
    type S = generic_vec::raw::Heap<U>;
    fn name() -> String {
        format!("heap of {}-byte items", size_of::<U>())
    }
    fn new() -> Self {
        AlienHeapK(PhantomData)
    }
    fn pick(rng: &mut Rng) -> usize {
        <HeapK as Store<E>>::pick(rng)
    }
    fn growth(cap: usize) -> Growth {
        <HeapK as Store<E>>::growth(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        if cap == 0 {
            GenericVec::default()
        } else {
            GenericVec::with_capacity(cap)
        }
    }
}

/// `InitSliceVec`
pub struct InitSliceK(Option<Zone>);
impl<E: CopyElem> Store<E> for InitSliceK {
    type S = &'static mut [E];
    fn name() -> String {
        "init slice".into()
    }
    fn new() -> Self {
        InitSliceK(None)
    }
    fn pick(rng: &mut Rng) -> usize {
        pick_cap(rng)
    }
    fn growth(cap: usize) -> Growth {
        fixed::<E>(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        let z = Zone::new(cap * size_of::<E>(), align_of::<E>());
        let s: &'static mut [E] = unsafe { core::slice::from_raw_parts_mut(z.ptr() as *mut E, cap) };
        self.0 = Some(z);
        let mut v = generic_vec::InitSliceVec::new(s);
        v.set_len(0);
        v
    }
    fn check(&self) -> Option<String> {
        self.0.as_ref().and_then(|z| z.check())
    }
}

/// `InitArrayVec`
macro_rules! init_arr {
    ($($K:ident $N:literal;)*) => {$(
        pub struct $K;
        impl<E: CopyElem> Store<E> for $K {
            type S = [E; $N];
            fn name() -> String {
                format!("init array of {}", $N)
            }
            fn new() -> Self {
                $K
            }
            fn pick(_: &mut Rng) -> usize {
                $N
            }
            fn growth(_: usize) -> Growth {
                fixed::<E>($N)
            }
            fn build(&mut self, _: usize) -> GenericVec<E, Self::S> {
                GenericVec::with_storage([E::default(); $N])
            }
        }
    )*};
}
init_arr! { InitArr1 1; InitArr5 5; InitArr16 16; InitArr32 32; }

pub struct ZsK;
impl<E: Elem> Store<E> for ZsK {
    type S = ZeroSized<E>;
    fn name() -> String {
        "zero-sized".into()
    }
    fn new() -> Self {
        ZsK
    }
    fn pick(_: &mut Rng) -> usize {
        0
    }
    fn growth(_: usize) -> Growth {
        Growth::Fixed(usize::MAX)
    }
    fn build(&mut self, _: usize) -> GenericVec<E, Self::S> {
        generic_vec::ZSVec::new()
    }
}
impl<V> Guarded<V> {
    pub fn into_inner(self) -> V {
        self.v
    }
}
