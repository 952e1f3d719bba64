//! A heap vector with an allocator of its own, which records all that it is asked for
use core::mem::{align_of, size_of};
use core::ptr::NonNull;
use generic_vec::raw::Heap;
use generic_vec::{GenericVec, HeapVec};
use std::alloc::{AllocError, Allocator, GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use crate::alloc::{block_at, untracked};
use crate::cx::{items, refill, show, Cx, Sub};
use crate::elem::*;
use crate::eng::{self, want_ok, want_panic, Op};
use crate::mon::{self, run, tick, End, Kind};
use crate::own::{self, same};
use crate::rng::Rng;
use crate::stores::*;
use crate::iters;

const RED: usize = 64;
const MARK: u8 = 0xE3;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    /// sizes with which it may be given back
    lo: usize,
    hi: usize,
    align: usize,
}

/// One allocator
pub struct Inner {
    id: usize,
    /// hands out more than was asked for
    excess: bool,
    blocks: RefCell<Vec<Block>>,
    handles: Cell<isize>,
    made: Cell<u64>,
    requests: Cell<u64>,
    returned: Cell<u64>,
    /// 0: never; otherwise, counts down
    fail_in: Cell<u64>,
    /// fail by panicking
    panics: Cell<bool>,
    failed: Cell<u64>,
}

thread_local! {
    static REG: RefCell<Vec<Rc<Inner>>> = RefCell::new(Vec::new());
    static ERR: RefCell<Option<String>> = RefCell::new(None);
}

fn error(f: impl FnOnce() -> String) {
    untracked(|| {
        ERR.with(|e| {
            let mut e = e.borrow_mut();
            if e.is_none() {
                *e = Some(f())
            }
        })
    })
}

fn errors(what: &str) {
    if let Some(e) = ERR.with(|e| e.borrow_mut().take()) {
        violate!("{} [{}]", e, what)
    }
    mon::check_errors(what)
}

fn registry() -> Vec<Rc<Inner>> {
    untracked(|| REG.with(|r| r.borrow().clone()))
}
fn newest() -> Rc<Inner> {
    REG.with(|r| r.borrow().last().unwrap().clone())
}

impl Inner {
    fn new(excess: bool) -> Rc<Inner> {
        untracked(|| {
            REG.with(|r| {
                let mut r = r.borrow_mut();
                let i = Rc::new(Inner {
                    id: r.len(),
                    excess,
                    blocks: RefCell::new(Vec::with_capacity(8)),
                    handles: Cell::new(0),
                    made: Cell::new(0),
                    requests: Cell::new(0),
                    returned: Cell::new(0),
                    fail_in: Cell::new(0),
                    panics: Cell::new(false),
                    failed: Cell::new(0),
                });
                r.push(i.clone());
                i
            })
        })
    }
    fn open(&self) {
        self.made.set(self.made.get() + 1);
        self.handles.set(self.handles.get() + 1);
    }
    fn close(&self) {
        self.handles.set(self.handles.get() - 1);
        if self.handles.get() < 0 {
            error(|| format!("allocator {} was dropped twice", self.id))
        } else if self.handles.get() == 0 && !self.blocks.borrow().is_empty() {
            error(|| format!("allocator {} was dropped before {} of its blocks were returned", self.id, self.blocks.borrow().len()))
        }
    }
    fn get(&self, layout: Layout) -> Result<NonNull<[u8]>, AllocError> {
        self.requests.set(self.requests.get() + 1);
        if self.handles.get() <= 0 {
            error(|| format!("request to allocator {}, which was dropped", self.id))
        }
        if layout.size() == 0 {
            error(|| format!("zero-sized request to allocator {}", self.id))
        }
        match self.fail_in.get() {
            0 => {}
            1 => {
                self.failed.set(self.failed.get() + 1);
                if self.panics.get() {
                    tick(Kind::Other);
                    panic!("the allocator panics")
                }
                return Err(AllocError)
            }
            n => self.fail_in.set(n - 1),
        }
        if layout.size() > 1 << 30 {
            return Err(AllocError)
        }
        let more = if self.excess { 1 + layout.size() / 3 } else { 0 };
        let hi = layout.size() + more;
        unsafe {
            let off = RED.max(layout.align());
            let base = System.alloc(Layout::from_size_align(off + hi + RED, layout.align().max(16)).unwrap());
            if base.is_null() {
                return Err(AllocError)
            }
            core::ptr::write_bytes(base, MARK, off);
            core::ptr::write_bytes(base.add(off), 0x5A, hi);
            core::ptr::write_bytes(base.add(off + hi), MARK, RED);
            let ptr = base.add(off);
            let b = Block { ptr: ptr as usize, lo: layout.size(), hi, align: layout.align() };
            untracked(|| self.blocks.borrow_mut().push(b));
            Ok(NonNull::new_unchecked(core::ptr::slice_from_raw_parts_mut(ptr, hi)))
        }
    }
    fn find(&self, ptr: usize, layout: Layout, what: &str) -> Option<Block> {
        if self.handles.get() <= 0 {
            error(|| format!("{} at allocator {}, which was dropped", what, self.id))
        }
        let b = self.blocks.borrow().iter().find(|b| b.ptr == ptr).cloned();
        match b {
            None => {
                error(|| format!("{} of a block that allocator {} does not have ({} bytes)", what, self.id, layout.size()));
                None
            }
            Some(b) => {
                if layout.size() < b.lo || layout.size() > b.hi {
                    error(|| format!("{} with size {} of a block made for {} to {} bytes", what, layout.size(), b.lo, b.hi))
                }
                if layout.align() != b.align {
                    error(|| format!("{} with alignment {} of a block aligned to {}", what, layout.align(), b.align))
                }
                Some(b)
            }
        }
    }
    unsafe fn put(&self, b: Block) {
        self.returned.set(self.returned.get() + 1);
        self.blocks.borrow_mut().retain(|x| x.ptr != b.ptr);
        self.zones(b);
        let off = RED.max(b.align);
        core::ptr::write_bytes(b.ptr as *mut u8, 0xDD, b.hi);
        System.dealloc((b.ptr as *mut u8).sub(off), Layout::from_size_align(off + b.hi + RED, b.align.max(16)).unwrap())
    }
    unsafe fn zones(&self, b: Block) {
        let p = b.ptr as *mut u8;
        for i in 0..RED {
            if *p.sub(i + 1) != MARK {
                return error(|| format!("write {} bytes before a block of allocator {}", i + 1, self.id))
            }
            if *p.add(b.hi + i) != MARK {
                return error(|| format!("write {} bytes past a block of {} bytes of allocator {}", i + 1, b.hi, self.id))
            }
        }
    }
    fn all_zones(&self) {
        let bs = self.blocks.borrow();
        for b in bs.iter() {
            unsafe { self.zones(*b) }
        }
    }
}

pub trait Pad: Default + 'static {
    const NAME: &'static str;
}
impl Pad for () {
    const NAME: &'static str = "small allocator";
}
#[derive(Default)]
#[repr(align(64))]
pub struct Wide(u8, [u64; 5]);
impl Pad for Wide {
    const NAME: &'static str = "allocator aligned to 64";
}

/// The only handle of an allocator
pub struct Al<P> {
    pad: P,
    inner: Rc<Inner>,
}
impl<P: Pad> Al<P> {
    fn fresh(excess: bool) -> Self {
        let inner = Inner::new(excess);
        inner.open();
        Al { pad: P::default(), inner }
    }
}
impl<P: Pad> Default for Al<P> {
    fn default() -> Self {
        // every other one hands out more than it was asked for
        let n = REG.with(|r| r.borrow().len());
        Self::fresh(n % 2 == 1)
    }
}
impl<P> Drop for Al<P> {
    fn drop(&mut self) {
        self.inner.close();
        let _ = &self.pad;
    }
}
unsafe impl<P> Allocator for Al<P> {
    fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, AllocError> {
        self.inner.get(layout)
    }
    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
        if layout.size() == 0 {
            error(|| format!("a zero-sized block is returned to allocator {}", self.inner.id))
        }
        if let Some(b) = self.inner.find(ptr.as_ptr() as usize, layout, "return") {
            self.inner.put(b)
        }
    }
    unsafe fn grow(&self, ptr: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
        if new.size() < old.size() {
            error(|| format!("grow from {} to {} bytes", old.size(), new.size()))
        }
        let b = match self.inner.find(ptr.as_ptr() as usize, old, "resizing") {
            None => return Err(AllocError),
            Some(b) => b,
        };
        let n = self.inner.get(new)?;
        core::ptr::copy_nonoverlapping(b.ptr as *const u8, n.as_ptr() as *mut u8, old.size().min(new.size()).min(b.hi));
        self.inner.put(b);
        Ok(n)
    }
    unsafe fn shrink(&self, ptr: NonNull<u8>, old: Layout, new: Layout) -> Result<NonNull<[u8]>, AllocError> {
        let b = match self.inner.find(ptr.as_ptr() as usize, old, "resizing") {
            None => return Err(AllocError),
            Some(b) => b,
        };
        let n = self.inner.get(new)?;
        core::ptr::copy_nonoverlapping(b.ptr as *const u8, n.as_ptr() as *mut u8, old.size().min(new.size()).min(b.hi));
        self.inner.put(b);
        Ok(n)
    }
}

/// `HeapVec` with an allocator of its own
pub struct AlK<P>(Option<Rc<Inner>>, PhantomData<P>);
impl<E: Elem, P: Pad> Store<E> for AlK<P> {
    type S = Heap<E, Al<P>>;
    fn name() -> String {
        format!("heap of a {}", P::NAME)
    }
    fn new() -> Self {
        AlK(None, PhantomData)
    }
    fn pick(rng: &mut Rng) -> usize {
        <HeapK as Store<E>>::pick(rng)
    }
    fn growth(cap: usize) -> Growth {
        <HeapK as Store<E>>::growth(cap)
    }
    fn build(&mut self, cap: usize) -> GenericVec<E, Self::S> {
        let v = if cap == 0 {
            HeapVec::with_alloc(Al::<P>::default())
        } else {
            GenericVec::with_capacity(cap)
        };
        self.0 = Some(newest());
        v
    }
    fn check(&self) -> Option<String> {
        for i in registry() {
            i.all_zones()
        }
        ERR.with(|e| e.borrow_mut().take())
    }
}

type V<E, P> = GenericVec<E, Heap<E, Al<P>>>;

/// The memory of `v` is the only block of its allocator
fn owned<E: Elem>(ptr: *const E, cap: usize, inner: &Inner, what: &str) {
    errors(what);
    let bs = inner.blocks.borrow();
    if E::ZST {
        check_eq!(bs.len(), 0, "blocks of a vector of zero-sized elements after {}", what);
        check_eq!(inner.requests.get(), 0, "requests of a vector of zero-sized elements after {}", what);
        return
    }
    check!(block_at(ptr).is_none(), "the vector is in memory of the global allocator after {}", what);
    if cap == 0 {
        check_eq!(bs.len(), 0, "blocks of a vector without capacity after {}", what);
    } else {
        check_eq!(bs.len(), 1, "blocks of one vector (capacity {}) after {}", cap, what);
        check_eq!(ptr as usize, bs[0].ptr, "data pointer (and the block of its allocator) after {}", what);
        check!(cap * size_of::<E>() <= bs[0].hi, "capacity {} of {} bytes after {}", cap, bs[0].hi, what);
        check!(bs[0].align >= align_of::<E>(), "alignment {} of the block after {}", bs[0].align, what);
    }
    check_eq!(inner.handles.get(), 1, "allocators of the vector after {}", what);
}

fn owned_sub<E: Elem, P: Pad>(s: &Sub<E, AlK<P>>, what: &str) {
    let i = s.store.0.as_ref().unwrap();
    owned(s.g.v.as_ptr(), s.g.v.capacity(), i, what);
    // every other one is gone
    for o in registry() {
        if o.id != i.id {
            gone(&o, what)
        }
    }
}

fn gone(i: &Inner, what: &str) {
    errors(what);
    check_eq!(i.handles.get(), 0, "handles of an allocator that is no longer used, after {}", what);
    check_eq!(i.blocks.borrow().len(), 0, "blocks of an allocator that is no longer used, after {}", what);
}

/// Takes the vector of `s` out, runs `f` on it, and puts it back
fn through<E: Elem, P: Pad>(s: &mut Sub<E, AlK<P>>, f: impl FnOnce(V<E, P>, &mut Vec<Item>) -> V<E, P>) {
    let v = std::mem::replace(&mut s.g.v, HeapVec::with_alloc(Al::fresh(false)));
    let v = f(v, &mut s.m);
    s.g.v = v;
    s.cap = s.g.v.capacity();
}

fn clone<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("clone");
    cx.log(|| "clone()".into());
    let n = s.m.len();
    if E::TRACKED && n > 0 && cx.rng.chance(1, 3) {
        let k = 1 + cx.rng.below(n) as u64;
        cx.log(|| format!("  the clone of element {} panics", k));
        let count = registry().len();
        mon::arm(k, Kind::Clone as u32);
        let r = run(|| s.g.v.clone());
        let _ = mon::disarm();
        match r {
            End::Fuse => cx.op("panic in a clone"),
            e => violate!("clone {}, although the clone of an element panicked", e.name()),
        }
        for i in &registry()[count..] {
            gone(i, "a clone that panicked")
        }
        s.verify(cx, "a clone that panicked");
        return
    }
    let mut o = want_ok(run(|| s.g.v.clone()), "clone");
    let i = newest();
    check!(i.id != s.store.0.as_ref().unwrap().id, "clone made no allocator of its own");
    owned(o.as_ptr(), o.capacity(), &i, "clone");
    let vals: Vec<u32> = untracked(|| o.iter().map(|e| e.val()).collect());
    check_eq!(vals, untracked(|| s.m.iter().map(|e| e.val).collect::<Vec<_>>()), "values of a clone");
    // the clone goes on
    for _ in 0..cx.rng.below(6) {
        o.push(cx.make());
    }
    owned(o.as_ptr(), o.capacity(), &i, "push to a clone");
    drop(o);
    gone(&i, "drop of a clone");
    s.verify(cx, "clone");
}

fn split<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    own::split_off_to::<E, AlK<P>, Heap<E, Al<P>>>(cx, s, None, "split_off into heap storage with an allocator");
}

fn split_held<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("split_off");
    let at = cx.index(s.m.len());
    cx.log(|| format!("split_off({}) into a vector with its own allocator", at));
    let mut o = want_ok(run(|| s.g.v.split_off::<Heap<E, Al<P>>>(at)), "split_off");
    let i = newest();
    let mut mo = untracked(|| s.m.split_off(at));
    same(&o, &mo, "the vector split off");
    owned(o.as_ptr(), o.capacity(), &i, "split_off");
    for _ in 0..cx.rng.below(6) {
        let e: E = cx.make();
        untracked(|| mo.push(e.item()));
        o.push(e);
    }
    owned(o.as_ptr(), o.capacity(), &i, "push to the vector split off");
    {
        let own = s.store.0.as_ref().unwrap();
        owned(s.g.v.as_ptr(), s.g.v.capacity(), own, "split_off");
    }
    if cx.rng.chance(1, 2) {
        cx.log(|| "  append it again".into());
        want_ok(run(|| s.g.v.append(&mut o)), "append");
        untracked(|| s.m.extend(mo));
        same(&o, &[], "the appended vector");
    } else {
        cx.log(|| "  swap the vectors".into());
        // the storages go with the vectors
        std::mem::swap(&mut s.g.v, &mut o);
        let old = std::mem::replace(&mut s.store.0, Some(i));
        let m = std::mem::replace(&mut s.m, mo);
        same(&o, &m, "the first vector");
        owned(o.as_ptr(), o.capacity(), old.as_ref().unwrap(), "swap");
        untracked(|| drop(m));
    }
    drop(o);
    s.verify(cx, "split_off");
}

fn refuse<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("failing allocator");
    let own = s.store.0.clone().unwrap();
    let (n, cap, ptr) = (s.m.len(), s.g.v.capacity(), s.g.v.as_ptr());
    let more = match cx.rng.below(5) {
        0 => (cap - n).min(500),
        1 => (cap - n).min(500) + 1,
        2 => 0,
        3 => (cap - n).min(500) + cx.rng.below(90),
        // too much for any allocator
        _ => cx.rng.pick(&[usize::MAX, usize::MAX - n, isize::MAX as usize, usize::MAX / size_of::<E>().max(1), 1 << 40]),
    };
    let panics = more < 1 << 20 && cx.rng.chance(1, 3);
    let fits = cap - n >= more;
    let (req, ret) = (own.requests.get(), own.returned.get());
    own.panics.set(panics);
    own.fail_in.set(1);
    cx.log(|| format!("try_reserve({}) with an allocator that {}", more, if panics { "panics" } else { "fails" }));
    let r = if panics && cx.rng.chance(1, 2) {
        run(|| {
            s.g.v.reserve(more);
            true
        })
    } else if !fits && more == usize::MAX && size_of::<E>() > 1 && cx.rng.chance(1, 2) {
        // overflows before the allocator is asked
        let r = run(|| {
            s.g.v.reserve(more);
            true
        });
        want_panic(cx, r, "reserve of too much");
        End::Ok(false)
    } else {
        run(|| s.g.v.try_reserve(more))
    };
    own.fail_in.set(0);
    own.panics.set(false);
    cx.nontrivial |= !fits;
    match r {
        End::Ok(b) => {
            check!(fits || !panics, "try_reserve returned although the allocator panicked");
            check_eq!(b, fits, "try_reserve with a failing allocator")
        }
        End::Panic(_) if panics && !fits => cx.op("the allocator panicked"),
        e => violate!("try_reserve with a failing allocator {}", e.name()),
    }
    if fits {
        check_eq!(own.requests.get(), req, "requests by a try_reserve that had enough room");
    }
    check_eq!(own.returned.get(), ret, "blocks returned by a try_reserve that failed");
    check_eq!(s.g.v.capacity(), cap, "capacity after a try_reserve that failed");
    check_eq!(s.g.v.as_ptr(), ptr, "pointer after a try_reserve that failed");
    s.verify(cx, "try_reserve");
}

fn vec_trip<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("into Vec and back");
    cx.log(|| "into a Vec".into());
    let own = s.store.0.clone().unwrap();
    through(s, |v, m| {
        let (cap, ptr) = (v.capacity(), v.as_ptr());
        let (req, ret) = (own.requests.get(), own.returned.get());
        let mut v: Vec<E, Al<P>> = want_ok(run(|| v.into()), "into a Vec");
        errors("the conversion into a Vec");
        check_eq!((own.requests.get(), own.returned.get()), (req, ret), "requests and returns by the conversion into a Vec");
        check_eq!(v.capacity(), cap, "capacity of the Vec");
        if !E::ZST && cap > 0 {
            check_eq!(v.as_ptr(), ptr, "pointer of the Vec");
        }
        check_eq!(items(&v), *m, "contents of the Vec");
        check_eq!(v.allocator().inner.id, own.id, "allocator of the Vec");
        owned(v.as_ptr(), if E::ZST { 0 } else { v.capacity() }, &own, "the conversion into a Vec");
        for _ in 0..cx.rng.below(4) {
            let k = cx.rng.below(m.len() + 1);
            match cx.rng.below(5) {
                0 if !m.is_empty() => v.shrink_to_fit(),
                1 => {
                    drop(v.drain(k..));
                    m.truncate(k);
                }
                2 => v.reserve(k + 3),
                _ => {
                    let e: E = cx.make();
                    untracked(|| m.insert(k, e.item()));
                    v.insert(k, e);
                }
            }
            cx.log(|| format!("  Vec: {}", show(m)));
        }
        owned(v.as_ptr(), if E::ZST { 0 } else { v.capacity() }, &own, "operations on the Vec");
        let (cap, ptr) = (v.capacity(), v.as_ptr());
        let (req, ret) = (own.requests.get(), own.returned.get());
        let v: V<E, P> = want_ok(run(|| v.into()), "into a HeapVec");
        check_eq!((own.requests.get(), own.returned.get()), (req, ret), "requests and returns by the conversion into a HeapVec");
        check_eq!(v.capacity(), cap, "capacity of the HeapVec");
        if !E::ZST && cap > 0 {
            check_eq!(v.as_ptr(), ptr, "pointer of the HeapVec");
        }
        v
    });
    s.verify(cx, "the conversion into a HeapVec");
}

fn parts<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("into_raw_parts_with_alloc");
    cx.log(|| "into_raw_parts_with_alloc, from_raw_parts_in".into());
    let own = s.store.0.clone().unwrap();
    through(s, |v, m| {
        let (cap, ptr) = (v.capacity(), v.as_ptr());
        let (req, ret) = (own.requests.get(), own.returned.get());
        let (len, heap) = v.into_raw_parts();
        let (p, c, al) = heap.into_raw_parts_with_alloc();
        errors("into_raw_parts_with_alloc");
        check_eq!((len, p.as_ptr() as *const E, c), (m.len(), ptr, cap), "parts of the vector");
        check_eq!(al.inner.id, own.id, "allocator of the vector");
        check_eq!(&al.pad as *const P as usize % align_of::<P>(), 0, "alignment of the allocator");
        check_eq!(own.handles.get(), 1, "allocators after into_raw_parts_with_alloc");
        let v = unsafe { GenericVec::from_raw_parts(len, Heap::from_raw_parts_in(p, c, al)) };
        check_eq!((own.requests.get(), own.returned.get()), (req, ret), "requests and returns by taking the vector apart");
        v
    });
    s.verify(cx, "from_raw_parts_in");
}

/// The allocator becomes a trait object
fn unsized_<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("unsized allocator");
    cx.log(|| "as a vector with a `dyn Allocator`".into());
    through(s, |v, m| {
        let b: Box<V<E, P>> = Box::new(v);
        let mut b: Box<GenericVec<E, Heap<E, dyn Allocator>>> = b;
        let mut o: V<E, P> = HeapVec::default();
        for _ in 0..cx.rng.below(8) {
            match cx.rng.below(5) {
                0 => {
                    let k = cx.rng.below(20);
                    check!(b.try_reserve(k), "try_reserve({})", k);
                }
                1 => {
                    let e = b.try_pop();
                    check_eq!(e.as_ref().map(|e| e.item()), m.pop(), "popped element");
                }
                2 => {
                    let (x, y) = cx.range(m.len());
                    drop(b.drain(x..y));
                    untracked(|| drop(m.drain(x..y)));
                }
                3 => {
                    let e: E = cx.make();
                    let it = e.item();
                    o.push(e);
                    untracked(|| m.push(it));
                    b.append(&mut o);
                }
                _ => {
                    let e: E = cx.make();
                    untracked(|| m.push(e.item()));
                    b.push(e);
                }
            }
            errors("an operation on a vector with a `dyn Allocator`");
        }
        check_eq!(items(&b), *m, "contents of a vector with a `dyn Allocator`");
        let p = Box::into_raw(b) as *mut V<E, P>;
        *unsafe { Box::from_raw(p) }
    });
    s.verify(cx, "use as a vector with a `dyn Allocator`");
}

/// Two vectors share one allocator by reference
fn shared<E: Elem, P: Pad>(cx: &mut Cx, s: &mut Sub<E, AlK<P>>) {
    cx.op("shared allocator");
    cx.log(|| "two vectors with one allocator".into());
    {
        let al = Al::<P>::default();
        let inner = newest();
        let mut a: HeapVec<E, &Al<P>> = HeapVec::with_alloc(&al);
        let mut b: HeapVec<E, &Al<P>> = HeapVec::with_alloc(&al);
        let mut ma = untracked(|| Vec::with_capacity(64));
        let mut mb = untracked(|| Vec::with_capacity(64));
        for _ in 0..cx.rng.below(12) {
            let (v, m) = if cx.rng.chance(1, 2) { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
            for _ in 0..cx.rng.below(4) {
                let e: E = cx.make();
                untracked(|| m.push(e.item()));
                v.push(e);
            }
            match cx.rng.below(6) {
                0 => {
                    a.append(&mut b);
                    untracked(|| ma.append(&mut mb));
                }
                1 => {
                    let k = cx.rng.below(mb.len() + 1);
                    b.split_off_into(k, &mut a);
                    untracked(|| ma.extend(mb.drain(k..)));
                }
                2 => {
                    let v: Vec<E, &Al<P>> = core::mem::replace(&mut a, HeapVec::with_alloc(&al)).into();
                    a = v.into();
                }
                _ => {}
            }
            errors("operations on two vectors with one allocator");
            let want = if E::ZST { 0 } else { (a.capacity() > 0) as usize + (b.capacity() > 0) as usize };
            check_eq!(inner.blocks.borrow().len(), want, "blocks of two vectors with one allocator");
        }
        same(&a, &ma, "the first vector");
        same(&b, &mb, "the second vector");
        untracked(|| drop((ma, mb)));
        drop(b);
        drop(a);
        check_eq!(inner.blocks.borrow().len(), 0, "blocks of an allocator whose vectors are gone");
    }
    s.verify(cx, "two other vectors");
}

fn end<E: Elem, P: Pad>(cx: &mut Cx, s: Sub<E, AlK<P>>) {
    match cx.rng.below(4) {
        0 => {
            // (the by-value iterator of this Vec drops its allocator twice, in rustc 1.52)
            cx.log(|| "into a Vec, and drain that".into());
            let (v, m, _store) = s.into_parts();
            let mut v: Vec<E, Al<P>> = v.into();
            let k = cx.rng.below(m.len() + 1);
            for (e, it) in v.drain(..k).zip(&m) {
                check_eq!(e.item(), *it, "element of the Vec");
            }
            untracked(|| drop(m));
        }
        1 => own::convert::<E, AlK<P>, Heap<E, Al<P>>>(cx, s, None),
        _ => own::finale(cx, s),
    }
    if E::TRACKED {
        check_eq!(mon::live(), 0, "elements alive at the end");
    }
}

/// A history on a vector with an allocator of its own
pub fn case<E: Elem, P: Pad>(cx: &mut Cx) {
    untracked(|| {
        REG.with(|r| r.borrow_mut().clear());
        ERR.with(|e| *e.borrow_mut() = None);
    });
    let mut s = Sub::<E, AlK<P>>::new(cx);
    owned_sub(&s, "making the vector");
    let n = s.start_len(cx);
    refill(cx, &mut s, n);
    owned_sub(&s, "filling the vector");
    let ops = eng::list(&[
        eng::core_ops::<E, AlK<P>>,
        eng::bulk_ops::<E, AlK<P>>,
        eng::cap_ops::<E, AlK<P>>,
        eng::try_ops::<E, AlK<P>>,
        eng::arr_ops::<E, AlK<P>>,
        iters::iter_ops::<E, AlK<P>>,
        own::own_ops::<E, AlK<P>>,
    ]);
    let own: [Op<E, AlK<P>>; 10] = [
        clone, split, split_held, refuse, refuse, vec_trip, parts, unsized_, shared,
        own::exchange::<E, AlK<P>, AlK<P>>,
    ];
    let steps = if cx.scale == 0 { 10 } else { 24 };
    for _ in 0..steps {
        if cx.rng.chance(1, 2) {
            cx.rng.pick(&own)(cx, &mut s)
        } else {
            cx.rng.pick(&ops)(cx, &mut s)
        }
        owned_sub(&s, "an operation");
        eng::trim(cx, &mut s, 600);
    }
    untracked(|| drop(ops));
    cx.nontrivial |= E::ZST || s.store.0.as_ref().unwrap().requests.get() > 0;
    end(cx, s);
    let (mut req, mut ret) = (0, 0);
    for i in registry() {
        gone(&i, "the end of the vector");
        check_eq!(i.made.get(), 1, "allocator");
        req += i.requests.get() - i.failed.get();
        ret += i.returned.get();
    }
    // requests too large for any allocator are not counted as failed
    check!(ret <= req, "{} blocks returned, {} requested", ret, req);
    untracked(|| {
        *cx.ops.entry("requests to allocators").or_insert(0) += req;
        *cx.ops.entry("blocks returned to allocators").or_insert(0) += ret;
        *cx.ops.entry("allocators").or_insert(0) += registry().len() as u64;
    });
    untracked(|| REG.with(|r| r.borrow_mut().clear()));
}
