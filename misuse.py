"""C28: programs without `unsafe` that misuse what a vector lends out.

Every program exists in two variants made from one text. The twin uses the
interface properly; the misuse keeps something for longer than it may, shares
what must not be shared, and so on. The oracle is an interpreter or sanitizer
that runs whatever the compiler accepts: a misuse that does not compile cannot
do anything, and one that compiles has to be harmless.
"""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

PRELUDE = """#![allow(warnings)]
use generic_vec::{*, raw::*};
use std::{cell::*, fmt::Debug, mem::MaybeUninit, rc::Rc, sync::*, borrow::*};

#[inline(never)]
fn look<T: Debug + ?Sized>(t: &T) { println!("{:?}", t); }
fn b(n: u32) -> Box<u32> { Box::new(n) }
type E = Box<u32>;

/// looks at what it borrows when it is dropped
struct Looks<'a>(&'a str);
impl Drop for Looks<'_> { fn drop(&mut self) { look(self.0); } }

"""

HEAP = "let mut v: HeapVec<E> = HeapVec::new(); for i in 0..8 { v.push(b(i)); } v.reserve(2);"
ARRAY = "let mut v: ArrayVec!(E; 16) = GenericVec::with_capacity(8); for i in 0..8 { v.push(b(i)); }"
SLICE = "let mut buf: Vec<MaybeUninit<E>> = (0..16).map(|_| MaybeUninit::uninit()).collect(); let mut v: SliceVec<E> = SliceVec::new(&mut buf); for i in 0..8 { v.push(b(i)); }"

# name: (expression, how it is used)
VIEWS = {
    "as_slice": ("v.as_slice()", "look(view);"),
    "as_mut_slice": ("v.as_mut_slice()", "*view[1] += 1; look(view);"),
    "deref": ("&*v", "look(view);"),
    "deref_mut": ("&mut *v", "*view[1] += 1; look(view);"),
    "index": ("&v[1]", "look(view);"),
    "index_mut": ("&mut v[1]", "**view += 1; look(view);"),
    "range": ("&v[1..4]", "look(view);"),
    "range_mut": ("&mut v[1..4]", "*view[1] += 1; look(view);"),
    "iter": ("v.iter()", "for x in view { look(x); }"),
    "into_iter_ref": ("(&v).into_iter()", "for x in view { look(x); }"),
    "into_iter_mut": ("(&mut v).into_iter()", "for x in view { **x += 1; look(x); }"),
    "as_ref": ("AsRef::<[E]>::as_ref(&v)", "look(view);"),
    "as_mut": ("AsMut::<[E]>::as_mut(&mut v)", "*view[1] += 1; look(view);"),
    "borrow": ("Borrow::<[E]>::borrow(&v)", "look(view);"),
    "borrow_mut": ("BorrowMut::<[E]>::borrow_mut(&mut v)", "*view[1] += 1; look(view);"),
    "push": ("v.push(b(70))", "**view += 1; look(view);"),
    "insert": ("v.insert(1, b(71))", "**view += 1; look(view);"),
    "try_push": ("v.try_push(b(72)).unwrap()", "**view += 1; look(view);"),
    "try_insert": ("v.try_insert(1, b(73)).unwrap()", "**view += 1; look(view);"),
    "storage": ("v.storage()", "look(&Storage::<E>::capacity(view));"),
    "drain": ("v.drain(1..3)", "let mut view = view; look(&view.next()); look(&view.next_back());"),
    "drain_unused": ("v.drain(1..3)", "drop(view);"),
    "drain_filter": ("v.drain_filter(0..3, |x| **x % 2 == 0)", "let mut view = view; look(&view.next()); look(&view.next_back());"),
    "splice": ("v.splice(1..3, std::vec![b(50), b(51)])", "let mut view = view; look(&view.next());"),
    "splice_unused": ("v.splice(1..3, std::vec![b(50), b(51)])", "drop(view);"),
    "cursor": ("v.cursor(1..5)", "let mut view = view; look(&view.take_front()); look(view.front().unwrap()); look(&view.take_back()); let _ = view.try_write_front(b(3));"),
    "raw_cursor": ("v.raw_cursor(1..5)", "drop(view);"),
    "spare": ("v.spare_capacity_mut()", "let mut view = view; view.push(b(60)); look(&view[..]);"),
}
ARRAY_VIEWS = {
    "push_array": ("v.push_array([b(70), b(71)])", "*view[1] += 1; look(&view[..]);"),
    "insert_array": ("v.insert_array(1, [b(70), b(71)])", "*view[1] += 1; look(&view[..]);"),
    "try_push_array": ("v.try_push_array([b(70), b(71)]).ok().unwrap()", "*view[1] += 1; look(&view[..]);"),
    "try_insert_array": ("v.try_insert_array(1, [b(70), b(71)]).ok().unwrap()", "*view[1] += 1; look(&view[..]);"),
}
HAZARDS = {
    "drop": "drop(v);",
    "grow": "for i in 0..100 { v.push(b(i)); }",
    "clear": "v.clear();",
    "pop": "while v.len() > 0 { v.pop(); }",
    "replace": "drop(std::mem::replace(&mut v, HeapVec::new()));",
    "by_value": "drop(v.into_iter());",
}
FIXED = {
    "drop": "drop(v);",
    "clear": "v.clear();",
    "append": "let mut w: HeapVec<E> = HeapVec::new(); w.append(&mut v); drop(w);",
}


def matrix(out):
    def two(name, setup, expr, use, hazard):
        out[name + "_ok"] = (True, "fn main() { %s { let view = %s; %s } %s }" % (setup, expr, use, hazard))
        out[name] = (False, "fn main() { %s let view = %s; %s %s }" % (setup, expr, hazard, use))
    for n, (e, u) in VIEWS.items():
        for h, x in HAZARDS.items():
            two("heap_%s_%s" % (n, h), HEAP, e, u, x)
        for h, x in FIXED.items():
            two("slice_%s_%s" % (n, h), SLICE, e, u, x)
            if h != "drop":
                two("array_%s_%s" % (n, h), ARRAY, e, u, x)
        # outlives the block that owns the vector
        for s, setup in (("heap", HEAP), ("array", ARRAY)):
            out["%s_%s_escape_ok" % (s, n)] = (True, "fn main() { { %s let view = %s; %s } }" % (setup, e, u))
            out["%s_%s_escape" % (s, n)] = (False, "fn main() { let view = { %s %s }; %s }" % (setup, e, u))
        # given out twice
        out["heap_%s_twice_ok" % n] = (True, "fn main() { %s v.reserve(2); { let view = %s; %s } { let view = %s; %s } }" % (HEAP, e, u, e, u))
        out["heap_%s_twice" % n] = (False, "fn main() { %s v.reserve(2); let view = %s; let again = %s; { let view = view; %s } { let view = again; %s } }" % (HEAP, e, e, u, u))
    for n, (e, u) in ARRAY_VIEWS.items():
        for h in ("drop", "grow", "clear"):
            two("nightly_heap_%s_%s" % (n, h), HEAP, e, u, HAZARDS[h])
    # what iterators and cursors lend out
    for n, e, u in (("as_slice", "it.as_slice()", "look(view);"), ("as_mut_slice", "it.as_mut_slice()", "*view[0] += 1; look(view);")):
        for h, x in (("drop", "drop(it);"), ("next", "drop(it.next()); drop(it.next_back());"), ("nth", "drop(it.nth(6));"), ("rest", "it.for_each(drop);"), ("collect", "let w: Vec<E> = it.collect(); drop(w);")):
            two("into_iter_%s_%s" % (n, h), HEAP + " let mut it = v.into_iter();", e, u, x)
    for n, e, u in (("front", "c.front().unwrap()", "look(view);"), ("front_mut", "c.front_mut().unwrap()", "**view += 1; look(view);"),
                    ("back", "c.back().unwrap()", "look(view);"), ("back_mut", "c.back_mut().unwrap()", "**view += 1; look(view);")):
        for h, x in (("take", "drop(c.take_front()); drop(c.take_back());"), ("drop_n", "c.drop_n_front(2); c.drop_n_back(2);"), ("end", "drop(c); drop(v);")):
            two("cursor_%s_%s" % (n, h), HEAP + " let mut c = v.cursor(1..5);", e, u, x)
    # an iterator of a vector, and what else is done to the vector meanwhile
    for n in ("drain", "drain_filter", "splice", "cursor", "spare"):
        e, u = VIEWS[n]
        for h, x in (("read", "look(&v[..]);"), ("push", "v.push(b(9));"), ("pop", "drop(v.pop());"), ("swap", "std::mem::swap(&mut v, &mut other);")):
            two("while_%s_%s" % (n, h), HEAP + " let mut other: HeapVec<E> = HeapVec::new();", e, u, x)


# Lines that start with @ are in the misuse only, lines that start with ~ in the twin only.
TEXTS = """
//// buffer_freed: the buffer of a slice vector is freed
fn main() {
    let mut buf: Vec<MaybeUninit<E>> = (0..8).map(|_| MaybeUninit::uninit()).collect();
    let mut v: SliceVec<E> = SliceVec::new(&mut buf);
    v.push(b(1));
@   drop(buf);
    v.push(b(2));
    look(&v[..]);
}
//// buffer_shared: two vectors in one buffer
fn main() {
    let mut buf: Vec<MaybeUninit<E>> = (0..8).map(|_| MaybeUninit::uninit()).collect();
    let mut v: SliceVec<E> = SliceVec::new(&mut buf);
    v.push(b(1));
~   drop(v);
    let mut w: SliceVec<E> = SliceVec::new(&mut buf);
    w.push(b(2));
@   look(&v[..]);
    look(&w[..]);
}
//// init_buffer_freed
fn main() {
    let mut buf: Vec<u32> = std::vec![1, 2, 3, 4];
    let mut v: InitSliceVec<u32> = InitSliceVec::new(&mut buf);
    v.set_len(3);
@   drop(buf);
    look(&v[..]);
}
//// init_buffer_shared
fn main() {
    let mut buf: Vec<u32> = std::vec![1, 2, 3, 4];
    let mut v: InitSliceVec<u32> = InitSliceVec::new(&mut buf);
    v.set_len(3);
@   let first = &buf[0];
    v[0] = 8;
    look(&v[..]);
@   look(first);
}
//// init_of_owners: elements that own something are not initialised storage
fn main() {
~   let mut v: InitArrayVec!(u32; 4) = GenericVec::with_storage([1, 2, 3, 4]);
@   let mut v: InitArrayVec!(E; 4) = GenericVec::with_storage([b(1), b(2), b(3), b(4)]);
    v.set_len(4);
    look(&v[..]);
    v.set_len(0);
    v.set_len(4);
    look(&v[..]);
}
//// init_slice_of_owners
fn main() {
~   let mut a = [1u32, 2, 3, 4];
@   let mut a = [b(1), b(2), b(3), b(4)];
    let mut v = InitSliceVec::new(&mut a);
    v.set_len(4);
    drop(v);
    look(&a);
}
//// set_len_uninit: only initialised storage has a safe set_len
fn main() {
~   let mut v: InitArrayVec!(E2; 4) = GenericVec::with_storage([0; 4]);
@   let mut v: ArrayVec!(E2; 4) = GenericVec::with_capacity(4);
    v.set_len(4);
    look(&v[..]);
}
type E2 = u32;
//// set_len_heap
fn main() {
~   let mut v: GenericVec<u32, Box<[u32; 4]>> = GenericVec::with_storage(Box::new([0; 4]));
@   let mut v: HeapVec<u32> = HeapVec::with_capacity(4);
    v.set_len(4);
    look(&v[..]);
}
//// set_len_slice
fn main() {
~   let mut buf = [0u32; 4];
~   let mut v: InitSliceVec<u32> = InitSliceVec::new(&mut buf);
@   let mut buf: [MaybeUninit<u32>; 4] = uninit_array!(4);
@   let mut v: SliceVec<u32> = SliceVec::new(&mut buf);
    v.set_len(4);
    look(&v[..]);
}
//// set_len_boxed_uninit
fn main() {
~   let mut v: GenericVec<u32, Box<[u32; 4]>> = GenericVec::with_storage(Box::new([0; 4]));
@   let mut v: GenericVec<u32, Box<UninitBuffer<[u32; 4]>>> = GenericVec::with_capacity(4);
    v.set_len(4);
    look(&v[..]);
}
//// set_len_other_type: initialised storage of another type
fn main() {
~   let mut v: GenericVec<u8, [u8; 4]> = GenericVec::with_storage([2; 4]);
@   let mut v: GenericVec<bool, [u8; 4]> = GenericVec::with_storage([2; 4]);
    v.set_len(4);
    look(&v[..]);
}
//// set_len_past_capacity: refused at run time
fn main() {
    let mut v: InitArrayVec!(u32; 4) = GenericVec::with_storage([0; 4]);
~   v.set_len(4);
@   let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.set_len(5)));
@   look(&r.is_err());
    look(&v[..]);
}
//// spare_retyped: the spare capacity of initialised storage, written as another type, then exposed
fn main() {
    let mut v: InitArrayVec!(bool; 4) = GenericVec::with_storage([false; 4]);
    let (_, raw) = v.spare_capacity_mut().into_raw_parts();
~   let mut bytes: SliceVec<bool> = GenericVec::with_storage(raw);
~   bytes.push(true);
@   let mut bytes: GenericVec<u8, &mut UninitSlice<bool>> = GenericVec::with_storage(raw);
@   bytes.push(2);
    drop(bytes);
    v.set_len(1);
    look(&v[..]);
    look(&match v[0] { true => 1, false => 2 });
}
//// storage_reused_while_used: the storage of a vector in use given to another
fn main() {
    let mut heap: Heap<E> = Heap::new();
    let mut v: GenericVec<E, &mut Heap<E>> = GenericVec::with_storage(&mut heap);
    v.push(b(1));
~   drop(v);
    let mut w: GenericVec<E, &mut Heap<E>> = GenericVec::with_storage(&mut heap);
    w.push(b(2));
@   look(&v[..]);
    look(&w[..]);
}
//// storage_freed
fn main() {
    let mut heap: Heap<E> = Heap::new();
    let mut v: GenericVec<E, &mut Heap<E>> = GenericVec::with_storage(&mut heap);
    v.push(b(1));
@   drop(heap);
    look(&v[..]);
}
//// storage_cloned: a copy of the storage does not hold the elements
fn main() {
    let mut v: ArrayVec!(E; 4) = GenericVec::with_capacity(4);
    v.push(b(1));
    let s = v.storage().clone();
    let w: ArrayVec!(E; 4) = GenericVec::with_storage(s);
@   look(&w.get(0));
    look(&w.len());
    drop(w);
    look(&v[..]);
}
//// heap_cloned
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    v.push(b(1));
@   let s = v.storage().clone();
@   let w: HeapVec<E> = HeapVec::with_storage(s);
@   drop(w);
    look(&v[..]);
}
//// parts_dropped: the elements are leaked with the parts, not dropped
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    v.push(b(1));
    let (n, s) = v.into_raw_parts();
~   let mut w: HeapVec<E> = HeapVec::with_storage(s);
@   let mut w: HeapVec<E> = HeapVec::with_storage(s); look(&w[..]); w.resize(n, b(4));
    w.push(b(2));
    look(&w[..]);
}
//// parts_retyped: the same storage for elements of another type
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    v.push(b(1));
    v.clear();
    let (_, s) = v.into_raw_parts();
~   let mut w: HeapVec<E> = HeapVec::with_storage(s);
~   w.push(b(2));
@   let mut w: GenericVec<u16, Heap<E>> = GenericVec::with_storage(s);
@   for i in 0..100 { w.push(i); }
    look(&w[..]);
}
//// parts_other_alignment: refused at run time
fn main() {
    let mut s: Heap<u8> = Heap::new();
~   let mut w: GenericVec<u8, Heap<u8>> = GenericVec::with_storage(s);
~   w.push(2);
@   let w = std::panic::catch_unwind(|| { let mut w: GenericVec<u64, Heap<u8>> = GenericVec::with_storage(s); for i in 0..10 { w.push(i); } look(&w[..]); });
    look(&w.is_err());
}
trait X { fn is_err(&self) -> bool { false } }
impl<T, S: Storage<T>> X for GenericVec<T, S> {}
//// buffer_other_alignment
fn main() {
~   let r = std::panic::catch_unwind(|| { let mut w: GenericVec<u8, UninitBuffer<[u8; 64]>> = GenericVec::with_storage(UninitBuffer::uninit()); w.push(1); });
@   let r = std::panic::catch_unwind(|| { let mut w: GenericVec<u64, UninitBuffer<[u8; 64]>> = GenericVec::with_storage(UninitBuffer::uninit()); w.push(1); look(&w[..]); });
    look(&r.is_ok());
}
//// zero_sized_of_sized: zero-sized storage for elements that take room
fn main() {
~   let mut v: ZSVec<()> = ZSVec::new();
~   v.push(());
@   let mut v: ZSVec<u32> = ZSVec::new();
@   v.push(1); v.push(2);
    look(&v[..]);
}
//// zero_sized_default
fn main() {
~   let mut v: GenericVec<(), ZeroSized<()>> = Default::default();
~   v.push(());
@   let mut v: GenericVec<u32, ZeroSized<u32>> = Default::default();
@   v.push(1); v.push(2);
    look(&v[..]);
}
//// zero_sized_capacity
fn main() {
~   let mut v: GenericVec<(), ZeroSized<()>> = GenericVec::with_capacity(7);
~   v.push(());
@   let mut v: GenericVec<u32, ZeroSized<u32>> = GenericVec::with_capacity(7);
@   v.push(1); v.push(2);
    look(&v[..]);
}
//// zero_sized_coined: elements that cannot be made are not made from nothing
enum Never {}
fn main() {
    let mut v: ZSVec<Never> = ZSVec::new();
@   v.set_len(1);
    look(&v.len());
}
//// dropck_vec: elements look at what they borrow when they are dropped
fn main() {
~   let s = String::from("still there, and long enough to be on the heap");
    let mut v: HeapVec<Looks> = HeapVec::new();
@   let s = String::from("gone, and long enough to be on the heap");
    v.push(Looks(&s));
}
//// dropck_array
fn main() {
~   let s = String::from("still there, and long enough to be on the heap");
    let mut v: ArrayVec!(Looks<'_>; 4) = GenericVec::with_capacity(4);
@   let s = String::from("gone, and long enough to be on the heap");
    v.push(Looks(&s));
}
//// dropck_boxed
fn main() {
~   let s = String::from("still there, and long enough to be on the heap");
    let mut v: GenericVec<Looks, Box<UninitBuffer<[usize; 8], usize>>> = GenericVec::with_capacity(4);
@   let s = String::from("gone, and long enough to be on the heap");
    v.push(Looks(&s));
}
//// dropck_slice
fn main() {
    let mut buf: [MaybeUninit<[usize; 2]>; 4] = uninit_array!(4);
~   let s = String::from("still there, and long enough to be on the heap");
    let mut v: GenericVec<Looks, &mut UninitSlice<[usize; 2]>> = GenericVec::with_storage(UninitSlice::from_mut(&mut buf));
@   let s = String::from("gone, and long enough to be on the heap");
    v.push(Looks(&s));
}
//// dropck_heap_of_other: the storage alone does not tell what the elements borrow
fn main() {
~   let s = String::from("still there, and long enough to be on the heap");
    let mut v: GenericVec<Looks, Heap<usize>> = GenericVec::with_storage(Heap::new());
@   let s = String::from("gone, and long enough to be on the heap");
    v.push(Looks(&s));
}
//// dropck_zero_sized
thread_local!(static ALIVE: Cell<bool> = Cell::new(false));
struct Token(());
impl Drop for Token { fn drop(&mut self) { ALIVE.with(|a| a.set(false)); } }
struct Z<'a>(std::marker::PhantomData<&'a Token>);
impl Drop for Z<'_> { fn drop(&mut self) { if !ALIVE.with(|a| a.get()) { look("MISUSE: dropped after what it borrows"); std::process::abort(); } } }
fn z(t: &Token) -> Z { Z(std::marker::PhantomData) }
fn main() {
    ALIVE.with(|a| a.set(true));
~   let t = Token(());
    let mut v: ZSVec<Z> = ZSVec::new();
@   let t = Token(());
    v.push(z(&t));
}
//// dropck_into_iter
fn main() {
    let s = String::from("still there, and long enough to be on the heap");
    let mut it;
    {
~       let t = &s[..];
@       let t = String::from("gone, and long enough to be on the heap");
        let mut v: HeapVec<Looks> = HeapVec::new();
        v.push(Looks(&t));
        it = v.into_iter();
    }
    look(&it.len());
~   drop(it);
}
//// dropck_drain
fn main() {
    let mut v: HeapVec<Looks> = HeapVec::new();
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        v.push(Looks(&S));
        v.drain(..1).next();
        v.push(Looks(&S));
    }
    look(&v.len());
}
//// dropck_splice: the replacement is dropped, or taken, when the splice is
fn main() {
    let mut v: HeapVec<Looks> = HeapVec::new();
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        v.splice(.., std::iter::once(Looks(&S)));
    }
    look(&v.len());
}
//// dropck_drain_filter
fn main() {
    let s = String::from("still there, and long enough to be on the heap");
    let mut v: HeapVec<u32> = HeapVec::new();
    v.push(1);
~   let l = Looks(&s);
    let mut d;
    {
@       let s = String::from("gone, and long enough to be on the heap");
@       let l = Looks(&s);
        let l = &l;
        d = v.drain_filter(.., move |x| { look(l.0); true });
    }
    look(&d.next());
}
//// variance_vec: a shorter-lived element in a vector of longer-lived ones
fn put<'a>(v: &mut HeapVec<&'a str>, s: &'a str) { v.push(s); }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&mut v, &S);
    }
    look(&v[..]);
}
//// variance_array
fn put<'a>(v: &mut ArrayVec!(&'a str; 4), s: &'a str) { v.push(s); }
fn main() {
    let mut v: ArrayVec!(&'static str; 4) = GenericVec::with_capacity(4);
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&mut v, &S);
    }
    look(&v[..]);
}
//// variance_slice_mut
fn put<'a>(v: &mut [&'a str], s: &'a str) { v[0] = s; }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    v.push("");
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&mut v, &S);
    }
    look(&v[..]);
}
//// variance_cursor: a cursor over a vector of longer-lived elements
fn put<'c, 'a>(c: &mut Cursor<'c, &'a str, Heap<&'a str>>, s: &'a str) { drop(c.take_front()); c.write_front(s); }
use generic_vec::iter::Cursor;
fn shorten<'c, 'a>(c: Cursor<'c, &'a str, Heap<&'a str>>, s: &'a str) { let mut c = c; put(&mut c, s); }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    v.push("");
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        shorten(v.cursor(..), &S);
    }
    look(&v[..]);
}
//// variance_cursor_front_mut
use generic_vec::iter::Cursor;
fn put<'c, 'a>(mut c: Cursor<'c, &'a str, UninitBuffer<[usize; 8], usize>>, s: &'a str) { *c.front_mut().unwrap() = s; }
fn main() {
    let mut v: GenericVec<&'static str, UninitBuffer<[usize; 8], usize>> = GenericVec::with_capacity(4);
    v.push("");
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(v.cursor(..), &S);
    }
    look(&v[..]);
}
//// variance_raw_cursor
use generic_vec::iter::*;
fn put<'c, 'a>(mut c: Cursor<'c, &'a str, Heap<usize>>, mut r: RawCursor<'c, &'a str, Heap<usize>>, s: &'a str) {
    std::mem::swap(c.as_raw_cursor_mut(), &mut r);
    *c.front_mut().unwrap() = s;
}
fn main() {
    let mut v: GenericVec<&'static str, Heap<usize>> = GenericVec::with_storage(Heap::new());
    let mut w: GenericVec<&'static str, Heap<usize>> = GenericVec::with_storage(Heap::new());
    v.push("");
    w.push("");
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(w.cursor(..), v.raw_cursor(..), &S);
    }
    look(&v[..]);
    look(&w[..]);
}
//// variance_spare
fn put<'c, 'a>(v: &mut SliceVec<'c, &'a str>, s: &'a str) { v.push(s); }
fn main() {
    let mut buf: [MaybeUninit<&'static str>; 4] = uninit_array!(4);
    let mut v: SliceVec<&'static str> = SliceVec::new(&mut buf);
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&mut v, &S);
    }
    look(&v[..]);
}
//// variance_init_slice
fn put<'c, 'a>(mut v: InitSliceVec<'c, &'a str>, s: &'a str) { v[0] = s; }
fn main() {
    let mut buf: [&'static str; 4] = [""; 4];
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(InitSliceVec::new(&mut buf), &S);
    }
    look(&buf);
}
//// variance_into_iter_mut
fn put<'a>(it: &mut generic_vec::iter::IntoIter<&'a str, Heap<&'a str>>, s: &'a str) { it.as_mut_slice()[0] = s; }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    v.push("");
    let mut it = v.into_iter();
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&mut it, &S);
    }
    look(it.as_slice());
}
//// variance_splice: the replacement goes into the vector
use generic_vec::iter::*;
fn put<'c, 'a>(v: &'c mut HeapVec<&'a str>, s: &'a str) -> Splice<'c, &'a str, Heap<&'a str>, std::iter::Once<&'a str>> { v.splice(.., std::iter::once(s)) }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        drop(put(&mut v, &S));
    }
    look(&v[..]);
}
//// variance_cell: a lifetime inside of a cell cannot be shortened
fn put<'a>(v: &HeapVec<Cell<&'a str>>, s: &'a str) { v[0].set(s); }
fn main() {
    let mut v: HeapVec<Cell<&'static str>> = HeapVec::new();
    v.push(Cell::new(""));
    {
~       static S: &str = "still there";
@       let S = String::from("gone, and long enough to be on the heap");
        put(&v, &S);
    }
    look(&v[0].get());
}
//// covariant_read: a vector of longer-lived elements may be read as one of shorter-lived ones
fn join<'a>(v: &HeapVec<&'a str>, s: &'a str) -> usize { v.iter().map(|x| x.len()).sum::<usize>() + s.len() }
fn main() {
    let mut v: HeapVec<&'static str> = HeapVec::new();
    v.push("abc");
    let s = String::from("abc");
@   let w: HeapVec<&str> = v; let v = w;
    look(&join(&v, &s));
}
//// extend_borrowed
fn main() {
    let mut v: HeapVec<&str> = HeapVec::new();
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        v.extend_from_slice(&[&S[..]]);
    }
    look(&v[..]);
}
//// grow_borrowed
fn main() {
    let mut v: HeapVec<&str> = HeapVec::new();
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        v.grow(3, &S[..]);
    }
    look(&v[..]);
}
//// append_borrowed
fn main() {
    let mut v: HeapVec<&str> = HeapVec::new();
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        let mut w: ArrayVec!(&str; 4) = GenericVec::with_capacity(4);
        w.push(&S[..]);
        v.append(&mut w);
    }
    look(&v[..]);
}
//// split_off_borrowed
fn main() {
    let mut v: ArrayVec!(&str; 4) = GenericVec::with_capacity(4);
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        let mut w: HeapVec<&str> = HeapVec::new();
        w.push(&S[..]);
        v = w.split_off(0);
    }
    look(&v[..]);
}
//// convert_borrowed
fn main() {
    let mut v: ArrayVec!(&str; 4) = GenericVec::with_capacity(4);
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        let mut w: HeapVec<&str> = HeapVec::new();
        w.push(&S[..]);
        v = w.convert();
    }
    look(&v[..]);
}
//// vec_borrowed
fn main() {
    let mut v: Vec<&str> = Vec::new();
~   static S: &str = "still there";
    {
@       let S = String::from("gone, and long enough to be on the heap");
        let mut w: HeapVec<&str> = HeapVec::new();
        w.push(&S[..]);
        v = w.into();
    }
    look(&v[..]);
}
//// dedup_key_escapes: a key may not borrow from the element longer than the call
fn main() {
    let mut v: HeapVec<String> = HeapVec::new();
    for i in 0..6 { v.push(format!("{}", i / 2)); }
    let mut kept: Vec<&String> = Vec::new();
~   v.dedup_by(|a, b| a == b);
@   v.dedup_by(|a, b| { kept.push(&*a); a == b });
    look(&kept);
}
//// retain_escapes
fn main() {
    let mut v: HeapVec<String> = HeapVec::new();
    for i in 0..6 { v.push(format!("{}", i / 2)); }
    let mut kept: Vec<&mut String> = Vec::new();
~   v.retain(|a| a.len() == 2);
@   v.retain(|a| { kept.push(a); false });
    look(&kept);
}
//// drain_filter_escapes
fn main() {
    let mut v: HeapVec<String> = HeapVec::new();
    for i in 0..6 { v.push(format!("{}", i / 2)); }
    let mut kept: Vec<&mut String> = Vec::new();
~   v.drain_filter(.., |a| a.len() == 2).for_each(drop);
@   v.drain_filter(.., |a| { kept.push(a); true }).for_each(drop);
    look(&kept);
}
//// callback_uses_vec: a callback cannot reach the vector that calls it
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   v.resize_with(20, || b(3));
@   v.resize_with(20, || { v.clear(); b(3) });
    look(&v[..]);
}
//// retain_uses_vec
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   v.retain(|x| **x != 3);
@   v.retain(|x| { v.clear(); **x != 3 });
    look(&v[..]);
}
//// extend_uses_vec
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   v.extend((0..10).map(|i| b(i)));
@   v.extend((0..10).map(|i| { drop(v.pop()); b(i) }));
    look(&v[..]);
}
//// splice_uses_vec
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   v.splice(1..3, (0..10).map(|i| b(i)));
@   v.splice(1..3, (0..10).map(|i| { drop(v.pop()); b(i) }));
    look(&v[..]);
}
//// extend_from_itself
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   let w: Vec<E> = v.to_vec();
~   v.extend_from_slice(&w);
@   v.extend_from_slice(&v);
    look(&v[..]);
}
//// append_itself
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
    let mut w: HeapVec<E> = HeapVec::new();
~   v.append(&mut w);
@   v.append(&mut v);
    look(&v[..]);
}
//// clone_from_itself
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   v.clone_from(&[b(1), b(2)]);
@   v.clone_from(&v[2..4]);
    look(&v[..]);
}
//// clone_of_owner: elements that cannot be cloned are not
struct N(E);
fn main() {
    let mut v: HeapVec<N> = HeapVec::new();
    v.push(N(b(1)));
@   let w = v.clone();
@   look(&w[0].0);
    look(&v[0].0);
}
//// copy_out: a vector cannot be copied
fn main() {
    let mut v: GenericVec<E, UninitBuffer<[E; 4]>> = GenericVec::with_capacity(4);
    v.push(b(1));
    let w = v;
@   look(&v[..]);
    look(&w[..]);
}
//// moved_while_borrowed
fn main() {
    let mut v: ArrayVec!(E; 4) = GenericVec::with_capacity(4);
    v.push(b(1));
    let r = &v[..];
~   look(r);
    let mut w = Box::new(v);
    w.clear();
@   look(r);
}
//// array_consumed
fn main() {
    let mut v: ArrayVec!(E; 2) = GenericVec::with_capacity(2);
    v.push(b(1));
    v.push(b(2));
    let a = v.into_iter();
@   drop(v);
    drop(a);
}
//// cursors_swapped: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    let mut w: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); w.push(b(i + 10)); }
    {
        let mut c = v.cursor(1..4);
        let mut d = w.cursor(2..3);
        drop(c.take_front());
@       std::mem::swap(c.as_raw_cursor_mut(), d.as_raw_cursor_mut());
@       drop(c.take_front());
        drop(d.take_back());
    }
    look(&v[..]);
    look(&w[..]);
}
//// cursor_replaced: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    let mut w: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); w.push(b(i + 10)); }
    {
        let mut c = v.cursor(1..4);
        drop(c.take_front());
@       *c.as_raw_cursor_mut() = w.raw_cursor(2..5);
        drop(c.take_front());
        drop(c.take_back());
        let _ = c.try_write_front(b(44));
    }
    look(&v[..]);
    look(&w[..]);
}
//// cursor_over_other: a raw cursor of a vector that goes away
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
~   let mut w: HeapVec<E> = HeapVec::new();
    {
        let mut c = v.cursor(1..4);
        {
@           let mut w: HeapVec<E> = HeapVec::new();
            for i in 0..6 { w.push(b(i + 10)); }
            *c.as_raw_cursor_mut() = w.raw_cursor(2..5);
        }
        drop(c.take_front());
    }
    look(&v[..]);
}
//// leaked_drain: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
    {
        let mut d = v.drain(1..4);
        drop(d.next());
@       std::mem::forget(d);
    }
    look(&v[..]);
    v.push(b(9));
    look(&v[..]);
}
//// leaked_drain_filter: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
    {
        let mut d = v.drain_filter(1..5, |x| **x % 2 == 0);
        drop(d.next());
@       std::mem::forget(d);
    }
    look(&v[..]);
    v.push(b(9));
    look(&v[..]);
}
//// leaked_splice: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
    {
        let mut d = v.splice(1..4, std::vec![b(20), b(21)]);
        drop(d.next());
@       std::mem::forget(d);
    }
    look(&v[..]);
    v.push(b(9));
    look(&v[..]);
}
//// leaked_cursor: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..6 { v.push(b(i)); }
    {
        let mut c = v.cursor(1..4);
        drop(c.take_front());
        drop(c.take_back());
@       std::mem::forget(c);
    }
    look(&v[..]);
    v.push(b(9));
    look(&v[..]);
}
//// leaked_spare: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(10);
    v.push(b(1));
    {
        let mut s = v.spare_capacity_mut();
        s.push(b(2));
@       std::mem::forget(s);
    }
    look(&v[..]);
    v.push(b(9));
    look(&v[..]);
}
//// leaked_into_iter: accepted, and has to be harmless
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(10);
    v.push(b(1));
    v.push(b(2));
    let mut it = v.into_iter();
    drop(it.next());
@   std::mem::forget(it);
}
//// gvec_unsafe: an element of gvec! is not in an unsafe block
unsafe fn danger() -> u32 { std::hint::unreachable_unchecked() }
fn safe() -> u32 { 1 }
fn main() {
~   let v: HeapVec<u32> = gvec![safe()];
@   let v: HeapVec<u32> = gvec![danger()];
    look(&v[..]);
}
//// gvec_repeat_unsafe
unsafe fn danger() -> u32 { std::hint::unreachable_unchecked() }
fn safe() -> u32 { 1 }
fn main() {
~   let v: HeapVec<u32> = gvec![safe(); 3];
@   let v: HeapVec<u32> = gvec![danger(); 3];
    look(&v[..]);
}
//// gvec_count_unsafe
unsafe fn danger() -> usize { std::hint::unreachable_unchecked() }
fn safe() -> usize { 1 }
fn main() {
~   let v: HeapVec<u32> = gvec![1; safe()];
@   let v: HeapVec<u32> = gvec![1; danger()];
    look(&v[..]);
}
//// uninit_array_exposed: an uninitialised array is of MaybeUninit
fn main() {
~   let a: [MaybeUninit<bool>; 4] = uninit_array!(4);
@   let a: [bool; 4] = uninit_array!(4);
@   look(&a);
    look(&a.len());
}
//// uninit_array_unsafe
unsafe fn danger() -> usize { std::hint::unreachable_unchecked() }
fn main() {
~   let a: [MaybeUninit<bool>; 4] = uninit_array!(4);
@   let a: [MaybeUninit<bool>; 4] = uninit_array!({ danger(); 4 });
    look(&a.len());
}
//// save_spare_safe: saving the spare capacity is unsafe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(10);
    let mut w: HeapVec<E> = HeapVec::with_capacity(10);
    w.push(b(1));
    let mut s = w.spare_capacity_mut();
    s.push(b(2));
@   save_spare!(s, &mut v);
    look(&v[..]);
}
//// from_raw_parts_safe
fn main() {
    let s: UninitBuffer<[E; 4]> = UninitBuffer::uninit();
~   let v: ArrayVec!(E; 4) = unsafe { GenericVec::from_raw_parts(0, s) };
@   let v: ArrayVec!(E; 4) = GenericVec::from_raw_parts(2, s);
    look(&v[..]);
}
//// set_len_unchecked_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(4);
~   unsafe { v.set_len_unchecked(0); }
@   v.set_len_unchecked(2);
    look(&v[..]);
}
//// push_unchecked_safe
fn main() {
    let mut v: ArrayVec!(E; 2) = GenericVec::with_capacity(2);
~   unsafe { v.push_unchecked(b(0)); }
@   for i in 0..10 { v.push_unchecked(b(i)); }
    look(&v[..]);
}
//// pop_unchecked_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
~   unsafe { v.push(b(1)); v.pop_unchecked(); }
@   drop(v.pop_unchecked());
    look(&v[..]);
}
//// insert_unchecked_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
~   unsafe { v.insert_unchecked(0, b(1)); }
@   v.insert_unchecked(1, b(1));
    look(&v[..]);
}
//// remove_unchecked_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
~   unsafe { v.push(b(1)); v.remove_unchecked(0); }
@   drop(v.remove_unchecked(0));
    look(&v[..]);
}
//// swap_remove_unchecked_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
~   unsafe { v.push(b(1)); v.swap_remove_unchecked(0); }
@   drop(v.swap_remove_unchecked(0));
    look(&v[..]);
}
//// extend_from_slice_unchecked_safe
fn main() {
    let mut v: HeapVec<u32> = HeapVec::with_capacity(2);
~   unsafe { v.extend_from_slice_unchecked(&[1, 2]); }
@   v.extend_from_slice_unchecked(&[1; 1000]);
    look(&v[..]);
}
//// storage_mut_safe: replacing the storage is unsafe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
    v.push(b(1));
@   *v.storage_mut() = Heap::new();
    look(&v[..]);
}
//// raw_cursor_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
    v.push(b(1));
    {
        let mut c = v.raw_cursor(..);
~       unsafe { drop(c.take_front()); }
@       drop(c.take_front()); drop(c.take_front());
    }
    look(&v[..]);
}
//// raw_cursor_write_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
    v.push(b(1));
    {
        let mut c = v.raw_cursor(..);
~       unsafe { drop(c.take_front()); c.write_front(b(2)); }
@       c.write_front(b(1)); c.write_back(b(2));
    }
    look(&v[..]);
}
//// raw_cursor_skip_safe
fn main() {
    let mut v: HeapVec<E> = HeapVec::with_capacity(2);
    v.push(b(1));
    {
        let mut c = v.raw_cursor(..);
~       unsafe { c.skip_front(); }
@       c.skip_front(); c.skip_back(); c.skip_n_front(5);
    }
    look(&v[..]);
}
//// heap_from_raw_parts_safe
fn main() {
    let h: Heap<E> = Heap::new();
    let (p, n) = h.into_raw_parts();
~   let h: Heap<E> = unsafe { Heap::from_raw_parts(p, n) };
@   let h: Heap<E> = Heap::from_raw_parts(p, n + 10);
    let mut v: HeapVec<E> = HeapVec::with_storage(h);
    v.push(b(1));
    look(&v[..]);
}
//// uninit_slice_to_mut_safe
fn main() {
    let mut buf: [MaybeUninit<u32>; 4] = uninit_array!(4);
    let s = UninitSlice::from_mut(&mut buf);
~   look(&unsafe { s.to_mut() }.len());
@   look(&s.to_mut().len());
}
//// send_rc: counters that are not shared by threads
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<_> = HeapVec::new();
    for _ in 0..40 { v.push(r.clone()); }
    let t = std::thread::spawn(move || { for x in v.iter() { drop(x.clone()); } drop(v); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_array
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
~   let mut v: GenericVec<Arc<i32>, UninitBuffer<[usize; 40], usize>> = GenericVec::with_capacity(40);
@   let mut v: GenericVec<Rc<i32>, UninitBuffer<[usize; 40], usize>> = GenericVec::with_capacity(40);
    for _ in 0..40 { v.push(r.clone()); }
    let t = std::thread::spawn(move || { for x in v.iter() { drop(x.clone()); } drop(v); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_other_heap
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
~   let mut v: GenericVec<Arc<i32>, Heap<usize>> = GenericVec::with_storage(Heap::new());
@   let mut v: GenericVec<Rc<i32>, Heap<usize>> = GenericVec::with_storage(Heap::new());
    for _ in 0..40 { v.push(r.clone()); }
    let t = std::thread::spawn(move || { for x in v.iter() { drop(x.clone()); } drop(v); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_into_iter
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<_> = HeapVec::new();
    for _ in 0..40 { v.push(r.clone()); }
    let it = v.into_iter();
    let t = std::thread::spawn(move || { for x in it { drop(x.clone()); } });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_drain
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<_> = HeapVec::new();
    for _ in 0..40 { v.push(r.clone()); }
    let d = Box::leak(Box::new(v)).drain(..);
    let t = std::thread::spawn(move || { for x in d { drop(x.clone()); } });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_cursor
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<_> = HeapVec::new();
    for _ in 0..40 { v.push(r.clone()); }
    let mut c = Box::leak(Box::new(v)).cursor(..);
    let t = std::thread::spawn(move || { while !c.is_empty() { drop(c.take_front()); } });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_splice: in the replacement only
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<usize> = HeapVec::new();
    for i in 0..40 { v.push(i); }
    let c = r.clone();
    let d = Box::leak(Box::new(v)).splice(3..7, (0..20).map(move |i| *c.clone() + i));
    let t = std::thread::spawn(move || { drop(d); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_drain_filter: in the predicate only
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<usize> = HeapVec::new();
    for i in 0..40 { v.push(i); }
    let c = r.clone();
    let d = Box::leak(Box::new(v)).drain_filter(.., move |i| *c.clone() < *i);
    let t = std::thread::spawn(move || { drop(d); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// send_rc_spare
fn main() {
~   let r = Arc::new(7);
@   let r = Rc::new(7);
    let mut v: HeapVec<_> = HeapVec::with_capacity(50);
    v.push(r.clone());
    let mut s = Box::leak(Box::new(v)).spare_capacity_mut();
    for _ in 0..40 { s.push(r.clone()); }
    let t = std::thread::spawn(move || { drop(s); });
    for _ in 0..40 { drop(r.clone()); }
    t.join().unwrap();
}
//// share_cell: a vector of cells is not shared by threads
fn main() {
~   let mut v: HeapVec<Mutex<u32>> = HeapVec::new();
~   v.push(Mutex::new(1));
@   let mut v: HeapVec<Cell<u32>> = HeapVec::new();
@   v.push(Cell::new(1));
    let v: &'static _ = Box::leak(Box::new(v));
    let t = std::thread::spawn(move || set(&v[0]));
    for _ in 0..40 { set(&v[0]); }
    t.join().unwrap();
}
~fn set(c: &Mutex<u32>) { *c.lock().unwrap() += 1; }
@fn set(c: &Cell<u32>) { for _ in 0..40 { c.set(c.get() + 1); } }
//// share_cell_buffer
fn main() {
~   let mut v: GenericVec<Mutex<u32>, UninitBuffer<[u64; 8], u64>> = GenericVec::with_capacity(1);
~   v.push(Mutex::new(1));
@   let mut v: GenericVec<Cell<u32>, UninitBuffer<[u64; 8], u64>> = GenericVec::with_capacity(1);
@   v.push(Cell::new(1));
    let v: &'static _ = Box::leak(Box::new(v));
    let t = std::thread::spawn(move || set(&v[0]));
    for _ in 0..40 { set(&v[0]); }
    t.join().unwrap();
}
~fn set(c: &Mutex<u32>) { *c.lock().unwrap() += 1; }
@fn set(c: &Cell<u32>) { for _ in 0..40 { c.set(c.get() + 1); } }
//// share_cell_cursor
fn main() {
~   let mut v: HeapVec<Mutex<u32>> = HeapVec::new();
~   v.push(Mutex::new(1));
@   let mut v: HeapVec<Cell<u32>> = HeapVec::new();
@   v.push(Cell::new(1));
    let c: &'static _ = Box::leak(Box::new(Box::leak(Box::new(v)).cursor(..)));
    let t = std::thread::spawn(move || set(c.front().unwrap()));
    for _ in 0..40 { set(c.front().unwrap()); }
    t.join().unwrap();
}
~fn set(c: &Mutex<u32>) { *c.lock().unwrap() += 1; }
@fn set(c: &Cell<u32>) { for _ in 0..40 { c.set(c.get() + 1); } }
//// share_cell_into_iter
fn main() {
~   let mut v: HeapVec<Mutex<u32>> = HeapVec::new();
~   v.push(Mutex::new(1));
@   let mut v: HeapVec<Cell<u32>> = HeapVec::new();
@   v.push(Cell::new(1));
    let c: &'static _ = Box::leak(Box::new(v.into_iter()));
    let t = std::thread::spawn(move || set(&c.as_slice()[0]));
    for _ in 0..40 { set(&c.as_slice()[0]); }
    t.join().unwrap();
}
~fn set(c: &Mutex<u32>) { *c.lock().unwrap() += 1; }
@fn set(c: &Cell<u32>) { for _ in 0..40 { c.set(c.get() + 1); } }
//// panic_in_clone_seen: what is left after a panic has to be harmless
struct P(E);
impl Clone for P { fn clone(&self) -> P { if *self.0 == 4 { panic!("clone") } P(self.0.clone()) } }
fn main() {
    let mut v: HeapVec<P> = HeapVec::new();
~   for i in 0..4 { v.push(P(b(i))); }
@   for i in 0..6 { v.push(P(b(i))); }
    let w: Vec<P> = std::mem::replace(&mut v, HeapVec::new()).into();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.extend_from_slice(&w)));
    look(&r.is_err());
    for x in v.iter() { look(&x.0); }
}
//// lying_len: an iterator that lies about its length has to be harmless
struct Lie(u32, usize);
impl Iterator for Lie {
    type Item = E;
    fn next(&mut self) -> Option<E> { if self.0 == 0 { None } else { self.0 -= 1; Some(b(self.0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, Some(self.1)) }
}
impl ExactSizeIterator for Lie {}
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
~   v.extend(Lie(3, 3));
@   v.extend(Lie(30, 3)); v.extend(Lie(3, 30));
~   v.splice(1..2, Lie(3, 3));
@   v.splice(1..2, Lie(30, 3)); v.splice(1..2, Lie(3, 30));
    look(&v[..]);
    let w: HeapVec<E> = Lie(5, 5).collect();
@   let w: HeapVec<E> = Lie(50, 1).collect();
    look(&w[..]);
}
//// lying_range: bounds that change between two looks have to be harmless
struct R(Cell<usize>, usize, usize);
impl std::ops::RangeBounds<usize> for R {
    fn start_bound(&self) -> std::ops::Bound<&usize> { self.0.set(self.0.get() + 1); std::ops::Bound::Included(if self.0.get() > 2 { &self.2 } else { &self.1 }) }
    fn end_bound(&self) -> std::ops::Bound<&usize> { self.0.set(self.0.get() + 1); std::ops::Bound::Excluded(if self.0.get() > 2 { &9000 } else { &self.2 }) }
}
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..10 { v.push(b(i)); }
~   let r = 1..3;
@   let r = R(Cell::new(0), 1, 3);
    drop(v.drain(r));
~   let r = 1..3;
@   let r = R(Cell::new(0), 1, 3);
    drop(v.splice(r, std::vec![b(1)]));
~   let r = 1..3;
@   let r = R(Cell::new(0), 1, 3);
    drop(v.drain_filter(r, |_| true));
~   let r = 1..3;
@   let r = R(Cell::new(0), 1, 3);
    drop(v.cursor(r));
    look(&v[..]);
}
//// lying_as_ref: a comparison with something that shows different slices
struct A(Cell<usize>, [E; 3]);
impl AsRef<[E]> for A { fn as_ref(&self) -> &[E] { self.0.set(self.0.get() + 1); &self.1[..3 - self.0.get() % 3] } }
fn main() {
    let mut v: HeapVec<E> = HeapVec::new();
    for i in 0..3 { v.push(b(i)); }
~   let a = [b(0), b(1), b(2)];
@   let a = A(Cell::new(0), [b(0), b(1), b(2)]);
    look(&(v == a));
    look(&(v.partial_cmp(&a)));
}
//// lying_default: storage of initialised elements made by default
#[derive(Clone, Copy, Debug)]
struct D(&'static str);
impl Default for D { fn default() -> D { D("default") } }
fn main() {
    let mut v: InitArrayVec!(D; 4) = Default::default();
~   v.push(D("x"));
@   v.set_len(4);
    look(&v[..]);
}
"""


def programs():
    """{name: (is it the twin, text, nightly only)}"""
    out = {}
    matrix(out)
    name, lines = None, []

    def flush():
        if not name:
            return
        pick = lambda other, mark: "\n".join(l[1:] if l.startswith(mark) else l for l in lines if not l.startswith(other))
        out[name + "_ok"] = (True, pick("@", "~"))
        out[name] = (False, pick("~", "@"))
    for l in TEXTS.splitlines():
        m = re.match(r"//// (\w+)", l)
        if m:
            flush()
            name, lines = m.group(1), []
        elif name:
            lines.append(l)
    flush()
    return {k: (ok, PRELUDE + t + "\n", k.startswith("nightly_")) for k, (ok, t) in out.items()}


TOML = """[package]
name = "misuse"
version = "0.1.0"
edition = "2018"
publish = false

[workspace]

[features]
nightly = ["generic-vec/nightly"]

[dependencies]
generic-vec = { path = "/repo", default-features = false, features = ["std"] }

[profile.dev]
opt-level = 0
debug = 0
strip = false
incremental = false
"""


def write(d, progs):
    """Writes the crate; returns [(first line, last line, name)]"""
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    lines, spans = PRELUDE.splitlines(), []
    for n, text in progs:
        lines.append("mod %s { use super::*;" % n)
        a = len(lines)
        lines += ["pub " + l if l.startswith("fn main()") else l for l in text[len(PRELUDE):].splitlines()]
        lines.append("} // " + n)
        spans.append((a, len(lines), n))
    lines.append("fn main() {")
    lines.append('    for a in std::env::args().skip(1) { match &a[..] {')
    for n, _ in progs:
        lines.append('        "%s" => { println!("program %s"); %s::main() }' % (n, n, n))
    lines.append('        _ => panic!("no program {}", a),')
    lines.append("    } }")
    lines.append("}")
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(TOML)
    return spans


def cargo(lane, run, d, cmd, timeout):
    l = run.LANES[lane]
    tool = ["cargo"]
    if l.get("old"):
        tool.append("+1.79.0")
    elif l.get("miri") or l.get("asan"):
        tool.append("+nightly")
    args = tool + cmd + ["--offline", "--target-dir", os.path.join(d, "t")]
    if l.get("asan"):
        args += ["--target", run.TRIPLE]
    if "nightly" in l["features"]:
        args += ["--features", "nightly"]
    return args


def errors_of(out, spans):
    """{program: {error codes}}, and the errors that belong to no program"""
    by, other = {}, []
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        where = set()

        def look(x):
            for s in x.get("spans", []):
                while s:
                    if s["file_name"].endswith("src/main.rs") and m["target"]["name"] == "misuse":
                        for a, b, n in spans:
                            if a <= s["line_start"] <= b:
                                where.add((n, s["is_primary"]))
                    s = (s.get("expansion") or {}).get("span")
            for c in x.get("children", []):
                look(c)
        look(msg)
        prim = {n for n, p in where if p} or {n for n, _ in where}
        code = (msg.get("code") or {}).get("code") or "error"
        if prim:
            for n in prim:
                by.setdefault(n, set()).add(code)
        elif not msg["message"].startswith(("aborting due to", "could not compile")):
            other.append(msg["message"])
    return by, other


def reduce(lane, run, d, progs):
    """Compiles the programs, without the ones the compiler rejects: {rejected: codes}, accepted, problem"""
    rejected = {}
    for _ in range(12):
        spans = write(d, progs)
        cmd = ["check"] if run.LANES[lane].get("miri") else ["build"]
        env = run.lane_env(lane)
        r = subprocess.run(cargo(lane, run, d, cmd, 600) + ["--message-format", "json"], cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if r.returncode == 0:
            return rejected, progs, None
        by, other = errors_of(r.stdout.decode("utf-8", "replace"), spans)
        if not by:
            return rejected, progs, "does not build: %s %s" % (other[:3], r.stderr.decode("utf-8", "replace")[-600:])
        rejected.update(by)
        progs = [(n, t) for n, t in progs if n not in by]
    return rejected, progs, "does not build after 12 rounds"


class Ended:
    pass


def launch(lane, run, d, names, timeout):
    l = run.LANES[lane]
    if l.get("miri"):
        cmd = cargo(lane, run, d, ["miri", "run"], timeout) + ["--"] + names
    else:
        cmd = [os.path.join(d, "t", run.TRIPLE, "debug", "misuse")] + names
    env = run.run_env(lane)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:detect_stack_use_after_return=1"
    e = Ended()
    try:
        r = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=run.limits(lane, 0))
    except subprocess.TimeoutExpired as t:
        e.rc, e.out, e.err = None, (t.stdout or b"").decode("utf-8", "replace"), ""
        return e
    e.rc, e.out, e.err = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    return e


def judge(lane, run, e):
    """(outcome, what is wrong or None)"""
    c = run.crashed(lane, e)
    if "MISUSE" in e.out:
        return "violation", [x for x in e.out.splitlines() if "MISUSE" in x][0]
    if run.LANES[lane].get("miri"):
        if c and "Undefined Behavior" in c:
            return "violation", c
        if re.search(r"post-monomorphization error|evaluation of `.*` failed|E0080", e.err):
            return "rejected when instantiated", None
        if c:
            return "ended: " + c[:80], None
    elif c:
        if "SIGABRT" in c:
            return "ended: aborted", None
        return "violation", c
    if e.rc == 0:
        return "harmless", None
    if e.rc == 101 and "panicked at" in e.err:
        return "panics", None
    return None, "exit %s: %s" % (e.rc, e.err[-800:])


def lane_run(lane, run, target, todo, log):
    """[(program, outcome, detail, output)], problems"""
    d = os.path.join(target, "misuse", lane)
    res, problems = [], []
    progs = [(n, t) for n, (ok, t, nightly) in sorted(programs().items()) if (not nightly or "nightly" in run.LANES[lane]["features"])]
    # AddressSanitizer of rustc 1.52.1 cannot run threads
    threads = run.LANES[lane].get("old") and run.LANES[lane].get("asan")
    twins = [(n, t) for n, t in progs if n.endswith("_ok")]
    wrong = [(n, t) for n, t in progs if not n.endswith("_ok")]
    if todo:
        wrong = [x for x in wrong if x[0] in todo]
        twins = [x for x in twins if x[0] in todo]
    t0 = time.time()
    # what may fail to compile when instantiated: the compiler does not say where it was
    alone = [] if run.LANES[lane].get("miri") else [x for x in wrong if x[0].startswith("zero_sized")]
    rejected, accepted = {}, []
    for x in alone:
        r, a, problem = reduce(lane, run, d, [x])
        rejected.update(r)
        if problem and "evaluation of constant value failed" in problem:
            rejected[x[0]] = {"when instantiated"}
            continue
        elif problem:
            return res, ["lane %s: %s: %s" % (lane, x[0], problem)]
        accepted += a
    r, a, problem = reduce(lane, run, d, [x for x in twins + wrong if x not in alone or x in accepted])
    rejected.update(r)
    accepted = a
    log("lane %s (%s): %d programs, %d rejected by the compiler, %.1f s" % (lane, run.LANES[lane]["what"], len(twins) + len(wrong), len(rejected), time.time() - t0))
    if problem:
        return res, ["lane %s: %s" % (lane, problem)]
    for n, codes in sorted(rejected.items()):
        if n.endswith("_ok"):
            problems.append("lane %s: the twin %s does not compile: %s" % (lane, n, sorted(codes)))
        else:
            res.append((n, "rejected by the compiler: " + " ".join(sorted(codes)), None, ""))
    acc = [n for n, t in accepted if not (threads and "thread::spawn" in t)]
    tw = [n for n in acc if n.endswith("_ok")]
    wr = [n for n in acc if not n.endswith("_ok")]
    # twins in one process for each part, misuses in a process each
    parts = [tw[k::6] for k in range(6) if tw[k::6]]
    if run.LANES[lane].get("miri") and acc:
        # builds
        launch(lane, run, d, [], 600)
    with ThreadPoolExecutor(max_workers=8) as pool:
        for names, e in pool.map(lambda x: (x, launch(lane, run, d, x, 300)), parts + [[n] for n in wr]):
            o, what = judge(lane, run, e)
            if len(names) > 1 or names[0].endswith("_ok"):
                if o == "harmless":
                    res += [(n, "proper use, harmless", None, "") for n in names]
                    continue
                at = [l[8:] for l in e.out.splitlines() if l.startswith("program ")]
                n = at[-1] if at else names[0]
                if o == "violation":
                    res.append((n, o, what, e.out[-1000:] + e.err[-3000:]))
                elif o == "panics":
                    res.append((n, "violation", "panics, though the interface is used properly: " + e.err[-300:], e.out[-1000:] + e.err[-3000:]))
                else:
                    problems.append("lane %s: %s: %s" % (lane, n, what or o))
            elif o is None:
                problems.append("lane %s: %s: %s" % (lane, names[0], what))
            else:
                res.append((names[0], o, what, e.out[-1000:] + e.err[-3000:]))
    return res, problems


def check(run, j, lanes):
    """Called by run.py: returns what goes into the evidence file"""
    cov = {"outcomes": {}, "lanes": {}, "accepted_by_the_compiler": {}}
    for lane in lanes:
        try:
            res, problems = lane_run(lane, run, run.TARGET, None, j.log)
        except subprocess.TimeoutExpired:
            res, problems = [], ["lane %s: the build took over 600 s" % lane]
        for p in problems:
            j.error(p)
        cov["lanes"][lane] = {"what": run.LANES[lane]["what"], "programs": len(res)}
        for n, o, what, out in res:
            cov["outcomes"][o] = cov["outcomes"].get(o, 0) + 1
            if not o.startswith(("rejected", "proper")):
                cov["accepted_by_the_compiler"].setdefault(n, {})[lane] = o
            j.distinct.add((lane, n, o))
            if o == "violation":
                j.misuse(lane, n, what, out)
    return cov


def replay(run, f):
    res, problems = lane_run(f["lane"], run, run.TARGET, [f["program"]], print)
    for r in res:
        print("%s: %s %s\n%s" % r)
    for p in problems:
        print("ERROR " + p)
    return 1 if any(r[1] == "violation" for r in res) else 2 if problems else 0
