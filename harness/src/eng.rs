//! Operations on a vector, each with its effect on the model and everything
//! that must hold afterwards. They end with a full comparison of the vector
//! with its model.

use crate::alloc::untracked;
use crate::cx::{check_alive, items, show, Cx, Sub};
use crate::elem::{Elem, Item};
use crate::mon::{run, tick, End, Kind};
use crate::stores::Store;

pub type Op<E, K> = fn(&mut Cx, &mut Sub<E, K>);

/// How an iterator describes its length
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Exact,
    Zero,
    Under,
    Over(usize),
    /// right, but tells little: at most so many more than there are
    Wide(usize),
    /// right, with bounds as near to these as they can be
    Near(usize, usize),
}

impl Hint {
    /// now and then the bounds are about what there is room for
    pub fn room(self, cx: &mut Cx, room: usize) -> Hint {
        if !cx.rng.chance(1, 4) {
            return self
        }
        let lo = if cx.rng.chance(1, 3) { 0 } else { room.saturating_sub(cx.rng.below(2)) };
        let hi = if cx.rng.chance(1, 3) { usize::MAX } else { room.saturating_add(cx.rng.below(2)) };
        Hint::Near(lo, hi)
    }
    pub fn any(cx: &mut Cx) -> Hint {
        match cx.rng.below(10) {
            0 => Hint::Zero,
            1 => Hint::Under,
            2 => Hint::Over(cx.rng.pick(&[1, 5, 1000, isize::MAX as usize, usize::MAX])),
            3 | 4 => Hint::Wide(cx.rng.pick(&[1, 2, 40, 1000, usize::MAX])),
            _ => Hint::Exact,
        }
    }
    /// A storage that grows, or a buffer, may abort the process when it is asked for too much
    pub fn modest(self) -> Hint {
        match self {
            Hint::Over(_) => Hint::Over(1000),
            h => h,
        }
    }
    fn of(self, n: usize) -> (usize, Option<usize>) {
        match self {
            Hint::Exact => (n, Some(n)),
            Hint::Zero => (0, None),
            Hint::Under => (n / 2, Some(n + 3)),
            Hint::Over(k) => (n.saturating_add(k), None),
            Hint::Wide(k) => (n.min(k % 5), Some(n.saturating_add(k))),
            Hint::Near(lo, hi) => (n.min(lo), if hi == usize::MAX { None } else { Some(n.max(hi)) }),
        }
    }
}

/// An iterator over given elements whose calls count as user callbacks
pub struct Feed<E> {
    items: std::vec::IntoIter<E>,
    hint: Hint,
    pub calls: u64,
    /// not fused: goes on when it is asked again after its end
    unfused: bool,
    ended: bool,
}

/// The same for references
pub struct Refs<'a, E> {
    items: core::slice::Iter<'a, E>,
    hint: Hint,
    unfused: Option<&'a E>,
    ended: bool,
}

impl<'a, E: Elem> Refs<'a, E> {
    pub fn new(cx: &mut Cx, xs: &'a [E], hint: Hint) -> Self {
        let unfused = if cx.rng.chance(1, 4) { xs.first() } else { None };
        Refs { items: xs.iter(), hint, unfused, ended: false }
    }
}

impl<'a, E: Elem> Iterator for Refs<'a, E> {
    type Item = &'a E;
    fn next(&mut self) -> Option<&'a E> {
        tick(Kind::Next);
        if self.ended {
            return self.unfused
        }
        let r = self.items.next();
        self.ended = r.is_none();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint.of(self.items.len())
    }
}

impl<E: Elem> Feed<E> {
    pub fn new(cx: &mut Cx, n: usize) -> (Self, Vec<Item>) {
        let hint = Hint::any(cx);
        let unfused = cx.rng.chance(1, 4);
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(cx.make::<E>());
        }
        let m = items(&v);
        (Feed { items: v.into_iter(), hint, calls: 0, unfused, ended: false }, m)
    }
    pub fn exact(v: Vec<E>) -> Self {
        Feed { items: v.into_iter(), hint: Hint::Exact, calls: 0, unfused: false, ended: false }
    }
    pub fn with_hint(mut self, hint: Hint) -> Self {
        self.hint = hint;
        self
    }
    pub fn hint(&self) -> Hint {
        self.hint
    }
    pub fn modest(&mut self) {
        self.hint = self.hint.modest()
    }
}

impl<E: Elem> Iterator for Feed<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        tick(Kind::Next);
        self.calls += 1;
        if self.ended {
            return if self.unfused { Some(E::make(1)) } else { None }
        }
        let r = self.items.next();
        self.ended = r.is_none();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint.of(self.items.len())
    }
}

fn upto(m: &mut Vec<Item>, xs: &[Item]) {
    untracked(|| m.extend_from_slice(xs))
}

/// The call has to panic, as there is no room
pub fn want_panic<R>(cx: &mut Cx, r: End<R>, what: &str) {
    match r {
        End::Panic(m) => {
            cx.op("refused with a panic");
            cx.log(|| format!("   // panicked: {}", m));
            cx.hash(77)
        }
        End::Ok(_) => violate!("{} returned although it had to panic", what),
        End::Fuse => violate!("{}: stray injected panic", what),
    }
}

pub fn want_ok<R>(r: End<R>, what: &str) -> R {
    match r {
        End::Ok(x) => x,
        End::Panic(m) => violate!("{} panicked: {}", what, m),
        End::Fuse => violate!("{}: stray injected panic", what),
    }
}

macro_rules! ops {
    ($($(#[$a:meta])* fn $name:ident($cx:ident, $s:ident) $body:block)*) => {$(
        $(#[$a])*
        pub fn $name<E: Elem, K: Store<E>>($cx: &mut Cx, $s: &mut Sub<E, K>) {
            $cx.op(stringify!($name));
            $body
        }
    )*};
}

ops! {
    fn push(cx, s) {
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("push({:?})", it));
        let fits = s.fits(1);
        let r = run(|| {
            let v = &mut s.g.v;
            let p: *const E = v.push(e);
            p
        });
        if fits {
            let p = want_ok(r, "push");
            s.m_push(it);
            check_eq!(p, &s.g.v[s.m.len() - 1] as *const E, "the reference that push returned");
        } else {
            want_panic(cx, r, "push into a full vector");
        }
        s.verify(cx, "push");
    }

    fn pop(cx, s) {
        cx.log(|| "pop()".into());
        let r = run(|| s.g.v.pop());
        match s.m.pop() {
            None => want_panic(cx, r, "pop from an empty vector"),
            Some(it) => {
                let e = want_ok(r, "pop");
                check_eq!(e.item(), it, "popped element");
                s.verify_held(cx, 1, "pop");
                drop(e);
            }
        }
        s.verify(cx, "pop");
    }

    fn insert(cx, s) {
        let i = cx.index(s.m.len());
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("insert({}, {:?})", i, it));
        let fits = s.fits(1);
        let r = run(|| {
            let p: *const E = s.g.v.insert(i, e);
            p
        });
        if fits {
            let p = want_ok(r, "insert");
            let m = &mut s.m;
            untracked(|| m.insert(i, it));
            check_eq!(p, &s.g.v[i] as *const E, "the reference that insert returned");
        } else {
            want_panic(cx, r, "insert into a full vector");
        }
        s.verify(cx, "insert");
    }

    fn remove(cx, s) {
        if s.m.is_empty() {
            return
        }
        let n = s.m.len();
        let i = cx.index(n).min(n - 1);
        cx.log(|| format!("remove({})", i));
        let e = want_ok(run(|| s.g.v.remove(i)), "remove");
        let it = s.m.remove(i);
        check_eq!(e.item(), it, "removed element");
        s.verify_held(cx, 1, "remove");
        drop(e);
        s.verify(cx, "remove");
    }

    fn swap_remove(cx, s) {
        if s.m.is_empty() {
            return
        }
        let n = s.m.len();
        let i = cx.index(n).min(n - 1);
        cx.log(|| format!("swap_remove({})", i));
        let e = want_ok(run(|| s.g.v.swap_remove(i)), "swap_remove");
        let it = s.m.swap_remove(i);
        check_eq!(e.item(), it, "removed element");
        s.verify_held(cx, 1, "swap_remove");
        drop(e);
        s.verify(cx, "swap_remove");
    }

    fn truncate(cx, s) {
        let n = s.m.len();
        let i = match cx.rng.below(8) {
            0 => n + 1 + cx.rng.below(5),
            1 => usize::MAX - cx.rng.below(2),
            _ => cx.index(n),
        };
        cx.log(|| format!("truncate({})", i));
        want_ok(run(|| s.g.v.truncate(i)), "truncate");
        s.m.truncate(i);
        s.verify(cx, "truncate");
    }

    fn clear(cx, s) {
        cx.log(|| "clear()".into());
        want_ok(run(|| s.g.v.clear()), "clear");
        s.m.clear();
        s.verify(cx, "clear");
    }

    fn mutate(cx, s) {
        let n = s.m.len();
        if n == 0 {
            return
        }
        let i = cx.rng.below(n);
        let val = cx.val::<E>();
        cx.log(|| format!("v[{}] = {} in place", i, val));
        match cx.rng.below(4) {
            0 => s.g.v[i].set(val),
            1 => s.g.v.as_mut_slice()[i].set(val),
            2 => s.g.v.iter_mut().nth(i).unwrap().set(val),
            _ => (&mut s.g.v).into_iter().nth(i).unwrap().set(val),
        }
        s.m[i].val = val;
        let j = cx.rng.below(n);
        s.g.v.swap(i, j);
        s.m.swap(i, j);
        s.verify(cx, "a change in place");
    }

    fn assign(cx, s) {
        let n = s.m.len();
        if n == 0 {
            return
        }
        let i = cx.rng.below(n);
        let e: E = cx.make();
        s.m[i] = e.item();
        cx.log(|| format!("v[{}] = {:?}", i, e.item()));
        s.g.v[i] = e;
        s.verify(cx, "assignment");
    }

    // ---- several elements at a time ----

    fn resize(cx, s) {
        let n = s.m.len();
        let to = if cx.rng.chance(1, 3) { cx.index(n) } else { n + cx.amount() };
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("resize({}, {:?})", to, it));
        let add = to.saturating_sub(n);
        let fits = s.fits(add);
        let r = run(|| s.g.v.resize(to, e));
        grown(cx, s, r, to, it.val, fits, "resize");
    }

    fn resize_with(cx, s) {
        let n = s.m.len();
        let to = if cx.rng.chance(1, 3) { cx.index(n) } else { n + cx.amount() };
        grow_by(cx, s, to, true);
    }

    fn grow_with(cx, s) {
        let to = s.m.len() + cx.amount();
        grow_by(cx, s, to, false);
    }

    fn grow(cx, s) {
        let add = cx.amount();
        let to = s.m.len() + add;
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("grow({}, {:?})", add, it));
        let fits = s.fits(add);
        let r = run(|| s.g.v.grow(add, e));
        grown(cx, s, r, to, it.val, fits, "grow");
    }

    fn extend(cx, s) {
        let n = cx.amount();
        let (mut f, m) = Feed::<E>::new(cx, n);
        let h = f.hint().room(cx, s.cap - s.m.len());
        f = f.with_hint(h);
        if !s.is_fixed() {
            f.modest()
        }
        cx.log(|| format!("extend({}, size hint {:?})", show(&m), f.hint()));
        let by_ref = cx.rng.chance(1, 4);
        let hint = f.hint();
        let fits = s.fits(n);
        let room = s.room(n);
        let v = &mut s.g.v;
        let r = run(move || {
            let mut f = f;
            if by_ref {
                v.extend(&mut f)
            } else {
                v.extend(f)
            }
        });
        // an iterator that claims to be longer than it is may be refused
        let lies = matches!(hint, Hint::Over(_)) && r.panicked();
        if fits && !lies {
            want_ok(r, "extend");
            upto(&mut s.m, &m);
        } else {
            want_panic(cx, r, "extend beyond a fixed capacity");
            // what was there stays, followed by some of the new elements
            let old = untracked(|| s.m.clone());
            s.adopt("extend");
            check!(s.m.len() >= old.len() && s.m.len() <= old.len() + room, "length {} after extend panicked, was {}", s.m.len(), old.len());
            let k = s.m.len() - old.len();
            check!(lies || k == room, "{} elements added by an extend that panicked, {} fit", k, room);
            check_eq!(&s.m[..old.len()], &old[..], "old contents after extend panicked");
            check_eq!(&s.m[old.len()..], &m[..k], "new elements after extend panicked");
        }
        s.verify(cx, "extend");
    }

    fn extend_from_slice(cx, s) {
        let n = cx.amount();
        let xs: Vec<E> = (0..n).map(|_| cx.make()).collect();
        let m = items(&xs);
        cx.log(|| format!("extend_from_slice({})", show(&m)));
        let fits = s.fits(n);
        let r = run(|| s.g.v.extend_from_slice(&xs));
        check_eq!(items(&xs), m, "the source of extend_from_slice");
        cloned(cx, s, r, &m, fits, n, "extend_from_slice");
        drop(xs);
        s.verify(cx, "extend_from_slice");
    }

    fn extend_refs(cx, s) {
        let n = cx.amount();
        let xs: Vec<E> = (0..n).map(|_| cx.make()).collect();
        let m = items(&xs);
        let hint = Hint::any(cx).room(cx, s.cap - s.m.len());
        let hint = if s.is_fixed() { hint } else { hint.modest() };
        cx.log(|| format!("extend({} by reference, size hint {:?})", show(&m), hint));
        let fits = s.fits(n);
        let room = s.room(n);
        let mut it = Refs::new(cx, &xs, hint);
        let way = cx.rng.below(3);
        let r = run(|| match way {
            0 => s.g.v.extend(xs.iter()),
            1 => s.g.v.extend(&mut it),
            _ => s.g.v.extend(it),
        });
        let lies = way > 0 && matches!(hint, Hint::Over(_)) && r.panicked();
        if fits && !lies {
            cloned(cx, s, r, &m, true, n, "extend by reference");
        } else {
            want_panic(cx, r, "extend by reference beyond a fixed capacity");
            let old = untracked(|| s.m.clone());
            s.adopt("extend by reference");
            let k = s.m.len().wrapping_sub(old.len());
            check!(k <= room, "length {} after extend by reference panicked, was {}", s.m.len(), old.len());
            check!(lies || k == room, "{} elements added by an extend by reference that panicked, {} fit", k, room);
            check_eq!(&s.m[..old.len()], &old[..], "old contents after extend by reference panicked");
            for (a, b) in s.m[old.len()..].iter().zip(&m) {
                check_eq!(a.val, b.val, "value of a new element after extend by reference panicked");
            }
            untracked(|| drop(old));
            s.verify_held(cx, n as isize, "extend by reference");
        }
        check_eq!(items(&xs), m, "the source of extend by reference");
        check_alive(&xs, "the source of extend by reference");
        drop(xs);
        untracked(|| drop(m));
        s.verify(cx, "extend by reference");
    }

    fn clone_from(cx, s) {
        let n = if cx.rng.chance(1, 3) { s.m.len() } else { cx.amount() };
        let mut over = false;
        let n = match s.growth {
            crate::stores::Growth::Fixed(c) if n > c => {
                over = cx.rng.chance(1, 2);
                if over { n } else { c }
            }
            _ => n,
        };
        let xs: Vec<E> = (0..n).map(|_| cx.make()).collect();
        let m = items(&xs);
        cx.log(|| format!("clone_from({})", show(&m)));
        let r = run(|| s.g.v.clone_from(&xs));
        if over {
            // what fits may have been replaced already
            want_panic(cx, r, "clone_from beyond a fixed capacity");
            let old = untracked(|| s.m.clone());
            s.adopt("clone_from");
            check!(s.m.len() <= s.cap, "length {} after clone_from panicked, capacity {}", s.m.len(), s.cap);
            for (i, a) in s.m.iter().enumerate() {
                check!(a.val == m[i].val || old.get(i) == Some(a), "element {} after clone_from panicked: {:?}", i, a);
            }
            check_eq!(items(&xs), m, "the source of clone_from");
            check_alive(&xs, "the source of clone_from");
            s.verify_held(cx, n as isize, "clone_from");
            drop(xs);
            untracked(|| drop((m, old)));
            return s.verify(cx, "clone_from");
        }
        want_ok(r, "clone_from");
        check_eq!(s.g.v.len(), n, "length after clone_from");
        check_eq!(items(&xs), m, "the source of clone_from");
        s.adopt("clone_from");
        for (i, (a, b)) in s.m.iter().zip(&m).enumerate() {
            check_eq!(a.val, b.val, "value {} after clone_from", i);
            check!(E::ZST || !E::TRACKED || a.id != b.id, "clone_from copied element {} bit by bit", i);
        }
        drop(xs);
        s.verify(cx, "clone_from");
    }

    // ---- capacity ----

    fn reserve(cx, s) {
        let n = cx.amount();
        cx.log(|| format!("reserve({})", n));
        let before = s.g.v.as_ptr();
        let had = s.cap - s.m.len() >= n;
        let fits = s.fits(n);
        let r = run(|| s.g.v.reserve(n));
        if fits {
            want_ok(r, "reserve");
            check!(s.g.v.capacity() - s.g.v.len() >= n, "capacity {} of {} elements after reserve({})", s.g.v.capacity(), s.g.v.len(), n);
            if had {
                check_eq!(s.g.v.capacity(), s.cap, "capacity after a reserve that needs no more");
                check_eq!(s.g.v.as_ptr(), before, "pointer after a reserve that needs no more");
            }
        } else {
            want_panic(cx, r, "reserve beyond a fixed capacity");
        }
        s.verify(cx, "reserve");
    }

    fn try_reserve(cx, s) {
        let n = if cx.rng.chance(1, 6) { cx.rng.pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize, usize::MAX - 3]) } else { cx.amount() };
        cx.log(|| format!("try_reserve({})", n));
        let huge = n > 1 << 40;
        let fits = if huge { false } else { s.fits(n) };
        let cap = s.cap;
        let room = cap - s.m.len();
        let r = want_ok(run(|| s.g.v.try_reserve(n)), "try_reserve");
        check_eq!(r, fits || room >= n, "result of try_reserve({}), length {}, capacity {}", n, s.m.len(), cap);
        if r {
            check!(s.g.v.capacity() - s.g.v.len() >= n, "capacity {} of {} elements after try_reserve({})", s.g.v.capacity(), s.g.v.len(), n);
        }
        if !r || room >= n {
            check_eq!(s.g.v.capacity(), cap, "capacity after try_reserve({}) = {}", n, r);
        }
        s.verify(cx, "try_reserve");
    }

    // ---- fallible variants ----

    fn try_push(cx, s) {
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("try_push({:?})", it));
        let full = s.m.len() == s.cap;
        let cap = s.cap;
        let ptr = s.g.v.as_ptr();
        let r = want_ok(run(|| match s.g.v.try_push(e) {
            Ok(p) => Ok(p as *const E),
            Err(e) => Err(e),
        }), "try_push");
        match r {
            Ok(p) => {
                check!(!full, "try_push into a full vector succeeded");
                s.m_push(it);
                check_eq!(p, &s.g.v[s.m.len() - 1] as *const E, "the reference that try_push returned");
                s.verify(cx, "try_push");
            }
            Err(e) => {
                check!(full, "try_push failed although there is room");
                check_eq!(e.item(), it, "the element that try_push gave back");
                s.verify_held(cx, 1, "try_push");
                cx.op("handed back");
                cx.hash(13);
                drop(e);
            }
        }
        check_eq!(s.g.v.capacity(), cap, "capacity after try_push");
        check_eq!(s.g.v.as_ptr(), ptr, "pointer after try_push");
        s.verify(cx, "try_push");
    }

    fn try_insert(cx, s) {
        let n = s.m.len();
        let i = if cx.rng.chance(1, 4) { n + cx.rng.pick(&[1, 2, 7, usize::MAX - n]) } else { cx.index(n) };
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("try_insert({}, {:?})", i, it));
        let bad = n == s.cap || i > n;
        let cap = s.cap;
        let r = want_ok(run(|| match s.g.v.try_insert(i, e) {
            Ok(p) => Ok(p as *const E),
            Err(e) => Err(e),
        }), "try_insert");
        match r {
            Ok(p) => {
                check!(!bad, "try_insert at {} into a vector of length {} and capacity {} succeeded", i, n, s.cap);
                let m = &mut s.m;
                untracked(|| m.insert(i, it));
                check_eq!(p, &s.g.v[i] as *const E, "the reference that try_insert returned");
                s.verify(cx, "try_insert");
            }
            Err(e) => {
                check!(bad, "try_insert at {} failed although there is room", i);
                check_eq!(e.item(), it, "the element that try_insert gave back");
                s.verify_held(cx, 1, "try_insert");
                cx.op("handed back");
                cx.hash(13);
                drop(e);
            }
        }
        check_eq!(s.g.v.capacity(), cap, "capacity after try_insert");
        s.verify(cx, "try_insert");
    }

    fn try_pop(cx, s) {
        cx.log(|| "try_pop()".into());
        let r = want_ok(run(|| s.g.v.try_pop()), "try_pop");
        let m = s.m.pop();
        check_eq!(r.as_ref().map(|e| e.item()), m, "result of try_pop");
        s.verify_held(cx, r.is_some() as isize, "try_pop");
        drop(r);
        s.verify(cx, "try_pop");
    }

    fn try_remove(cx, s) {
        let n = s.m.len();
        let i = if cx.rng.chance(1, 4) { n.wrapping_add(cx.rng.pick(&[0, 1, 2, 7, usize::MAX - n])) } else { cx.index(n) };
        cx.log(|| format!("try_remove({})", i));
        let swap = cx.rng.chance(1, 2);
        let r = want_ok(run(|| if swap { s.g.v.try_swap_remove(i) } else { s.g.v.try_remove(i) }), "try_remove");
        let m = if i < n { Some(if swap { s.m.swap_remove(i) } else { s.m.remove(i) }) } else { None };
        check_eq!(r.as_ref().map(|e| e.item()), m, "result of {}({}), length {}", if swap { "try_swap_remove" } else { "try_remove" }, i, n);
        if r.is_none() {
            cx.op("handed back");
        }
        s.verify_held(cx, r.is_some() as isize, "try_remove");
        drop(r);
        s.verify(cx, "try_remove");
    }

    // ---- unchecked variants, within their preconditions ----

    fn push_unchecked(cx, s) {
        if s.m.len() == s.cap {
            return
        }
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("push_unchecked({:?})", it));
        let p = want_ok(run(|| unsafe { s.g.v.push_unchecked(e) as *const E }), "push_unchecked");
        s.m_push(it);
        check_eq!(p, &s.g.v[s.m.len() - 1] as *const E, "the reference that push_unchecked returned");
        s.verify(cx, "push_unchecked");
    }

    fn insert_unchecked(cx, s) {
        if s.m.len() == s.cap {
            return
        }
        let i = cx.index(s.m.len());
        let e: E = cx.make();
        let it = e.item();
        cx.log(|| format!("insert_unchecked({}, {:?})", i, it));
        let p = want_ok(run(|| unsafe { s.g.v.insert_unchecked(i, e) as *const E }), "insert_unchecked");
        let m = &mut s.m;
        untracked(|| m.insert(i, it));
        check_eq!(p, &s.g.v[i] as *const E, "the reference that insert_unchecked returned");
        s.verify(cx, "insert_unchecked");
    }

    fn take_unchecked(cx, s) {
        let n = s.m.len();
        if n == 0 {
            return
        }
        let i = cx.rng.below(n);
        let how = cx.rng.below(3);
        cx.log(|| format!("{}({})", ["pop_unchecked", "remove_unchecked", "swap_remove_unchecked"][how], i));
        let e = want_ok(run(|| unsafe {
            match how {
                0 => s.g.v.pop_unchecked(),
                1 => s.g.v.remove_unchecked(i),
                _ => s.g.v.swap_remove_unchecked(i),
            }
        }), "an unchecked removal");
        let it = match how {
            0 => s.m.pop().unwrap(),
            1 => s.m.remove(i),
            _ => s.m.swap_remove(i),
        };
        check_eq!(e.item(), it, "element of {}", ["pop_unchecked", "remove_unchecked", "swap_remove_unchecked"][how]);
        s.verify_held(cx, 1, "an unchecked removal");
        drop(e);
        s.verify(cx, "an unchecked removal");
    }

    fn extend_unchecked(cx, s) {
        let n = cx.amount();
        let n = n.min(s.cap - s.m.len());
        let xs: Vec<E> = (0..n).map(|_| cx.make()).collect();
        let m = items(&xs);
        cx.log(|| format!("extend_from_slice_unchecked({})", show(&m)));
        want_ok(run(|| unsafe { s.g.v.extend_from_slice_unchecked(&xs) }), "extend_from_slice_unchecked");
        // the elements were moved
        let mut xs = xs;
        unsafe { xs.set_len(0) }
        upto(&mut s.m, &m);
        s.verify(cx, "extend_from_slice_unchecked");
    }

    fn set_len_unchecked(cx, s) {
        let n = s.m.len();
        let k = cx.index(n);
        cx.log(|| format!("set_len_unchecked({}), back to {}", k, n));
        unsafe {
            s.g.v.set_len_unchecked(k);
            check_eq!(s.g.v.len(), k, "length after set_len_unchecked");
            check_eq!(items(s.g.v.as_slice()), &s.m[..k], "contents after set_len_unchecked");
            s.g.v.set_len_unchecked(n);
        }
        // elements without size: any length up to the capacity is possible
        if std::mem::size_of::<E>() == 0 {
            let most = s.g.v.capacity();
            let k = match cx.rng.below(6) {
                0 => most,
                1 => most - most / 2,
                2 => most / 2,
                3 => most - (n % 5).min(most),
                4 => (most / 3).max(n),
                _ => most - most / 4,
            };
            cx.log(|| format!("set_len_unchecked({}), back to {}", k, n));
            unsafe {
                s.g.v.set_len_unchecked(k);
                let (l, e, sl, r) = (s.g.v.len(), s.g.v.is_empty(), s.g.v.as_slice().len(), s.g.v.remaining_capacity());
                let f = s.g.v.is_full();
                s.g.v.set_len_unchecked(n);
                check_eq!(l, k, "length after set_len_unchecked");
                check_eq!(e, k == 0, "is_empty after set_len_unchecked");
                check_eq!(sl, k, "length of the slice after set_len_unchecked");
                check_eq!(r, most - k, "remaining capacity after set_len_unchecked");
                check_eq!(f, k == most, "is_full after set_len_unchecked");
            }
        }
        s.verify(cx, "set_len_unchecked");
    }
}

impl<R> End<R> {
    pub fn map_unit(self) -> End<()> {
        match self {
            End::Ok(_) => End::Ok(()),
            End::Fuse => End::Fuse,
            End::Panic(m) => End::Panic(m),
        }
    }
}

/// `r` is the end of growing the vector to `to` elements by clones of a value
fn grown<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, r: End<()>, to: usize, val: u32, fits: bool, what: &str) {
    if !fits {
        want_panic(cx, r, what);
        return s.verify(cx, what)
    }
    want_ok(r, what);
    check_eq!(s.g.v.len(), to, "length after {}", what);
    let old = untracked(|| s.m.clone());
    s.adopt(what);
    let k = old.len().min(to);
    check_eq!(&s.m[..k], &old[..k], "old contents after {}", what);
    for i in k..to {
        check_eq!(s.m[i].val, val, "element {} after {}", i, what);
    }
    s.verify(cx, what);
}

fn grow_by<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, to: usize, resize: bool) {
    let n = s.m.len();
    let add = to.saturating_sub(n);
    let what = if resize { "resize_with" } else { "grow_with" };
    cx.log(|| format!("{} to {}", what, to));
    let fits = s.fits(add);
    let mut made: Vec<Item> = untracked(|| Vec::with_capacity(add));
    let v = &mut s.g.v;
    let mut f = || {
        tick(Kind::Make);
        let e: E = cx.make();
        let it = e.item();
        untracked(|| made.push(it));
        e
    };
    let r = run(|| if resize { v.resize_with(to, &mut f) } else { v.grow_with(add, &mut f) });
    if fits {
        want_ok(r, what);
        check_eq!(made.len(), add, "calls of the closure of {}", what);
        s.m.truncate(to);
        upto(&mut s.m, &made);
    } else {
        check_eq!(made.len(), 0, "calls of the closure of {} before it panicked", what);
        want_panic(cx, r, what);
    }
    untracked(|| drop(made));
    s.verify(cx, what);
}

fn cloned<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, r: End<()>, src: &[Item], fits: bool, held: usize, what: &str) {
    if !fits {
        want_panic(cx, r, what);
        return s.verify_held(cx, held as isize, what)
    }
    want_ok(r, what);
    let n = s.m.len();
    check_eq!(s.g.v.len(), n + src.len(), "length after {}", what);
    let old = untracked(|| s.m.clone());
    s.adopt(what);
    check_eq!(&s.m[..n], &old[..], "old contents after {}", what);
    for (a, b) in s.m[n..].iter().zip(src) {
        check_eq!(a.val, b.val, "value of a new element after {}", what);
        check!(E::ZST || !E::TRACKED || a.id != b.id, "{} copied an element bit by bit", what);
    }
    s.verify_held(cx, held as isize, what);
}

pub fn core_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![
        push, push, push, push, pop, pop, insert, insert, insert, insert, remove, remove, remove, swap_remove, swap_remove,
        truncate, mutate, mutate, assign,
    ]
}
pub fn bulk_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![clear, resize, resize_with, grow_with, grow, extend, extend, extend_from_slice, extend_refs, clone_from]
}
pub fn cap_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![reserve, try_reserve]
}
pub fn try_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![try_push, try_push, try_insert, try_insert, try_pop, try_remove, try_remove]
}
pub fn unchecked_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![push_unchecked, push_unchecked, insert_unchecked, take_unchecked, extend_unchecked, set_len_unchecked]
}
/// Operations on arrays; there are none without the nightly feature
pub fn arr_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    #[cfg(feature = "nightly")]
    return vec![crate::arr::any, crate::arr::any];
    #[cfg(not(feature = "nightly"))]
    Vec::new()
}
pub fn arr_try_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    #[cfg(feature = "nightly")]
    return vec![crate::arr::any_try, crate::arr::any_try, crate::arr::any_try];
    #[cfg(not(feature = "nightly"))]
    Vec::new()
}
pub fn arr_unchecked_ops<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    #[cfg(feature = "nightly")]
    return vec![crate::arr::any_unchecked, crate::arr::any_unchecked];
    #[cfg(not(feature = "nightly"))]
    Vec::new()
}

pub fn try_more<E: Elem, K: Store<E>>() -> Vec<Op<E, K>> {
    vec![try_reserve, try_reserve]
}

/// Pushes until at most 3 slots of the current capacity are left
pub fn top_up<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>) {
    let max = if cx.scale == 0 { 40 } else { 350 };
    if s.cap > max {
        return
    }
    let left = cx.rng.below(4);
    let to = s.cap.saturating_sub(left);
    crate::cx::refill(cx, s, to);
}

/// Keeps lengths within bounds: long vectors get shorter
pub fn trim<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, max: usize) {
    if s.m.len() > max + cx.long {
        let n = cx.rng.below(20);
        cx.log(|| format!("truncate({})", n));
        s.g.v.truncate(n);
        s.m.truncate(n);
        s.verify(cx, "truncate");
    }
}

pub fn add<E: Elem, K: Store<E>>(ops: &mut Vec<Op<E, K>>, more: fn() -> Vec<Op<E, K>>) {
    untracked(|| ops.extend(more()))
}

pub fn list<E: Elem, K: Store<E>>(parts: &[fn() -> Vec<Op<E, K>>]) -> Vec<Op<E, K>> {
    untracked(|| parts.iter().flat_map(|p| p()).collect())
}

/// A history of `steps` random operations out of `ops`
pub fn history<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, ops: Vec<Op<E, K>>, steps: usize) {
    for _ in 0..steps {
        let op = cx.rng.pick(&ops);
        op(cx, s);
        trim(cx, s, 600);
    }
    untracked(|| drop(ops));
}
