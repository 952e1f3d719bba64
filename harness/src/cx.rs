//! The state of one case, and the subject vector with its model.

use crate::alloc::untracked;
use crate::elem::{Elem, Item};
use crate::mon::{self, ledger};
use crate::rng::{mix, Rng};
use crate::stores::{Growth, Guarded, Store};
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use std::collections::BTreeMap;

pub struct Cx {
    pub rng: Rng,
    /// keep the log of the case
    pub verbose: bool,
    pub log: Vec<String>,
    /// a hash of what was done and what was seen
    pub sig: u64,
    /// the case exercised what the property is about
    pub nontrivial: bool,
    pub ops: BTreeMap<&'static str, u64>,
    /// size of the run: 0 = Miri, 1 = normal
    pub scale: usize,
    pub vcount: u32,
    pub leak_base: isize,
    /// this case leaks on purpose
    pub leaky: bool,
    /// leave out what may differ between builds
    pub same_everywhere: bool,
    /// this case may have vectors that much longer
    pub long: usize,
}

impl Cx {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            untracked(|| {
                let s = f();
                if self.log.len() < 4000 {
                    self.log.push(s)
                }
            })
        }
    }
    /// counts an operation, an outcome or an event
    pub fn op(&mut self, name: &'static str) {
        untracked(|| *self.ops.entry(name).or_insert(0) += 1)
    }
    /// how many calls were refused so far
    pub fn refused(&self) -> u64 {
        let get = |k| self.ops.get(k).cloned().unwrap_or(0);
        get("refused with a panic") + get("handed back")
    }
    pub fn hash(&mut self, x: u64) {
        self.sig = mix(self.sig, x)
    }
    pub fn hash_items(&mut self, xs: &[Item]) {
        let mut h = xs.len() as u64;
        for i in xs {
            h = mix(h, i.val as u64)
        }
        self.hash(h)
    }
    /// a value for a new element: mostly unique, sometimes from a small range
    pub fn val<E: Elem>(&mut self) -> u32 {
        self.vcount += 1;
        let v = if self.rng.chance(1, 4) { self.rng.below(4) as u32 } else { 100 + self.vcount };
        v % E::VALS
    }
    pub fn make<E: Elem>(&mut self) -> E {
        let v = self.val::<E>();
        E::make(v)
    }
    /// how many elements to add in one go
    pub fn amount(&mut self) -> usize {
        let n = if self.scale == 0 { 16 } else { 40 };
        match self.rng.below(n) {
            0..=3 => 0,
            4..=9 => 1,
            10..=15 => 1 + self.rng.below(3),
            16..=31 => self.rng.below(9),
            32..=38 => self.rng.below(35),
            _ => self.rng.below(300),
        }
    }
    /// an index near something interesting in `0..=n`
    pub fn index(&mut self, n: usize) -> usize {
        match self.rng.below(6) {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            _ => self.rng.below(n + 1),
        }
    }
    /// a range in `0..=n`
    pub fn range(&mut self, n: usize) -> (usize, usize) {
        match self.rng.below(8) {
            0 => (0, n),
            1 => {
                let a = self.index(n);
                (a, a)
            }
            2 => (0, self.index(n)),
            3 => (self.index(n), n),
            _ => {
                let (a, b) = (self.index(n), self.index(n));
                (a.min(b), a.max(b))
            }
        }
    }
}

pub fn items<E: Elem>(xs: &[E]) -> Vec<Item> {
    untracked(|| xs.iter().map(|x| x.item()).collect())
}

/// Every element is live, and no two are the same one
pub fn check_alive<E: Elem>(xs: &[E], what: &str) {
    if !E::TRACKED || E::ZST {
        // still look at each value
        for x in xs.iter().take(1 << 17) {
            let _ = x.item();
        }
        return
    }
    let dup = ledger(|l| {
        l.stamp += 1;
        let stamp = l.stamp;
        l.checks += 1;
        (stamp, 0)
    });
    for (i, x) in xs.iter().enumerate() {
        let it = x.item();
        let bad = ledger(|l| match l.recs.get_mut((it.id as usize).wrapping_sub(1)) {
            None => Some("is garbage"),
            Some(r) if r.stamp == dup.0 => Some("is in the vector twice"),
            Some(r) => {
                r.stamp = dup.0;
                if r.st == mon::St::Dropped {
                    Some("was dropped, and is still in the vector")
                } else {
                    None
                }
            }
        });
        if let Some(bad) = bad {
            violate!("{}: the element at {} ({:?}) {}", what, i, it, bad)
        }
    }
}

/// A vector and its model
pub struct Sub<E: Elem, K: Store<E>> {
    // dropped first
    pub g: Box<Guarded<GenericVec<E, K::S>>>,
    pub m: Vec<Item>,
    pub growth: Growth,
    /// the capacity at the last check
    pub cap: usize,
    /// elements that were leaked on purpose
    pub leaked: isize,
    pub store: K,
}

impl<E: Elem, K: Store<E>> Sub<E, K> {
    pub fn new(cx: &mut Cx) -> Self {
        let cap = K::pick(&mut cx.rng);
        Self::with_cap(cx, cap)
    }
    pub fn with_cap(cx: &mut Cx, cap: usize) -> Self {
        let mut store = K::new();
        let v = store.build(cap);
        let growth = K::growth(cap);
        cx.log(|| format!("let v = {} of {} ({} asked for)  // capacity {}", K::name(), E::NAME, cap, v.capacity()));
        let s = Sub { g: Guarded::new(v), m: untracked(|| Vec::with_capacity(4096)), growth, cap: 0, leaked: 0, store };
        check_eq!(s.g.v.len(), 0, "length of a new vector");
        match growth {
            Growth::Fixed(n) => check_eq!(s.g.v.capacity(), n, "capacity of a new vector ({})", K::name()),
            Growth::Heap => check!(s.g.v.capacity() >= cap, "capacity {} of a vector made for {}", s.g.v.capacity(), cap),
        }
        let mut s = s;
        s.cap = s.g.v.capacity();
        s
    }
    /// Puts `n` elements into the vector, as far as they fit, by `push` alone
    pub fn fill(&mut self, cx: &mut Cx, n: usize) {
        let n = n.min(self.room(n));
        for _ in 0..n {
            let e: E = cx.make();
            let it = e.item();
            self.m_push(it);
            let _ = self.g.v.push(e);
        }
        self.cap = self.g.v.capacity();
        cx.log(|| format!("push x{}  // {:?}", n, show(&self.m)));
        self.verify(cx, "filling the vector");
    }
    pub fn m_push(&mut self, it: Item) {
        let m = &mut self.m;
        untracked(|| m.push(it))
    }
    /// how many more elements fit, at most `want`
    pub fn room(&self, want: usize) -> usize {
        match self.growth {
            Growth::Fixed(n) => (n - self.m.len()).min(want),
            Growth::Heap => want,
        }
    }
    pub fn fits(&self, more: usize) -> bool {
        self.room(more) == more
    }
    pub fn is_fixed(&self) -> bool {
        matches!(self.growth, Growth::Fixed(_))
    }
    /// a size to fill the vector to
    pub fn start_len(&mut self, cx: &mut Cx) -> usize {
        if cx.scale > 0 && cx.rng.chance(1, 120) {
            // a long vector, now and then
            let k = cx.rng.below(5);
            let n = self.room(300 + cx.rng.below(300 << k));
            cx.long = n;
            return n
        }
        let cap = match self.growth {
            Growth::Fixed(n) => n.min(if cx.scale == 0 { 14 } else { 400 }),
            Growth::Heap => {
                if cx.scale == 0 {
                    12
                } else {
                    match cx.rng.below(12) {
                        0 => 300,
                        1 | 2 => 70,
                        _ => 20,
                    }
                }
            }
        };
        match cx.rng.below(5) {
            0 => cap.min(300),
            1 => cap.saturating_sub(1),
            _ => cx.rng.below(cap + 1),
        }
    }
    /// Compares the vector with the model, `held` elements are alive outside of it
    pub fn verify_held(&mut self, cx: &mut Cx, held: isize, what: &str) {
        let v = &self.g.v;
        mon::check_errors(what);
        check_eq!(v.len(), self.m.len(), "length after {}", what);
        let cap = v.capacity();
        check!(cap >= v.len(), "length {} exceeds the capacity {} after {}", v.len(), cap, what);
        if let Growth::Fixed(n) = self.growth {
            check_eq!(cap, n, "capacity of a fixed storage after {}", what);
        }
        check_eq!(v.is_empty(), v.len() == 0, "is_empty after {}", what);
        check_eq!(v.is_full(), v.len() == cap, "is_full after {}", what);
        check_eq!(v.remaining_capacity(), cap - v.len(), "remaining_capacity after {}", what);
        let s = v.as_slice();
        check_eq!(s.len(), self.m.len(), "slice length after {}", what);
        check_eq!(s.as_ptr(), v.as_ptr(), "slice pointer after {}", what);
        check_eq!(s.as_ptr() as usize % core::mem::align_of::<E>(), 0, "alignment after {}", what);
        check_alive(s, what);
        for (i, (x, m)) in s.iter().zip(&self.m).enumerate() {
            let it = x.item();
            if it != *m {
                violate!("element {} after {}: got {:?}, expected {:?}; got all {:?}, expected all {:?}", i, what, it, m, show(&items(s)), show(&self.m))
            }
        }
        if E::TRACKED {
            check_eq!(mon::live(), self.m.len() as isize + held + self.leaked, "elements alive (in the vector and outside) after {}", what);
        }
        mon::check_errors(what);
        self.cap = cap;
        self.check_guards(what);
        cx.hash_items(&self.m);
    }
    pub fn verify(&mut self, cx: &mut Cx, what: &str) {
        self.verify_held(cx, 0, what)
    }
    pub fn check_guards(&self, what: &str) {
        if let Some(e) = self.store.check() {
            violate!("{} after {}", e, what)
        }
        if let Some(e) = self.g.check() {
            violate!("{} after {}", e, what)
        }
        #[cfg(feature = "alloc")]
        crate::alloc::check_block(self.g.v.as_ptr());
        mon::check_errors(what);
    }
    /// The vector holds live elements; makes the model what the vector is
    pub fn adopt(&mut self, what: &str) {
        mon::check_errors(what);
        let v = &self.g.v;
        check!(v.capacity() >= v.len(), "length {} exceeds the capacity {} after {}", v.len(), v.capacity(), what);
        if v.len() > 1 << 24 {
            violate!("length {} after {}", v.len(), what)
        }
        check_alive(v.as_slice(), what);
        mon::check_errors(what);
        self.m = items(v.as_slice());
        self.cap = v.capacity();
    }
    /// takes the vector out; the store has to outlive it
    pub fn into_parts(self) -> (GenericVec<E, K::S>, Vec<Item>, K) {
        let g = *self.g;
        (g.into_inner(), self.m, self.store)
    }
}

pub fn show(xs: &[Item]) -> String {
    untracked(|| {
        if xs.len() <= 40 {
            format!("{:?}", xs)
        } else {
            format!("{:?} .. {:?} ({} in all)", &xs[..20], &xs[xs.len() - 10..], xs.len())
        }
    })
}

/// A unit of work that can run on any vector
pub trait Work {
    fn run<E: Elem, K: Store<E>>(cx: &mut Cx);
}

pub type Group = (&'static str, u32, fn(&mut Cx));

/// `groups!(Work; weight: Elem, Store; ...)`
#[macro_export]
macro_rules! groups {
    ($W:ty; $($(#[$m:meta])* $w:literal: $E:ty, $K:ty;)*) => {{
        let mut v: Vec<$crate::cx::Group> = Vec::new();
        $($(#[$m])* { v.push((concat!(stringify!($K), "/", stringify!($E)), $w, <$W as $crate::cx::Work>::run::<$E, $K>)) })*
        v
    }};
}

pub fn storage_ok<E, S: Storage<E>>() -> bool {
    S::IS_ALIGNED
}

/// The usual combinations of elements and storages
#[macro_export]
macro_rules! common_groups {
    ($W:ty) => {
        $crate::groups!($W;
            #[cfg(feature = "alloc")] 5: Tb, HeapK;
            4: Tb, SliceK;
            3: Tb, ArrK<8>;
            3: Tb, ExactK;
            #[cfg(feature = "alloc")] 2: Tw, HeapK;
            2: Tw, MutK<Tw>;
            #[cfg(feature = "alloc")] 1: Tw, BoxK<5>;
            2: Tw, ArrK<20>;
            2: Ts, BytesK<45>;
            1: Ta, SliceK;
            #[cfg(feature = "alloc")] 2: T3, HeapK;
            #[cfg(feature = "alloc")] 2: Tz, HeapK;
            1: Tz, ZsK;
            #[cfg(feature = "alloc")] 2: Cu8, HeapK;
            #[cfg(feature = "alloc")] 1: C72, HeapK;
            2: Cu32, InitArr16;
            1: Tw, ArrK<1>;
            1: Tb, ArrK<0>;
            1: T3, AlienSliceK<u32>;
            #[cfg(feature = "alloc")] 1: T3, AlienHeapK<u64>;
            #[cfg(feature = "alloc")] 1: Tb, BoxSliceK;
            1: Cu8, InitSliceK;
        )
    };
}

/// The combinations with a capacity that never changes
#[macro_export]
macro_rules! fixed_groups {
    ($W:ty) => {
        $crate::groups!($W;
            5: Tb, SliceK;
            4: Tb, ArrK<8>;
            3: Tw, ArrK<1>;
            1: Tw, ArrK<0>;
            #[cfg(feature = "alloc")] 3: Tw, BoxK<5>;
            3: Ts, BytesK<45>;
            2: Ta, SliceK;
            3: T3, AlienSliceK<u32>;
            #[cfg(feature = "alloc")] 3: T3, BoxSliceK;
            2: Cu8, InitSliceK;
            1: C72, InitSliceK;
            2: Cu32, InitArr16;
            2: Cu8, InitArr1;
            1: Cu32, ArrK<20>;
            1: C24, SliceK;
        )
    };
}

/// Pushes until the vector holds at least `n` elements, as far as they fit
pub fn refill<E: Elem, K: Store<E>>(cx: &mut Cx, s: &mut Sub<E, K>, n: usize) {
    if s.m.len() < n {
        let k = n - s.m.len();
        s.fill(cx, k)
    }
}
