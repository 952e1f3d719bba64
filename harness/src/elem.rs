//! Element types. Each one makes a different mistake visible.

use crate::alloc::untracked;
use crate::mon::{ledger, tick, violation, Kind};
use generic_vec::iter::Cursor;
use generic_vec::raw::Storage;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// The identity (0: the type has none) and the value of an element
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Item {
    pub id: u32,
    pub val: u32,
}

impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.id == 0 {
            write!(f, "{}", self.val)
        } else {
            write!(f, "{}#{}", self.val, self.id)
        }
    }
}

pub trait Elem: Sized + Clone + PartialEq + PartialOrd + fmt::Debug + Hash + 'static {
    const NAME: &'static str;
    const ZST: bool = core::mem::size_of::<Self>() == 0;
    /// counted by the ledger
    const TRACKED: bool;
    /// values are in 0..VALS
    const VALS: u32;
    fn make(val: u32) -> Self;
    fn item(&self) -> Item;
    fn set(&mut self, val: u32);
    fn val(&self) -> u32 {
        self.item().val
    }
    fn id(&self) -> u32 {
        self.item().id
    }
    const COPY: bool = false;
    /// the safe method of a cursor, which is there for elements that are `Copy`
    fn write_slice<S: ?Sized + Storage<Self>>(_: &mut Cursor<'_, Self, S>, _back: bool, _: &[Self]) {
        unreachable!()
    }
}

pub trait CopyElem: Elem + Copy + Default {}

macro_rules! by_val {
    ($($T:ty),*) => {$(
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool { tick(Kind::Eq); self.val() == o.val() }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.val().partial_cmp(&o.val()) }
        }
        impl Ord for $T {
            fn cmp(&self, o: &Self) -> Ordering { self.val().cmp(&o.val()) }
        }
        impl Hash for $T {
            fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.val(), f) }
        }
    )*};
}
by_val!(Tb, Tw, Ts, Ta, T3, Tz, Tza);

macro_rules! tracked {
    ($($T:ty),*) => {$(
        impl Clone for $T {
            fn clone(&self) -> Self {
                let v = self.val();
                tick(Kind::Clone);
                ledger(|l| l.clones += 1);
                Self::make(v)
            }
        }
        impl Drop for $T {
            fn drop(&mut self) {
                let id = self.raw_id();
                ledger(|l| l.drop(id));
                self.scrub();
                tick(Kind::Drop)
            }
        }
    )*};
}
tracked!(Tb, Tw, Ts, Ta, T3);

/// The payload is on the heap: leaks, double frees and stale copies are visible to the allocator
pub struct Tb(Box<(u32, u32, u64)>);
const MAGIC: u64 = 0x7ea1_1e55_c0ff_ee11;
impl Tb {
    fn raw_id(&self) -> u32 {
        if (self.0).2 == MAGIC {
            (self.0).0
        } else {
            u32::MAX
        }
    }
    fn scrub(&mut self) {
        (self.0).2 = 0xdead
    }
}
impl Elem for Tb {
    const NAME: &'static str = "Boxed";
    const TRACKED: bool = true;
    const VALS: u32 = 1 << 30;
    fn make(val: u32) -> Self {
        let id = ledger(|l| l.make(val));
        Tb(Box::new((id, val, MAGIC)))
    }
    fn item(&self) -> Item {
        let id = self.raw_id();
        let _ = ledger(|l| l.seen(id, "use"));
        Item { id, val: (self.0).1 }
    }
    fn set(&mut self, val: u32) {
        let id = self.id();
        ledger(|l| {
            if let Some(r) = l.recs.get_mut((id as usize).wrapping_sub(1)) {
                r.val = val
            }
        });
        (self.0).1 = val
    }
}

/// Two words in place
pub struct Tw {
    id: u32,
    val: u32,
}
impl Tw {
    fn raw_id(&self) -> u32 {
        self.id
    }
    fn scrub(&mut self) {}
}
impl Elem for Tw {
    const NAME: &'static str = "Word";
    const TRACKED: bool = true;
    const VALS: u32 = 1 << 30;
    fn make(val: u32) -> Self {
        let id = ledger(|l| l.make(val));
        Tw { id, val }
    }
    fn item(&self) -> Item {
        let v = ledger(|l| {
            let v = l.seen(self.id, "use");
            if v != self.val && l.err.is_none() {
                l.fail(format!("element #{} was corrupted: value {} instead of {}", self.id, self.val, v))
            }
            v
        });
        Item { id: self.id, val: v }
    }
    fn set(&mut self, val: u32) {
        ledger(|l| {
            let _ = l.seen(self.id, "use");
            if let Some(r) = l.recs.get_mut((self.id as usize).wrapping_sub(1)) {
                r.val = val
            }
        });
        self.val = val
    }
}

macro_rules! id_only {
    ($T:ident, $name:expr, $make:expr, $id:expr, $max:expr) => {
        impl $T {
            fn raw_id(&self) -> u32 {
                let f: fn(&$T) -> u32 = $id;
                f(self)
            }
            fn scrub(&mut self) {}
        }
        impl Elem for $T {
            const NAME: &'static str = $name;
            const TRACKED: bool = true;
            const VALS: u32 = 1 << 30;
            fn make(val: u32) -> Self {
                let id = ledger(|l| l.make(val));
                if id as u64 > $max {
                    harness("too many elements for their ids")
                }
                let f: fn(u32) -> $T = $make;
                f(id)
            }
            fn item(&self) -> Item {
                let id = self.raw_id();
                Item { id, val: ledger(|l| l.seen(id, "use")) }
            }
            fn set(&mut self, val: u32) {
                let id = self.raw_id();
                ledger(|l| {
                    let _ = l.seen(id, "use");
                    if let Some(r) = l.recs.get_mut((id as usize).wrapping_sub(1)) {
                        r.val = val
                    }
                })
            }
        }
    };
}

/// An error of the harness itself, never a verdict
pub struct HarnessError(pub String);
pub fn harness(msg: &str) -> ! {
    let _ = violation as fn(String) -> !;
    untracked(|| std::panic::resume_unwind(Box::new(HarnessError(msg.to_string()))))
}

/// Two bytes
pub struct Ts(u16);
id_only!(Ts, "Short", |id| Ts(id as u16), |s| s.0 as u32, 65535);

/// Three bytes, alignment 1
pub struct T3([u8; 3]);
id_only!(
    T3,
    "Three",
    |id| T3([id as u8, (id >> 8) as u8, (id >> 16) as u8]),
    |s| s.0[0] as u32 | (s.0[1] as u32) << 8 | (s.0[2] as u32) << 16,
    0xff_ffff
);

/// 64 bytes, aligned to 32
#[repr(C, align(32))]
pub struct Ta {
    id: u32,
    pad: [u8; 28],
    id2: u32,
    pad2: [u8; 28],
}
id_only!(
    Ta,
    "Aligned",
    |id| Ta { id, pad: [0x11; 28], id2: !id, pad2: [0x22; 28] },
    |s| if s.id == !s.id2
        && s.pad == [0x11; 28]
        && s.pad2 == [0x22; 28]
        && (s as *const Ta as usize) % 32 == 0
    {
        s.id
    } else {
        u32::MAX - 1
    },
    0xffff_ffff
);

macro_rules! zst {
    ($(#[$a:meta])* $T:ident, $name:expr) => {
        $(#[$a])*
        pub struct $T(());
        impl $T {
            fn placed(&self, what: &str) {
                let p = self as *const Self as usize;
                if p == 0 || p % core::mem::align_of::<Self>() != 0 {
                    ledger(|l| l.fail(format!("{} of a zero-sized element at the address {:#x}", what, p)))
                }
            }
        }
        impl Clone for $T {
            fn clone(&self) -> Self {
                self.placed("clone");
                tick(Kind::Clone);
                ledger(|l| l.clones += 1);
                Self::make(0)
            }
        }
        impl Drop for $T {
            fn drop(&mut self) {
                self.placed("drop");
                ledger(|l| {
                    l.zlive -= 1;
                    l.dropped += 1;
                    if l.zlive < 0 {
                        l.fail("more zero-sized elements were dropped than made".to_string())
                    }
                });
                tick(Kind::Drop)
            }
        }
        impl Elem for $T {
            const NAME: &'static str = $name;
            const TRACKED: bool = true;
            const VALS: u32 = 1;
            fn make(_: u32) -> Self {
                ledger(|l| {
                    l.zlive += 1;
                    l.made += 1
                });
                $T(())
            }
            fn item(&self) -> Item {
                self.placed("use");
                Item { id: 0, val: 0 }
            }
            fn set(&mut self, _: u32) {}
        }
    };
}
zst!(
    /// Zero-sized, counted
    Tz,
    "Zst"
);
zst!(
    /// Zero-sized, counted, and aligned to 32
    #[repr(align(32))]
    Tza,
    "AlignedZst"
);

macro_rules! copy {
    ($($T:ident, $name:expr, $repr:ty, $vals:expr, |$v:ident| $make:expr, |$s:ident| $get:expr;)*) => {$(
        #[derive(Clone, Copy, Default)]
        pub struct $T($repr);
        impl Elem for $T {
            const NAME: &'static str = $name;
            const TRACKED: bool = false;
            const VALS: u32 = $vals;
            fn make($v: u32) -> Self { $T($make) }
            fn item(&self) -> Item { let $s = &self.0; Item { id: 0, val: $get } }
            fn set(&mut self, val: u32) { *self = Self::make(val) }
            const COPY: bool = true;
            fn write_slice<S: ?Sized + Storage<Self>>(c: &mut Cursor<'_, Self, S>, back: bool, xs: &[Self]) {
                if back {
                    c.write_slice_back(xs)
                } else {
                    c.write_slice_front(xs)
                }
            }
        }
        impl CopyElem for $T {}
    )*};
}
by_val!(Cu8, Cu32, C24, C72, Cz, Cza);
copy! {
    Cu8, "CopyByte", u8, 256, |v| v as u8, |s| *s as u32;
    Cu32, "CopyU32", u32, 1 << 30, |v| v, |s| *s;
    C24, "Copy24", [u64; 3], 1 << 30, |v| [v as u64, !(v as u64), 3 * v as u64],
        |s| if s[1] == !s[0] && s[2] == 3 * s[0] { s[0] as u32 } else { u32::MAX - 7 };
    C72, "Copy72", [u64; 9], 1 << 30, |v| [v as u64, 1, 2, 3, !(v as u64), 5, 6, 7, 3 * v as u64],
        |s| if s[4] == !s[0] && s[8] == 3 * s[0] && s[1..4] == [1, 2, 3] && s[5..8] == [5, 6, 7] { s[0] as u32 } else { u32::MAX - 7 };
    Cz, "CopyZst", (), 1, |_v| (), |_s| 0;
    Cza, "AlignedCopyZst", [u128; 0], 1, |_v| [], |_s| 0;
}
