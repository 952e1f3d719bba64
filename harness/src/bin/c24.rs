//! Custom allocators are used for all memory of a vector, and only their own.

#[cfg(feature = "nightly")]
mod c24 {
    use vharness::al::{case, Wide};
    use vharness::drive;
    use vharness::elem::*;

    pub fn main() {
        drive::main(
            "C24",
            vec![
                ("AlK<()>/Tb", 4, case::<Tb, ()>),
                ("AlK<Wide>/Tb", 3, case::<Tb, Wide>),
                ("AlK<()>/Tw", 3, case::<Tw, ()>),
                ("AlK<Wide>/Ts", 2, case::<Ts, Wide>),
                ("AlK<()>/Ta", 2, case::<Ta, ()>),
                ("AlK<Wide>/T3", 2, case::<T3, Wide>),
                ("AlK<()>/Tz", 2, case::<Tz, ()>),
                ("AlK<Wide>/Cu8", 2, case::<Cu8, Wide>),
                ("AlK<()>/C24", 1, case::<C24, ()>),
            ],
            8000,
        )
    }
}

fn main() {
    #[cfg(feature = "nightly")]
    c24::main()
}
