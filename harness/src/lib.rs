#![cfg_attr(feature = "nightly", feature(allocator_api, exact_size_is_empty))]
#![allow(unused_unsafe, clippy::all)]
#[macro_use]
pub mod mon;
pub mod alloc;
#[cfg(feature = "nightly")]
pub mod al;
#[cfg(feature = "nightly")]
pub mod arr;
pub mod bad;
pub mod cx;
pub mod drive;
pub mod elem;
pub mod eng;
pub mod iters;
pub mod own;
pub mod rng;
pub mod stores;

#[global_allocator]
static MON: alloc::MonAlloc = alloc::MonAlloc;
