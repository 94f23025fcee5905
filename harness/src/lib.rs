//! Configuration-independent part of the monitors.
pub mod cx;
pub mod drive;
pub mod spec;
pub mod support;
pub mod wide;

#[cfg(not(any(miri, feature = "san")))]
#[global_allocator]
static A: support::Counting = support::Counting;
