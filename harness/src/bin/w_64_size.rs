pub type H = u64;
pub type F = usize;
include!("../wideone.rs");
