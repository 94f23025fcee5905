pub type H = usize;
pub type F = u64;
include!("../wideone.rs");
