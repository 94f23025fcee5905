pub type H = u64;
pub type F = u128;
include!("../wideone.rs");
