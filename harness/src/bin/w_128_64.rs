pub type H = u128;
pub type F = u64;
include!("../wideone.rs");
