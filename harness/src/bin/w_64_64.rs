pub type H = u64;
pub type F = u64;
include!("../wideone.rs");
