pub type H = u32;
pub type F = u64;
include!("../wideone.rs");
