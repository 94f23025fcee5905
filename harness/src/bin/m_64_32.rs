pub type H = u64;
pub type F = u32;
include!("../one.rs");
