pub type H = u64;
pub type F = u8;
include!("../wideone.rs");
