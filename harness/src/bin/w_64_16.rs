pub type H = u64;
pub type F = u16;
include!("../wideone.rs");
