pub type H = u16;
pub type F = u64;
include!("../wideone.rs");
