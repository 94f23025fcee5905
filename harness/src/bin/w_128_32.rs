pub type H = u128;
pub type F = u32;
include!("../wideone.rs");
