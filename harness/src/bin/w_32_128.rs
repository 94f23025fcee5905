pub type H = u32;
pub type F = u128;
include!("../wideone.rs");
