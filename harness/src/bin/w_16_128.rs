pub type H = u16;
pub type F = u128;
include!("../wideone.rs");
