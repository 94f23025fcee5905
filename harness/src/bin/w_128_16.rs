pub type H = u128;
pub type F = u16;
include!("../wideone.rs");
