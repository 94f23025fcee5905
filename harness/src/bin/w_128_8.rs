pub type H = u128;
pub type F = u8;
include!("../wideone.rs");
