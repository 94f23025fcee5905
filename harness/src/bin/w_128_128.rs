pub type H = u128;
pub type F = u128;
include!("../wideone.rs");
