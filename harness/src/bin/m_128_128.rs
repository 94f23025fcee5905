pub type H = u128;
pub type F = u128;
include!("../one.rs");
