pub type H = usize;
pub type F = u128;
include!("../wideone.rs");
