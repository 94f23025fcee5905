pub type H = u128;
pub type F = usize;
include!("../wideone.rs");
