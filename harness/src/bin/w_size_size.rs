pub type H = usize;
pub type F = usize;
include!("../wideone.rs");
