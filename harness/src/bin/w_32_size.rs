pub type H = u32;
pub type F = usize;
include!("../wideone.rs");
