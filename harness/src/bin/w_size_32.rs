pub type H = usize;
pub type F = u32;
include!("../wideone.rs");
