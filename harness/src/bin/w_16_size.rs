pub type H = u16;
pub type F = usize;
include!("../wideone.rs");
