pub type H = usize;
pub type F = u16;
include!("../wideone.rs");
