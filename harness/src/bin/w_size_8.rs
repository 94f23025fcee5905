pub type H = usize;
pub type F = u8;
include!("../wideone.rs");
