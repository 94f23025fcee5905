pub type H = u16;
pub type F = u32;
include!("../wideone.rs");
