pub type H = u32;
pub type F = u16;
include!("../wideone.rs");
