pub type H = u16;
pub type F = u8;
include!("../wideone.rs");
