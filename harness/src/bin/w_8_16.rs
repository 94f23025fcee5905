pub type H = u8;
pub type F = u16;
include!("../wideone.rs");
