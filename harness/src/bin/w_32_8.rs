pub type H = u32;
pub type F = u8;
include!("../wideone.rs");
