pub type H = u8;
pub type F = u8;
include!("../wideone.rs");
