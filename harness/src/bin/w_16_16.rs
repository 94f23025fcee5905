pub type H = u16;
pub type F = u16;
include!("../wideone.rs");
