pub type H = u32;
pub type F = u32;
include!("../wideone.rs");
