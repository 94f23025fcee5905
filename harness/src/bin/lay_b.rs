#[path = "../layouts.rs"] #[macro_use] #[allow(dead_code)] mod layouts;
use layouts::*;
use std::num::*;
use std::sync::Arc;
layout_table! {
    1 Nil, [u8; 4096], ();
    4 [u8; 33], NonZeroU64, [u32; 2];
    7 Arc<str>, [A16; 3], String;
    10 [u8; 4096], (), A16;
    13 (), A128, Page;
    16 u64, Arc<str>, u8;
}
