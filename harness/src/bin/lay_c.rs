#[path = "../layouts.rs"] #[macro_use] #[allow(dead_code)] mod layouts;
use layouts::*;
use std::num::*;
use std::sync::Arc;
layout_table! {
    2 String, Option<Box<u64>>, f64;
    5 &'static str, Vec<u8>, Box<[u64]>;
    8 A64, Sum, Packed;
    11 Page, Nil, Sum;
    14 Packed, String, ();
    17 Sum, Packed, NonZeroU64;
}
