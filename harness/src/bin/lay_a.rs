#[path = "../layouts.rs"] #[macro_use] #[allow(dead_code)] mod layouts;
use layouts::*;
use std::num::*;
use std::sync::Arc;
layout_table! {
    0 u8, (), A128;
    3 u128, A64, bool;
    6 char, u8, Option<NonZeroU8>;
    9 bool, u64, Page;
    12 Box<[u64]>, (), [A16; 3];
    15 Option<Box<u64>>, [u8; 33], Nil;
}
