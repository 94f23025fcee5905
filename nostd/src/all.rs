// The configurations, for a crate with `alloc` in scope.
#[path = "support.rs"]
pub mod support;
#[path = "../../harness/src/wordops.rs"]
mod ops;
use words::{mix2, mix3, Rng};
pub mod words {
    use super::support::{mix, Rng as R};
    pub struct Rng(pub R);
    impl Rng { pub fn u128(&mut self) -> u128 { (self.0.next() as u128) << 64 | self.0.next() as u128 } pub fn below(&mut self, n: usize) -> usize { self.0.below(n as u64) as usize } pub fn chance(&mut self, a: u64, b: u64) -> bool { self.0.below(b) < a } }
    pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b) }
    pub fn mix3(a: u64, b: u64, c: u64) -> u64 { mix2(mix2(a, b), c) }
    use super::ops;
    /// Random words of every type, one type at a time.
    pub fn case(seed: u64, rounds: u64) -> Result<u64, alloc::string::String> {
        let mut r = Rng(R(seed));
        ops::mask8()?;
        Ok(match mix(seed) % 7 { 0 => { for a in 0..=255 { let b = r.below(256) as u8; ops::w8::pair(a, b)?; ops::w8::single(a, b as usize)?; } ops::w8::consts()? } 1 => ops::w16::many(&mut r, rounds)?.0, 2 => ops::w32::many(&mut r, rounds)?.0, 3 => ops::w64::many(&mut r, rounds)?.0, 4 => ops::w128::many(&mut r, rounds)?.0, _ => { ops::wsz::many(&mut r, rounds)?; 0 } })
    }
}
mod fnv_64_32 { type H = u64; type F = u32; use super::support::Fnv as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_64_32 { type H = u64; type F = u32; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_64_64 { type H = u64; type F = u64; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_32_32 { type H = u32; type F = u32; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_32_64 { type H = u32; type F = u64; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_32_128 { type H = u32; type F = u128; use super::support::Raw as X; include!("work.rs"); }
mod raw_128_64 { type H = u128; type F = u64; use super::support::Raw as X; include!("work.rs"); }
mod id_8_8 { type H = u8; type F = u8; use super::support::Id as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod id_16_32 { type H = u16; type F = u32; use super::support::Id as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_s_s { type H = usize; type F = usize; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_64_s { type H = u64; type F = usize; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_s_32 { type H = usize; type F = u32; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod raw_32_s { type H = u32; type F = usize; use super::support::Raw as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod id_32_32 { type H = u32; type F = u32; use super::support::Id as X; include!("work.rs"); }
#[cfg(not(feature = "few"))]
mod id_64_32 { type H = u64; type F = u32; use super::support::Id as X; include!("work.rs"); }
