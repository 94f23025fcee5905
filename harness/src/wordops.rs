// The public word operations against a plain arithmetic reading of their documentation. Needs no std: `super` provides
// Rng (u128, below, chance), mix2 and mix3.
use alloc::{format, string::{String, ToString}, vec, vec::Vec};
use core::fmt::Debug;
use hash_trie::{results::BitError, traits::*};
use super::{mix2, mix3, Rng};

fn er<T>(r: Result<T, BitError>) -> Result<T, u8> { r.map_err(|e| match e { BitError::CountNotEqualToOne => 1, BitError::Found => 2, BitError::NotFound => 3, BitError::Range => 4 }) }
const ERR: [&str; 5] = ["", "CountNotEqualToOne", "Found", "NotFound", "Range"];
fn sh<T: Debug>(r: &Result<T, u8>) -> String { match r { Ok(v) => format!("{:?}", v), Err(e) => ERR[*e as usize].into() } }

macro_rules! word { ($name:ident, $t:ty) => { pub mod $name { use super::*;
    pub const BITS: u32 = <$t>::BITS;
    /// number of operations checked
    pub fn pair(a: $t, b: $t) -> Result<u64, String> {
        let n1 = b.count_ones() == 1;
        let idx = b.trailing_zeros();
        let has = n1 && (a >> idx) & 1 == 1;
        let ck = |what: &str, got: String, want: String| -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{}: {:#x}.{}({:#x}) gives {}, documented is {}", stringify!($t), a, what, b, got, want)) } };
        let want = if !n1 { Err(1) } else { Ok(has) };
        ck("bit_contains", sh(&er(a.bit_contains(b))), sh(&want))?;
        let want = if !n1 { Err(1) } else if !has { Err(3) } else { Ok((0..idx).filter(|i| (a >> i) & 1 == 1).count()) };
        ck("bit_index", sh(&er(a.bit_index(b))), sh(&want))?;
        let got = er(a.bit_insert(b));
        if !n1 && a & b != 0 { if got != Err(1) && got != Err(2) { return Err(format!("{}: {:#x}.bit_insert({:#x}) gives {}, an error is documented", stringify!($t), a, b, sh(&got))); } }
        else { let want = if !n1 { Err(1) } else if has { Err(2) } else { Ok(a + b) }; ck("bit_insert", sh(&got), sh(&want))?; }
        let want = if a & b != 0 { Err(2) } else { Ok(a + b) };
        ck("bit_merge", sh(&er(a.bit_merge(b))), sh(&want))?;
        let want = if !n1 { Err(1) } else if !has { Err(3) } else { Ok(a - b) };
        ck("bit_remove", sh(&er(a.bit_remove(b))), sh(&want))?;
        Ok(5)
    }
    pub fn single(a: $t, n: usize) -> Result<u64, String> {
        let ones = (0..BITS).filter(|i| (a >> i) & 1 == 1).count();
        if a.count_ones_t() != ones { return Err(format!("{}: {:#x}.count_ones_t() gives {}, it has {} ones", stringify!($t), a, a.count_ones_t(), ones)); }
        if a.as_usize() != a as usize { return Err(format!("{}: {:#x}.as_usize() gives {:#x}", stringify!($t), a, a.as_usize())); }
        let got = er(<$t as NthBit>::nth_bit(n));
        let want: Result<$t, u8> = if n >= BITS as usize { Err(4) } else { let mut w: $t = 1; for _ in 0..n { w = w * 2; } Ok(w) };
        if got != want { return Err(format!("{}::nth_bit({}) gives {}, documented is {}", stringify!($t), n, sh(&got), sh(&want))); }
        Ok(3)
    }
    pub fn consts() -> Result<u64, String> {
        let lb = (0..).find(|i| 1u32 << i == BITS).unwrap() as usize;
        if <$t as LogB>::log_b() != lb { return Err(format!("{}::log_b() gives {}, the word has {} bits", stringify!($t), <$t as LogB>::log_b(), BITS)); }
        if <$t as MaxOnes>::max_ones() != BITS as usize { return Err(format!("{}::max_ones() gives {}, the word has {} bits", stringify!($t), <$t as MaxOnes>::max_ones(), BITS)); }
        let want = (1u128 << lb) - 1;
        let m: Vec<u128> = { let mut v = vec![<$t as MaskLogB<u16>>::mask_log_b() as u128, <$t as MaskLogB<u32>>::mask_log_b() as u128, <$t as MaskLogB<u64>>::mask_log_b() as u128, <$t as MaskLogB<u128>>::mask_log_b(), <$t as MaskLogB<usize>>::mask_log_b() as u128]; v.dedup(); v };
        if m != vec![want] { return Err(format!("{}::mask_log_b() gives {:x?}, expected {:#x}", stringify!($t), m, want)); }
        Ok(7)
    }
    fn gen(r: &mut Rng) -> $t { let x = r.u128() as $t; match r.below(9) { 0 => x, 1 => x & r.u128() as $t & r.u128() as $t, 2 => x | r.u128() as $t | r.u128() as $t, 3 => 0, 4 => <$t>::MAX, 5 => (1 as $t) << r.below(BITS as usize), 6 => <$t>::MAX << r.below(BITS as usize), 7 => <$t>::MAX >> r.below(BITS as usize), _ => ((1 as $t) << r.below(BITS as usize)) | ((1 as $t) << r.below(BITS as usize)) } }
    pub fn many(r: &mut Rng, rounds: u64) -> Result<(u64, Vec<u64>, String), String> {
        let mut n = consts()?; let mut sigs = Vec::new(); let mut sample = String::new();
        for _ in 0..rounds {
            let a = gen(r);
            let i = if r.chance(1, 8) { [BITS as usize, BITS as usize + 1, usize::MAX, (1u64 << 32) as usize, 255, 256][r.below(6)] } else { r.below(2 * BITS as usize) };
            n += single(a, i)?;
            let b = gen(r);
            n += pair(a, b)?;
            sigs.push(mix3(a as u64 ^ ((a as u128) >> 64) as u64, b as u64 ^ ((b as u128) >> 64) as u64, mix2(i as u64, BITS as u64 * 2 + (stringify!($t) == "usize") as u64)));
            sample = format!("{} a={:#x} b={:#x} n={}", stringify!($t), a, b, i);
            // every single bit against the word
            for k in 0..BITS { n += pair(a, (1 as $t) << k)?; }
        }
        Ok((n, sigs, sample))
    }
} } }
word!(w8, u8); word!(w16, u16); word!(w32, u32); word!(w64, u64); word!(w128, u128); word!(wsz, usize);

pub fn mask8() -> Result<(), String> { if <u8 as MaskLogB<u8>>::mask_log_b() != 7u8 || <u16 as MaskLogB<u8>>::mask_log_b() != 15u8 { return Err("mask_log_b into an 8-bit word is wrong".into()); } Ok(()) }

