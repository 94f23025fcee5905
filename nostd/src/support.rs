// What the histories of all configurations share; no platform in it.
use alloc::{format, string::String, vec::Vec};
use core::{future::Future, hash::{Hash, Hasher}, pin::pin, task::{Context, Poll, Waker}};
use hash_trie::traits::HasherBv;

pub struct Stats { pub steps: u64, pub bulk: u64, pub entries: u64, pub words: u64, /* a set of 16-bit digests */ pub shapes: [u64; 1024] }
impl Stats { pub const NONE: Stats = Stats { steps: 0, bulk: 0, entries: 0, words: 0, shapes: [0; 1024] };
    pub fn seen(&self) -> Vec<u32> { (0..65536u32).filter(|i| self.shapes[(i / 64) as usize] >> (i % 64) & 1 == 1).collect() } }

pub fn mix(mut x: u64) -> u64 { x ^= x >> 31; x = x.wrapping_mul(0x9e3779b97f4a7c15); x ^= x >> 29; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^ x >> 32 }
pub struct Rng(pub u64);
impl Rng { pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) } pub fn below(&mut self, n: u64) -> u64 { self.next() % n } }

/// Keys of one class have one hash.
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct K { pub class: u64, pub name: String }
impl Hash for K { fn hash<S: Hasher>(&self, s: &mut S) { s.write(&self.class.to_le_bytes()) } }
/// The hasher of the library's default types, made printable and copyable.
#[derive(Default)]
pub struct Fnv(fnv::FnvHasher);
impl Clone for Fnv { fn clone(&self) -> Fnv { Fnv(fnv::FnvHasher::with_key(self.0.finish())) } }
impl core::fmt::Debug for Fnv { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("Fnv") } }
impl Hasher for Fnv { fn finish(&self) -> u64 { self.0.finish() } fn write(&mut self, b: &[u8]) { self.0.write(b) } }
/// Its value is the class, which the library cuts to its hash word.
#[derive(Clone, Debug, Default)]
pub struct Id(u64);
impl Hasher for Id { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { self.0 = b.iter().rev().fold(0, |a, x| a << 8 | *x as u64) } }
/// The class itself, cut or spread to the width.
#[derive(Clone, Debug, Default)]
pub struct Raw;
macro_rules! raw { ($($t:ty)*) => { $( impl HasherBv<$t, K> for Raw { fn hash(&self, k: &K) -> $t { k.class as $t } } )* } }
raw!(u32 u64 usize);
impl HasherBv<u128, K> for Raw { fn hash(&self, k: &K) -> u128 { (k.class as u128) << 64 | (k.class as u128) ^ 3 } }

pub fn block_on<T>(f: impl Future<Output = T>) -> Result<T, String> {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x); } }
    Err("an operation never ends".into())
}
/// The ith key of a universe: classes all equal, few, differing in one place, or free.
pub fn key(u: u64, seed: u64, i: u64) -> K {
    let (b, x) = (mix(seed ^ 77), mix(seed ^ i));
    let class = match u { 0 => b, 1 => x % 2, 2 => x % 5, 3 => b ^ (x & 3) << 30, 4 => b ^ (x & 31) << 5 * (b % 6), 5 => b ^ 1 << (x % 32), 6 => x & 0xffff_ffff, 7 => b ^ (x & 15) << 5 * (b % 13), 8 => b ^ (x & 3) << 62, _ => x };
    K { class, name: format!("n{}", i) }
}

/// Runs one history in every configuration, and rounds of word operations; few rounds ask for a short history, and few for three configurations only.
pub fn everywhere(seed: u64, rounds: u64, few: bool, st: &mut Stats) -> Result<u64, String> {
    let brief = rounds < 10;
    let mut all = 0;
    macro_rules! run { ($($m:ident)*) => { $( all = mix(all ^ super::$m::case(seed, brief, st).map_err(|e| format!("{}: {}", stringify!($m), e))?); )* } }
    run!(fnv_64_32 raw_128_64 id_8_8);
    if brief || seed % 16 == 0 { st.words += 1; all = mix(all ^ super::words::case(seed, rounds)?); }
    if few { return Ok(all); }
    #[cfg(not(feature = "few"))] {
    run!(id_64_32 raw_64_32 raw_64_64 raw_32_32 raw_32_128 id_16_32 id_32_32);
    // the machine's word is no different from the fixed one of its size
    macro_rules! twin { ($($m:ident $t:ident $u:ident)*) => { $( {
        let a = super::$m::case(seed, brief, st).map_err(|e| format!("{}: {}", stringify!($m), e))?;
        let (b, n) = if usize::BITS == 32 { (super::$t::case(seed, brief, st), stringify!($t)) } else { (super::$u::case(seed, brief, st), stringify!($u)) };
        if b.as_ref() != Ok(&a) { return Err(format!("{} and {} differ on this machine", stringify!($m), n)); }
    } )* } }
    twin!(raw_s_s raw_32_32 raw_64_64  raw_64_s raw_64_32 raw_64_64  raw_s_32 raw_32_32 raw_64_32  raw_32_s raw_32_32 raw_32_64);
    }
    Ok(all)
}
pub fn seed(seed: u64, case: u64) -> u64 { seed.wrapping_mul(0x9e3779b97f4a7c15) ^ case.wrapping_mul(0xbf58476d1ce4e5b9) }
pub fn report(cases: u64, st: &Stats, digest: u64, blocks: u64) -> String { format!("{{\"cases\":{},\"steps\":{},\"bulk\":{},\"entries\":{},\"words\":{},\"blocks\":{},\"digest\":\"{:x}\",\"shapes\":{:?}}}\n", cases, st.steps, st.bulk, st.entries, st.words, blocks, digest, st.seen()) }
