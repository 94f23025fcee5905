//! A program without the standard library: core, alloc and an allocator of its own. It drives maps and sets through
//! random histories and compares them with ordered dictionaries; the allocator checks how it is used.
//! Usage: nostd SEED FROM TO ROUNDS [2 for few configurations]. Prints one line per failing case or one line of counts, with a digest of everything
//! observed that must be the same on every platform; exits 0 if all held.
#![no_std]
#![no_main]
extern crate alloc;
mod env;
#[path = "all.rs"]
mod all;
use all::support;

pub static mut CASE: u64 = 0;
unsafe fn run(argc: usize, argv: *const *const u8) -> i32 {
    let arg = |i: usize| -> u64 { if i >= argc { return 1; } let mut p = *argv.add(i); let mut n = 0u64; while *p != 0 { n = n * 10 + (*p - b'0') as u64; p = p.add(1); } n };
    let (seed, from, to, rounds, few) = (arg(1), arg(2), arg(3), arg(4), arg(5) == 2);
    let mut st = support::Stats::NONE;
    let mut digest = 0u64;
    for case in from..to {
        CASE = case;
        let live = env::live();
        match support::everywhere(support::seed(seed, case), rounds, few, &mut st) { Ok(d) => digest = support::mix(digest ^ d), Err(m) => { env::say(&alloc::format!("case {}: {}\n", case, m)); return 1; } }
        if env::live() != live { env::say(&alloc::format!("case {}: {} blocks of memory are never given back\n", case, env::live() as i64 - live as i64)); return 1; }
        if let Some(m) = env::complaint() { env::say(&alloc::format!("case {}: {}\n", case, m)); return 1; }
    }
    env::say(&support::report(to - from, &st, digest, env::total() as u64));
    0
}
