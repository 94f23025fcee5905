//! The same histories in an ordinary program, for the interpreter. Usage: plat SEED FROM TO ROUNDS.
extern crate alloc;
mod all;
use all::support;

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("a number")).collect();
    let mut st = support::Stats::NONE;
    let mut digest = 0u64;
    for case in a[1]..a[2] {
        match support::everywhere(support::seed(a[0], case), a[3], false, &mut st) { Ok(d) => digest = support::mix(digest ^ d), Err(m) => { println!("case {}: {}", case, m); std::process::exit(1) } }
    }
    print!("{}", support::report(a[2] - a[1], &st, digest, 0));
}
