//! Same scripts under many width configurations (C23): shared loop of the per-configuration programs.
use crate::cx::*;
use crate::support::*;

pub struct WideCase { pub uni: Uni, pub seed: u64, pub len: usize, pub ktags: bool }
/// The universe does not depend on the configuration: hashes structured for one randomly chosen layout, words up to 128 bits.
pub fn wide_case(seed: u64, case: u64) -> WideCase {
    let mut rng = Rng::new(mix3(seed, 0xC23, case));
    let (b, l) = *rng.pick(&[(8, 3), (8, 3), (16, 4), (16, 7), (32, 5), (64, 5), (64, 6), (128, 7), (128, 4)]);
    let n = match rng.below(10) { 0..=5 => rng.range(2, 10), 6..=8 => rng.range(11, 40), _ => rng.range(80, 260) };
    let mut uni = if rng.chance(1, 8) { let n = rng.range(20, 200); Uni::gen_mode(&mut rng, n, b, l, 10) } else { Uni::gen(&mut rng, n, b, l) };
    // sometimes let only the topmost bits differ as well
    if rng.chance(1, 4) { let top = rng.u128() << 120; for h in uni.h.iter_mut() { *h ^= if (*h & 1) == 1 { top } else { 0 }; } }
    uni.bits = 128;
    WideCase { seed: rng.next(), len: rng.range(10, 40), ktags: rng.chance(1, 2), uni }
}
/// Prints one line per case: case, digest or the panic met.
pub fn wide_main(name: &str, run: impl Fn(&WideCase, &mut dyn FnMut(String)) -> Vec<u64>) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| args.iter().position(|a| a == k).map_or(d, |i| args[i + 1].parse().unwrap());
    let (seed, from, step, to, secs) = (get("--seed", 1), get("--from", 0), get("--step", 1), get("--to", 1), get("--secs", u64::MAX));
    let verbose = args.iter().any(|a| a == "-v");
    let t0 = std::time::Instant::now();
    install_hook();
    let mut cx = Cx { prop: "C23".into(), tier: "quick".into(), case: 0, rng: Rng(0), rep: Report::default(), journal: None, trace: Vec::new(), verbose };
    let mut c = from;
    while c < to && t0.elapsed().as_secs() < secs {
        let w = wide_case(seed, c);
        if verbose { println!("# {} keys {} len {} ktags {}", name, if w.uni.n() <= 40 { w.uni.desc() } else { w.uni.n().to_string() }, w.len, w.ktags); }
        let mut say = |s: String| { if verbose { println!("{}", s); } };
        match cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || run(&w, &mut say)) {
            Ok(v) => { let mut h = v.len() as u64; for x in &v { h = mix2(h, *x); } println!("C {} {:016x} {}", c, h, v.len()); println!("G {} {:016x}", c, h); if verbose { println!("S {}", v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")); } }
            Err(Fail::Panic(m)) => println!("P {} {}", c, m.replace('\n', " ")),
            Err(Fail::Budget) => println!("P {} did not complete within the work budget", c),
            Err(Fail::Injected) => println!("P {} stray", c),
        }
        c += step;
    }
}
