//! Command line and case loop shared by the monitoring programs.
use crate::cx::*;
use crate::support::*;
use std::io::Write;

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o }

/// Runs the cases asked for on the command line and prints one line of JSON.
pub fn main_loop(one_case: impl Fn(&mut Cx) -> Res) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let prop = get("--prop").expect("--prop");
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let from: u64 = get("--from").map_or(0, |s| s.parse().unwrap());
    let step: u64 = get("--step").map_or(1, |s| s.parse().unwrap());
    let to: u64 = get("--to").map_or(from + 1, |s| s.parse().unwrap());
    let secs: u64 = get("--secs").map_or(u64::MAX, |s| s.parse().unwrap());
    let journal = get("--journal").map(|p| std::fs::File::create(p).unwrap());
    let sigs = get("--sigs");
    let verbose = args.iter().any(|a| a == "-v");
    let t0 = std::time::Instant::now();
    if !args.iter().any(|a| a == "--hook-off") { install_hook(); }
    let mut cx = Cx { prop: prop.clone(), tier: get("--tier").unwrap_or_else(|| "quick".into()), case: 0, rng: Rng(0), rep: Report::default(), journal, trace: Vec::new(), verbose };
    let mut c = from;
    let mut viol = None;
    let mut cut = false;
    let mut pseed = 0u64; for b in prop.bytes() { pseed = mix2(pseed, b as u64); }
    while c < to {
        if t0.elapsed().as_secs() >= secs { cut = true; break; }
        cx.case = c;
        cx.rng = Rng::new(mix3(seed, pseed, c));
        cx.trace.clear();
        match one_case(&mut cx) {
            Ok(()) => {}
            Err(Stop::Viol(m)) => { viol = Some((c, m)); break; }
            Err(Stop::Inconcl(m)) => { cx.rep.inconclusive += 1; if cx.rep.inconcl_msg.is_empty() { cx.rep.inconcl_msg = format!("case {}: {}", c, m); } }
        }
        c += step;
    }
    if let Some(p) = sigs { let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap()); for s in &cx.rep.sigs { f.write_all(&s.to_le_bytes()).unwrap(); } }
    let r = &cx.rep;
    let mut o = format!("{{\"evals\":{},\"inconclusive\":{},\"inconcl_msg\":\"{}\",\"cut\":{},\"nsigs\":{},\"counters\":{{{}}},\"samples\":[{}]", r.evals, r.inconclusive, esc(&r.inconcl_msg), cut, r.sigs.len(),
        r.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","), r.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    if let Some((c, m)) = &viol { o += &format!(",\"viol\":{{\"case\":{},\"msg\":\"{}\",\"trace\":[{}]}}", c, esc(m), cx.trace.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")); }
    o += "}";
    println!("{}", o);
    std::process::exit(if viol.is_some() { 1 } else { 0 });
}
