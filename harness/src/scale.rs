// Included per configuration: how the CPU time of operations grows with the size of the collection and with the age of the process.
// `--scale PART [SEED]`: prints one line per measurement; ends with 0 unless some growth stays beyond its limit in every attempt.
// The limits lie between the growth demanded and the next asymptotic class, several times away from either.
struct Scale { bad: Vec<String> }
fn cpu() -> u64 {
    #[repr(C)] struct Ts { s: i64, n: i64 }
    extern "C" { fn clock_gettime(c: i32, t: *mut Ts) -> i32; }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { assert_eq!(clock_gettime(3, &mut t), 0); }
    t.s as u64 * 1_000_000_000 + t.n as u64
}
/// The least CPU time of some runs of `f`, which returns the time it took.
fn least(n: usize, mut f: impl FnMut() -> u64) -> u64 { (0..n).map(|_| f()).min().unwrap().max(1) }
fn timed<T>(f: impl FnOnce() -> T) -> u64 { let t = cpu(); let x = f(); let t = cpu() - t; drop(x); t }
impl Scale {
    fn judge(&mut self, what: &str, limit: u64, mut f: impl FnMut(usize) -> (u64, u64)) {
        let mut last = String::new();
        for attempt in 0..4 {
            let (a, b) = f(attempt);
            let a = a.max(200);
            last = format!("{}: {} ns against {} ns, {} times as long (limit {})", what, b, a, b / a, limit);
            if b / a <= limit { println!("{}", last); return; }
        }
        println!("BEYOND {}", last);
        self.bad.push(last);
    }
}
fn shape(name: &str, n: usize, rng: &mut Rng) -> Uni {
    let b = bits() as u32;
    let h: Vec<u128> = (0..n + 64).map(|i| match name {
        "spread" => rng.u128(),
        // two and two share all but the last levels
        "pairs" => { let base = mix2(i as u64 / 2, 77) as u128; base << 64 >> 64 & (hmon::support::maskw(b as usize) >> 6) | ((i as u128 % 2) << (b - 3)) }
        _ => 0x5a5a_1234_5678_9abc,
    } & hmon::support::maskw(b as usize)).collect();
    Uni { h, mode: 1, bits: bits(), logb: logb(), slots: Vec::new() }
}
fn fill(t: Ty, u: &Uni, n: usize) -> Any { (0..n as u32).fold(Any::empty(t), |m, id| m.insert(u, id, 1, 1, 1, false, false).ok().unwrap().0) }
/// Time of one call for each of 60 keys spread over the collection of the first `n`.
fn single_op(op: &str, m: &Any, u: &Uni, n: usize) -> u64 {
    let ids: Vec<u32> = (0..60).map(|i| (i * n / 60) as u32).collect();
    let out: Vec<u32> = (0..60).map(|i| (n + i) as u32).collect();
    match op {
        "find" => timed(|| for i in &ids { assert!(m.find(u, *i).is_some()); }),
        "find absent" => timed(|| for i in &out { assert!(m.find(u, *i).is_none()); }),
        "insert" => timed(|| for i in &out { assert!(m.insert(u, *i, 2, 2, 2, false, false).is_ok()); }),
        "insert refused" => timed(|| for i in &ids { assert!(m.insert(u, *i, 2, 2, 2, false, false).is_err()); }),
        "replace" => timed(|| for i in &ids { assert!(m.insert(u, *i, 2, 2, 2, true, false).is_ok()); }),
        "remove" => timed(|| for i in &ids { assert!(m.remove(u, *i, false).is_some()); }),
        "remove absent" => timed(|| for i in &out { assert!(m.remove(u, *i, false).is_none()); }),
        "size" => timed(|| for _ in 0..60 { assert_eq!(m.size(), n); }),
        "clone and drop" => timed(|| for _ in 0..60 { let _ = m.clone(); }),
        "equality" => { let c = m.clone(); timed(|| for _ in 0..60 { assert_eq!(m.eq(&c), Some((true, false))); }) }
        _ => unreachable!(),
    }
}
const SINGLE: [&str; 10] = ["find", "find absent", "insert", "insert refused", "replace", "remove", "remove absent", "size", "clone and drop", "equality"];
pub fn scale_main(args: &[String]) -> ! {
    let i = args.iter().position(|a| a == "--scale").unwrap();
    let part = args[i + 1].clone();
    let seed: u64 = args.get(i + 2).map_or(1, |s| s.parse().unwrap());
    let th = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        let mut s = Scale { bad: Vec::new() };
        let mut rng = Rng::new(mix2(seed, 0x5ca1e));
        if part == "single" {
            for t in [Ty::MA, Ty::SA] { for (sh, n1, n2, lim) in [("spread", 1000, 32000, 12), ("pairs", 1000, 32000, 12), ("list", 100, 1600, 80)] {
                let (u1, u2) = (shape(sh, n1, &mut rng), shape(sh, n2, &mut rng));
                let (m1, m2) = (fill(t, &u1, n1), fill(t, &u2, n2));
                // constant whatever the shape: cloning and comparing with a clone
                for op in SINGLE { s.judge(&format!("{:?} {} ({})", t, op, sh), if matches!(op, "clone and drop" | "equality") { 12 } else { lim }, |_| (least(7, || single_op(op, &m1, &u1, n1)), least(5, || single_op(op, &m2, &u2, n2)))); }
            } }
            // depth: two keys that part at the first level against two that part at the last
            let levels = (bits() / logb()) as u64;
            let two = |sh: u32| { let h = vec![0u128, 1u128 << sh]; Uni { h, mode: 1, bits: bits(), logb: logb(), slots: Vec::new() } };
            let (u1, u2) = (two(0), two(bits() as u32 - 1));
            let (m1, m2) = (fill(Ty::MA, &u1, 2), fill(Ty::MA, &u2, 2));
            let one = |op: &str, m: &Any, u: &Uni| match op {
                "find" => timed(|| for _ in 0..20 { assert!(m.find(u, 1).is_some()); }),
                "replace" => timed(|| for _ in 0..20 { assert!(m.insert(u, 1, 2, 2, 2, true, false).is_ok()); }),
                "remove" => timed(|| for _ in 0..20 { assert!(m.remove(u, 1, false).is_some()); }),
                "insert" => { let o = m.remove(u, 1, false).unwrap().0; timed(|| for _ in 0..20 { assert!(o.insert(u, 1, 2, 2, 2, true, false).is_ok()); }) }
                _ => timed(|| for _ in 0..20 { assert_eq!(m.visit_all().len(), 2); }),
            };
            for op in ["find", "replace", "remove", "insert", "visit"] { s.judge(&format!("{} (depth)", op), 8 * levels, |_| (least(9, || one(op, &m1, &u1)), least(9, || one(op, &m2, &u2)))); }
        }
        if part == "age" {
            let n = 1000;
            let u = shape("spread", n, &mut rng);
            let l = shape("list", 100, &mut rng);
            let (m, ml) = (fill(Ty::MA, &u, n), fill(Ty::MA, &l, 100));
            let measure = || -> Vec<u64> { let mut v: Vec<u64> = SINGLE.iter().map(|op| least(9, || single_op(op, &m, &u, n))).collect(); v.extend(SINGLE.iter().map(|op| least(9, || single_op(op, &ml, &l, 100)))); v.push(least(9, || timed(|| m.visit_all()))); v };
            let before = measure();
            let start = cpu();
            let mut kept = Vec::new();
            let mut x = m.clone();
            let mut step = 0u64;
            while cpu() - start < 4_000_000_000 {
                let id = rng.below(n + 64) as u32;
                if rng.chance(1, 2) { if let Some((y, _)) = x.remove(&u, id, false) { x = y; } } else if let Ok((y, _, _)) = x.insert(&u, id, step, 3, step, true, false) { x = y; }
                step += 1;
                if step % 16 == 0 { kept.push(x.clone()); }
                if step % 512 == 0 { let k = KINDS[(step / 512) as usize % KINDS.len()]; let sp = Spec { record: false, ..Spec::gen(&mut rng, k, 1, 4) }; let rec = Rec::new(&sp);
                    let (a, b) = (fill(k.left_ty(), &u, 64), fill(k.right_ty(), &u, 64)); let _ = run_bulk(&sp, &rec, &a, &b); }
            }
            println!("aged by {} steps, {} versions kept", step, kept.len());
            let mut after: Vec<Vec<u64>> = Vec::new();
            let names: Vec<String> = SINGLE.iter().map(|s| format!("{} (spread)", s)).chain(SINGLE.iter().map(|s| format!("{} (list)", s))).chain(["visit".to_string()]).collect();
            for (i, w) in names.iter().enumerate() { s.judge(&format!("{} late in the process, after {} steps", w, step), 8, |a| { while after.len() <= a { after.push(measure()); } (before[i], after[a][i]) }); }
        }
        if part == "linear" {
            for t in [Ty::MA, Ty::SA] { for (sh, n1, n2, lim) in [("spread", 500, 16000, 160), ("pairs", 500, 16000, 160), ("list", 100, 1600, 80)] {
                let (u1, u2) = (shape(sh, n1, &mut rng), shape(sh, n2, &mut rng));
                let (m1, m2) = (fill(t, &u1, n1), fill(t, &u2, n2));
                s.judge(&format!("{:?} visit ({})", t, sh), lim, |_| (least(5, || timed(|| m1.visit_all())), least(3, || timed(|| m2.visit_all()))));
                let dropping = |u: &Uni, n: usize| { let m = fill(t, u, n); timed(|| drop(m)) };
                s.judge(&format!("{:?} dropping the last version ({})", t, sh), lim, |_| (least(5, || dropping(&u1, n1)), least(2, || dropping(&u2, n2))));
            } }
        }
        if let Some(k) = KINDS.iter().copied().find(|k| k.name() == part) {
            for (sh, n1, n2, lim) in [("spread", 300, 9600, 160), ("pairs", 300, 9600, 160), if k.joint() { ("list", 40, 320, 256) } else { ("list", 50, 800, 80) }] {
                let (u1, u2) = (shape(sh, n1, &mut rng), shape(sh, n2, &mut rng));
                let l = (fill(k.left_ty(), &u1, n1), fill(k.left_ty(), &u2, n2));
                // half of the keys are common to both sides
                let right = |u: &Uni, n: usize| (n as u32 / 2..n as u32 / 2 * 3).filter(|i| (*i as usize) < u.n()).fold(Any::empty(k.right_ty()), |m, id| m.insert(u, id, 2, 2, 2, false, false).ok().unwrap().0);
                let r = if k.joint() { (right(&u1, n1), right(&u2, n2)) } else { (Any::empty(k.right_ty()), Any::empty(k.right_ty())) };
                for variant in 0..3 {
                    let mut sp = Spec::gen(&mut rng, k, if variant == 2 { 1 } else { 0 }, 1);
                    if variant == 0 { sp.w = [[1, 1, 1, 1, 0]; 3]; }
                    sp.record = false; sp.strat = Strat::Seq;
                    let rec = Rec::new(&sp);
                    s.judge(&format!("{} ({}) {}", part, sh, sp.brief()), lim, |a| (least(3, || timed(|| run_bulk(&sp, &rec, &l.0, &r.0))), least(1 + a, || timed(|| run_bulk(&sp, &rec, &l.1, &r.1)))));
                }
            }
        }
        s.bad
    }).unwrap();
    let bad = th.join().expect("the measurement did not complete");
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(if bad.is_empty() { 0 } else { 5 }) }
}
