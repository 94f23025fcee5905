// Included per configuration: C13, versions shared and derived from by several threads at once.

struct Sh<T>(T);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Sh<T> { fn get(&self) -> &T { &self.0 } fn take(self) -> T { self.0 } }

/// Whether the collection types promise Send and Sync, found out without failing to compile.
mod probe {
    pub struct P<T>(pub std::marker::PhantomData<T>);
    pub trait No { fn both(&self) -> bool { false } }
    impl<T> No for &P<T> {}
    pub trait Yes { fn both(&self) -> bool { true } }
    impl<T: Send + Sync> Yes for P<T> {}
}
pub fn promised() -> bool {
    use probe::*;
    macro_rules! ask { ($($t:ty),*) => { true $( && (&P::<$t>(std::marker::PhantomData)).both() )* } }
    ask!(MA, MB, MC, MAB, SA, SB, SC)
}

struct Out { digs: Vec<u64>, ends: Vec<(usize, Vec<Ent>)>, other: Vec<String> }
fn ends(pool: &[Any], skip: usize) -> Vec<(usize, Vec<Ent>)> { pool[skip..].iter().map(|m| (m.size(), m.snap())).collect() }
fn ends_differ(a: &[(usize, Vec<Ent>)], b: &[(usize, Vec<Ent>)]) -> bool { a.len() != b.len() || a.iter().zip(b).any(|(x, y)| x.0 != y.0 || !same_contents(&x.1, &y.1)) }

pub fn threads(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    if !promised() { return cx.viol("maps and sets of thread-safe keys and values are not Send and Sync".into()); }
    let live0 = LIVE.load(Relaxed);
    take_bad();
    let n = if cfg!(miri) { cx.rng.range(2, 5) } else { match cx.rng.below(4) { 0 | 1 => cx.rng.range(2, 8), 2 => cx.rng.range(9, 30), _ => cx.rng.range(40, 120) } };
    let u = gen_uni(cx, n);
    let n = u.n();
    let mut base = Vec::new();
    for t in [Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB] { if cfg!(miri) && matches!(t, Ty::MAB | Ty::SB) { continue; } let ids = subset(cx, &u); base.push(gen_input(cx, &u, t, &ids)?); }
    let nt = if cfg!(miri) { 2 } else { cx.rng.range(2, 6) };
    let len = if cfg!(miri) { 4 } else { cx.rng.range(6, 30) };
    let same = cx.rng.chance(1, 3);
    let seeds: Vec<u64> = { let s = cx.rng.next(); (0..nt).map(|i| if same { s } else { s ^ (i as u64 + 1) }).collect() };
    let chaos_n = *cx.rng.pick(&[0u64, 0, 2, 10, 100]);
    cx.note(|| format!("{} threads, {} operations each, same script: {}, delay 1 in {}; base versions {}", nt, len, same, chaos_n, base.iter().map(|b| b.size().to_string()).collect::<Vec<_>>().join(" ")));
    // alone: what each script gives
    let mut alone = Vec::new();
    for s in &seeds { let a = cx.prep("running a script alone", || { let (d, p) = script_pool(&u, *s, len, &base, true, |_| {}); let e = ends(&p, base.len().min(p.len())); (d, e) })?; alone.push(a); }
    let before: Vec<(usize, Vec<Ent>)> = base.iter().map(|m| (m.size(), m.snap())).collect();
    // together
    cx.jot(b'T');
    let keep_base = cx.rng.chance(1, 2);
    let t_order = cx.rng.next();
    CHAOS.store(chaos_n, Relaxed);
    let done = std::sync::atomic::AtomicUsize::new(0);
    let overlap = std::sync::atomic::AtomicU64::new(0);
    let active = std::sync::atomic::AtomicU64::new(0);
    let slots: Vec<Mutex<Option<Sh<Vec<Any>>>>> = (0..nt).map(|_| Mutex::new(None)).collect();
    let barrier = std::sync::Barrier::new(nt);
    let shared = Sh(base);
    let nb = shared.get().len();
    let outs: Vec<std::thread::Result<Sh<Out>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt).map(|i| { let (u, slots, barrier, shared, seed, done, overlap, active) = (&u, &slots, &barrier, &shared, seeds[i], &done, &overlap, &active); sc.spawn(move || {
            chaos_seed(seed ^ i as u64 ^ t_order);
            let work = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                barrier.wait();
                active.fetch_or(1 << i, Relaxed);
                let mine: Vec<Any> = shared.get().iter().cloned().collect();
                let (digs, pool) = script_pool(u, seed, len, &mine, true, |_| { overlap.fetch_or(active.load(Relaxed) ^ (1 << i), Relaxed); });
                active.fetch_and(!(1 << i), Relaxed);
                let ends = ends(&pool, mine.len().min(pool.len()));
                *slots[i].lock().unwrap() = Some(Sh(pool[nb.min(pool.len())..].to_vec()));
                // half of the threads drop what they derived while the neighbour reads it
                if i % 2 == 0 { drop(pool); drop(mine); Ok((digs, ends, None)) } else { Ok((digs, ends, Some((pool, mine)))) as Result<_, ()> }
            }));
            done.fetch_add(1, Relaxed);
            barrier.wait();
            let (digs, ends, hold) = match work { Ok(Ok(x)) => x, Ok(Err(())) => unreachable!(), Err(p) => std::panic::resume_unwind(p) };
            // take over the neighbour's versions: read, derive from, drop them
            let mut other = Vec::new();
            let theirs = slots[(i + 1) % slots.len()].lock().unwrap().take();
            if let Some(t) = theirs {
                let t = t.take();
                for m in &t { let e = m.snap(); let f = (0..u.n() as u32).filter(|id| m.find(u, *id).is_some()).count(); if f != e.len() || m.size() != f { other.push(format!("a version handed to another thread has size {}, {} visited and {} found entries", m.size(), e.len(), f)); } if let Some((x, _)) = m.remove(u, 0, false) { drop(x); } }
                drop(t);
            }
            drop(hold);
            Sh(Out { digs, ends, other })
        }) }).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    CHAOS.store(0, Relaxed);
    drop(slots);
    cx.jot(b'-');
    cx.rep.evals += (nt * len) as u64;
    cx.add("threads", nt as u64);
    if overlap.load(Relaxed) != 0 { cx.count("runs_with_overlapping_threads"); }
    for (i, o) in outs.into_iter().enumerate() {
        match o {
            Err(_) => return cx.viol(format!("thread {} of {} panicked ({}); alone its script completes", i, nt, last_panic())),
            Ok(o) => {
                let o = o.take();
                if let Some(k) = (0..alone[i].0.len().max(o.digs.len())).find(|k| alone[i].0.get(*k) != o.digs.get(*k)) { return cx.viol(format!("thread {} of {}: operation {} of its script gives another outcome than when run alone", i, nt, k)); }
                if ends_differ(&alone[i].1, &o.ends) { return cx.viol(format!("thread {} of {}: the versions it derived hold other entries than when run alone", i, nt)); }
                if let Some(m) = o.other.first() { return cx.viol(m.clone()); }
            }
        }
    }
    let base = shared.take();
    let after: Vec<(usize, Vec<Ent>)> = base.iter().map(|m| (m.size(), m.snap())).collect();
    for (a, b) in before.iter().zip(&after) { if a.0 != b.0 || !same_snap(&a.1, &b.1) { return cx.viol(format!("a shared version held {} before the threads ran and {} afterwards", brief(&a.1), brief(&b.1))); } }
    drop(alone); let _ = keep_base; drop(base);
    if let Some(b) = take_bad() { return cx.viol(b); }
    disperse();
    let d = LIVE.load(Relaxed) - live0;
    if d != 0 { return cx.viol(format!("after the threads ended and every version was dropped {} keys and values {}", d.abs(), if d > 0 { "are alive" } else { "were dropped too often" })); }
    cx.sig(mix3(nt as u64 * 64 + len as u64, n as u64, mix3(same as u64, chaos_n, u.mode as u64)));
    for s in &seeds { cx.sig(*s); }
    if cx.rep.samples.len() < 3 { let t = format!("cfg {}x{} {}", bits(), F::max_ones(), cx.trace.last().cloned().unwrap_or_default()); cx.rep.samples.push(t); }
    Ok(())
}
