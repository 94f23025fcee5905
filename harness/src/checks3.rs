// Included per configuration after script.rs: futures, nested use, formatting, memory, cheap reads.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
type Fail1 = Rc<RefCell<Option<(u64, String)>>>;
fn strip(v: &[Ent]) -> Vec<(u32, u64, u32, u64)> { let mut v: Vec<_> = v.iter().map(|e| (e.id, e.ktag, e.val, e.vtag)).collect(); v.sort(); v }
/// Answers for which only one outcome is right (no choice between the sides).
fn decided(s: &mut Spec) {
    for w in s.w.iter_mut() { w[2] = 0; if w.iter().all(|x| *x == 0) { w[0] = 1; } }
    if s.both == Role::Const(Dec::Keep(Side::LR)) { s.both = Role::Const(Dec::Keep(Side::L)); }
    if s.kind == Kind::STT || s.kind == Kind::TT { s.w[0][3] = 0; if s.w[0].iter().all(|x| *x == 0) { s.w[0][0] = 1; } }
}

/// One operation on some version of the pool, checked against the version's known contents.
fn pool_action(u: &Uni, pool: &[(Any, Vec<Ent>)], seed: u64) -> Result<&'static str, String> {
    let mut rng = Rng::new(seed);
    let (m, snap) = rng.pick(pool);
    let id = if !snap.is_empty() && rng.chance(1, 2) { rng.pick(snap).id } else { rng.below(u.n()) as u32 };
    let had = snap.iter().find(|e| e.id == id);
    let ty = m.ty();
    match rng.below(12) {
        0 | 1 => { let f = m.find(u, id); if !opt_same(f.as_ref(), had) { return Err(format!("find of key {} gave {} instead of {}", id, show(f.as_ref()), show(had))); } Ok("find") }
        2 | 3 => {
            let (kt, v, vt, rep) = (rng.next(), rng.below(1000) as u32, rng.next(), rng.chance(1, 2));
            let new = ent(ty, id, kt, v, vt);
            match (m.insert(u, id, kt, v, vt, rep, false), had) {
                (Ok((n, p, _)), h) => {
                    if h.is_some() && !rep { return Err(format!("a non-replacing insert of present key {} was not refused", id)); }
                    if !p.same_content(&new) { return Err(format!("insert of key {} returned pointers to {}", id, p.brief())); }
                    let mut want: Vec<Ent> = snap.iter().filter(|e| e.id != id).cloned().collect(); want.push(new); want.sort_by_key(|e| e.id);
                    let got = n.snap(); if !same_contents(&got, &want) { return Err(format!("insert of key {} gave {} instead of {}", id, brief(&got), brief(&want))); }
                }
                (Err(e), Some(h)) if !rep => if !e.same_content(h) { return Err(format!("refused insert of key {} reported {}", id, e.brief())); },
                (Err(_), _) => return Err(format!("insert of key {} was refused", id)),
            }
            Ok("insert")
        }
        4 | 5 => {
            match (m.remove(u, id, false), had) {
                (Some((n, e)), Some(h)) => { if !e.same_content(h) { return Err(format!("removal of key {} reported {}", id, e.brief())); } let want: Vec<Ent> = snap.iter().filter(|e| e.id != id).cloned().collect(); let got = n.snap(); if !same_contents(&got, &want) { return Err(format!("removal of key {} gave {} instead of {}", id, brief(&got), brief(&want))); } }
                (None, None) => {}
                _ => return Err(format!("removal of key {}: presence reported wrongly", id)),
            }
            Ok("remove")
        }
        6 => { let (s, z) = (m.snap(), m.size()); if !same_snap(&s, snap) || z != snap.len() { return Err(format!("visit gave {} (size {}) instead of {}", brief(&s), z, brief(snap))); } Ok("visit") }
        7 => { let c = m.clone(); if m.eq(&c) != Some((true, false)) { return Err("a version does not equal its clone".into()); } Ok("compare") }
        8 => { let t = each!(m, m => format!("{:?}", m)); if t.is_empty() { return Err("nothing was formatted".into()); } Ok("format") }
        _ => {
            let ks: Vec<Kind> = KINDS.iter().copied().filter(|k| k.left_ty() == ty && pool.iter().any(|p| p.0.ty() == k.right_ty())).collect();
            if ks.is_empty() { return Ok("none"); }
            let k = *rng.pick(&ks);
            let rs: Vec<&(Any, Vec<Ent>)> = pool.iter().filter(|p| p.0.ty() == k.right_ty()).collect();
            let r = *rng.pick(&rs);
            let s = Spec::gen(&mut rng, k, 1, 6);
            let e = s.expect(snap, if k.joint() { &r.1 } else { &[] });
            let rec = Rec::new(&s);
            let (o, red) = run_bulk(&s, &rec, m, &r.0).unwrap();
            e.check_contents(&o.snap()).map_err(|t| format!("{}: {}", s.brief(), t))?;
            if s.both == Role::Gen && s.left == Role::Gen && s.right == Role::Gen && red != e.red { return Err(format!("{}: another reduction", s.brief())); }
            Ok(k.name())
        }
    }
}
fn pool_of(cx: &mut Cx, u: &Uni, more: &[(Any, Vec<Ent>)]) -> Res<Vec<(Any, Vec<Ent>)>> {
    let mut pool: Vec<(Any, Vec<Ent>)> = more.to_vec();
    for t in [Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB] { if cx.rng.chance(1, 2) { continue; } let ids = subset(cx, u); let m = gen_input(cx, u, t, &ids)?; let s = m.snap(); pool.push((m, s)); }
    for p in &pool { if !unique_ids(&p.1) { return Err(Stop::Inconcl("a version holds a key twice".into())); } }
    Ok(pool)
}
/// Balance of objects around a case.
fn balanced(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> Res) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let live0 = LIVE.load(Relaxed);
    take_bad();
    f(cx)?;
    if let Some(b) = take_bad() { return cx.viol(b); }
    disperse();
    let d = LIVE.load(Relaxed) - live0;
    if d != 0 { return cx.viol(format!("after dropping everything {} keys and values {}", d.abs(), if d > 0 { "are alive" } else { "were dropped too often" })); }
    Ok(())
}

// ------------------------------------------------------------------ C26: futures
pub fn futures(cx: &mut Cx) -> Res { balanced(cx, futures_run) }
fn futures_run(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let ks: Vec<Kind> = KINDS.iter().copied().filter(|k| k.has_strat()).collect();
    let k = *cx.rng.pick(&ks);
    let i = bulk_input(cx, k)?;
    let mut given = vec![(i.l.clone(), i.sl.clone())];
    if k.joint() { given.push((i.r.clone(), i.sr.clone())); }
    let pool = Rc::new(pool_of(cx, &i.u, &given)?);
    drop(given);
    for _ in 0..3 {
        let s = spec_for(cx, &i, k, 1, 5);
        let e = s.expect(&i.sl, &i.sr);
        let all_gen = s.both == Role::Gen && s.left == Role::Gen && s.right == Role::Gen;
        cx.note(|| s.brief());
        let judge = |m: &Any, red: &R| -> Result<(), String> { e.check_contents(&m.snap())?; if all_gen && *red != e.red { return Err("another reduction".into()); } Ok(()) };
        { let rec = Rec::new(&s); let (m, red) = cx.prep(k.name(), || run_bulk(&s, &rec, &i.l, &i.r).unwrap())?; judge(&m, &red).map_err(|t| Stop::Inconcl(format!("undisturbed: {}", t)))?; }
        for mode in [1u64, 2, 3, 4] {
            let (live, c0) = (LIVE.load(Relaxed), counts());
            let fail: Fail1 = Rc::new(RefCell::new(None));
            let n = cx.rng.range(1, 3); let seed = cx.rng.next();
            if mode == 3 {
                let (pool, u, fail, mut x) = (pool.clone(), i.u.clone(), fail.clone(), seed);
                BETWEEN.with(|b| *b.borrow_mut() = Some(Box::new(move || for _ in 0..n { x = mix(x); match pool_action(&u, &pool, x) { Ok(_) => {} Err(t) => { fail.borrow_mut().get_or_insert((x, t)); } } })));
            }
            let rec = Rec::new(&s);
            POLL.store(mode, Relaxed);
            let r = cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_bulk(&s, &rec, &i.l, &i.r).unwrap())));
            POLL.store(0, Relaxed);
            BETWEEN.with(|b| *b.borrow_mut() = None);
            cx.rep.evals += 1;
            let how = ["", "dropped unpolled", "dropped when pending", "polled after other operations", "polled with changing wakers"][mode as usize];
            let r = match r { Ok(Ok(x)) => Ok(x), Ok(Err(p)) if p.is::<Abandoned>() => Err(()), _ => return cx.viol(format!("{}, its future {}, panicked: {}", k.name(), how, last_panic())) };
            let at = AT_CREATION.with(|c| c.get()).since(c0);
            if at.steps != 0 { return cx.viol(format!("calling {} made {} calls into user code ({} of operations) before its future was polled", k.name(), at.steps, at.calls)); }
            match r {
                Err(()) => {
                    cx.count("futures_abandoned");
                    let c = rec.calls.into_inner().unwrap_or_else(|e| e.into_inner());
                    if mode == 1 && !c.is_empty() { return cx.viol(format!("{}: dropping the unpolled future ran the operations", k.name())); }
                    let d = LIVE.load(Relaxed) - live;
                    if d != 0 { return cx.viol(format!("{}: a future {} {}", k.name(), how, if d > 0 { "leaked keys or values" } else { "dropped keys or values it does not own" })); }
                }
                Ok((m, red)) => {
                    if let Some((x, t)) = fail.borrow_mut().take() {
                        if pool_action(&i.u, &pool, x).is_err() { return Err(Stop::Inconcl(format!("an operation fails alone: {}", t))); }
                        return cx.viol(format!("between the call of {} and the poll of its future: {}", k.name(), t));
                    }
                    if let Err(t) = judge(&m, &red) { return cx.viol(format!("{}, its future {}: {}", k.name(), how, t)); }
                    cx.count(["", "", "futures_completed_at_first_poll", "futures_polled_after_other_operations", "futures_with_changing_wakers"][mode as usize]);
                }
            }
            inputs_intact(&i)?;
            if let Some(b) = take_bad() { return cx.viol(b); }
        }
        bulk_cover(cx, &i, &s, &e);
    }
    cx.rep.counters.insert("max_pending_polls".into(), PENDINGS.load(Relaxed));
    Ok(())
}

// ------------------------------------------------------------------ C27: user code that uses the library
pub fn nested(cx: &mut Cx) -> Res { let r = balanced(cx, nested_run); NEST_ON.store(false, std::sync::atomic::Ordering::Relaxed); NEST.with(|n| *n.borrow_mut() = None); r }
fn nested_run(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let n = if cfg!(miri) { cx.rng.range(1, 5) } else { match cx.rng.below(8) { 0..=5 => cx.rng.range(1, 9), _ => cx.rng.range(10, 40) } };
    let u = gen_uni(cx, n);
    let n = u.n();
    let what = cx.rng.below(14);
    let k = *cx.rng.pick(&KINDS);
    let mut s = Spec::gen(&mut cx.rng, k, 1, 8);
    decided(&mut s); s.record = false;
    let (lt, rt) = if what < 7 { let t = *cx.rng.pick(&[Ty::MA, Ty::SA, Ty::MB]); (t, t) } else { (k.left_ty(), k.right_ty()) };
    let li = subset(cx, &u); let ri = subset(cx, &u);
    let l = gen_input(cx, &u, lt, &li)?;
    let r = gen_input(cx, &u, rt, &ri)?;
    let (sl, sr) = (l.snap(), r.snap());
    let pool = Rc::new(pool_of(cx, &u, &[(l.clone(), sl.clone()), (r.clone(), sr.clone())])?);
    let id = if !sl.is_empty() && cx.rng.chance(1, 2) { cx.rng.pick(&sl).id } else { cx.rng.below(n) as u32 };
    let (kt, v, vt, rep, alike) = (cx.rng.next(), 7, cx.rng.next(), cx.rng.chance(1, 2), cx.rng.chance(1, 4));
    let name = match what { 0 | 1 => "insert", 2 => "remove", 3 => "find", 4 => "visit", 5 => "comparison and formatting", 6 => "dropping a version", _ => k.name() };
    cx.note(|| format!("{} key {} replace={} on {} / {} ; {}", name, id, rep, brief(&sl), brief(&sr), s.brief()));
    // everything the caller can observe of the operation
    type Seen = (Vec<(u32, u64, u32, u64)>, Vec<(u32, u64, u32, u64)>, R, u64);
    let op = || -> Seen { match what {
        0 | 1 => match l.insert(&u, id, kt, v, vt, rep, alike) { Ok((m, e, p)) => (strip(&m.snap()), strip(&p.into_iter().chain([e]).collect::<Vec<_>>()), R::default(), m.size() as u64), Err(e) => (vec![], strip(&[e]), R::default(), 0) },
        2 => match l.remove(&u, id, alike) { Some((m, e)) => (strip(&m.snap()), strip(&[e]), R::default(), m.size() as u64), None => Default::default() },
        3 => (vec![], strip(&l.find_alike(&u, id, alike).into_iter().collect::<Vec<_>>()), R::default(), 1),
        4 => (strip(&l.visit_all()), vec![], R::default(), l.size() as u64),
        5 => (vec![], vec![], R::default(), l.eq(&r).map_or(0, |x| 1 + x.0 as u64) + 4 * each!(&l, m => format!("{:?}", m)).len() as u64),
        6 => { let mut m = l.clone(); for j in 0..3 { let id = (id + j) % u.n() as u32; if let Ok((x, _, _)) = m.insert(&u, id, kt, v, vt, true, false) { m = x; } } let x = strip(&m.snap()); drop(m); (x, vec![], R::default(), 0) }
        _ => { let rec = Rec::new(&s); let (m, red) = run_bulk(&s, &rec, &l, &r).unwrap(); let x = strip(&m.snap()); (x, vec![], red, m.size() as u64) }
    } };
    let base = cx.prep(name, || op())?;
    for _ in 0..3 {
        let fail: Fail1 = Rc::new(RefCell::new(None));
        let done: Rc<RefCell<BTreeMap<&'static str, u64>>> = Default::default();
        let every = *cx.rng.pick(&[1usize, 1, 2, 3, 7]);
        let budget = if cfg!(miri) { 4 } else { 40 };
        let seed = cx.rng.next();
        { let (pool, u, fail, done, t, left) = (pool.clone(), u.clone(), fail.clone(), done.clone(), Cell::new(0usize), Cell::new(budget));
          NEST.with(|n| *n.borrow_mut() = Some(Box::new(move || {
            t.set(t.get() + 1);
            if t.get() % every != 0 || left.get() == 0 { return; }
            left.set(left.get() - 1);
            let x = mix2(seed, t.get() as u64);
            match pool_action(&u, &pool, x) { Ok(w) => *done.borrow_mut().entry(w).or_insert(0) += 1, Err(t) => { fail.borrow_mut().get_or_insert((x, t)); } }
          }))); }
        NEST_ON.store(true, Relaxed);
        let got = cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || op());
        NEST_ON.store(false, Relaxed);
        NEST.with(|n| *n.borrow_mut() = None);
        cx.rep.evals += 1;
        let got = match got { Ok(g) => g, Err(Fail::Panic(m)) => return cx.viol(format!("{} panicked when user code it calls uses the library: {}", name, m)), Err(Fail::Budget) => return cx.viol(format!("{} did not complete when user code it calls uses the library", name)), Err(_) => return Err(Stop::Inconcl("stray injection".into())) };
        if let Some((x, t)) = fail.borrow_mut().take() {
            if pool_action(&u, &pool, x).is_err() { return Err(Stop::Inconcl(format!("an operation fails alone: {}", t))); }
            return cx.viol(format!("called from user code inside {}: {}", name, t));
        }
        if got != base { return cx.viol(format!("{} gives {:x?} when user code it calls uses the library, {:x?} otherwise", name, got, base)); }
        let d = done.borrow();
        for (w, c) in d.iter() { cx.add("nested_calls", *c); cx.add(&format!("inside {}", name), *c); let mut h = 0; for b in w.bytes() { h = mix2(h, b as u64); } cx.sig(mix3(mix2(what as u64, if what > 6 { k as u64 } else { 0 }), h, sl.len().min(12) as u64)); }
        drop(d);
        for p in pool.iter() { let (x, z) = cx.target("observing a version", || (p.0.snap(), p.0.size()))?; if !same_snap(&x, &p.1) || z != p.1.len() { return cx.viol(format!("a version held {} before and {} (size {}) after nested use", brief(&p.1), brief(&x), z)); } }
        if let Some(b) = take_bad() { return cx.viol(b); }
    }
    if cx.rep.samples.len() < 3 && n < 8 { let t = format!("{} | {}", cx.trace.last().cloned().unwrap_or_default(), u.desc()); cx.rep.samples.push(t); }
    Ok(())
}

// ------------------------------------------------------------------ C28: formatting
/// Tokens K<digits>:<hex>; and V<digits>:<hex>; in the text, sorted.
fn tokens(t: &str) -> Vec<&str> {
    let b = t.as_bytes(); let mut out = Vec::new(); let mut i = 0;
    while i < b.len() {
        if b[i] == b'K' || b[i] == b'V' {
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if j > i + 1 && j < b.len() && b[j] == b':' { let mut h = j + 1; while h < b.len() && b[h].is_ascii_hexdigit() { h += 1; } if h > j + 1 && h < b.len() && b[h] == b';' { out.push(&t[i..=h]); i = h + 1; continue; } }
        }
        i += 1;
    }
    out.sort(); out
}
pub fn formatting(cx: &mut Cx) -> Res { balanced(cx, formatting_run) }
fn formatting_run(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng).min(150);
    let u = gen_uni(cx, n);
    let ty = *cx.rng.pick(&TYS);
    let ids = subset(cx, &u);
    let mut m = gen_input(cx, &u, ty, &ids)?;
    // the types only a transmute makes
    if ty == Ty::MA && cx.rng.chance(1, 3) || ty == Ty::SA && cx.rng.chance(1, 3) { let s = Spec::gen(&mut cx.rng, if ty == Ty::MA { Kind::X } else { Kind::SX }, 0, 1); let rec = Rec::new(&s); m = cx.prep("transmuting", || run_bulk(&s, &rec, &m, &m).unwrap().0)?; }
    for _ in 0..3 {
        let snap = m.snap();
        if !unique_ids(&snap) { return Err(Stop::Inconcl("a version holds a key twice".into())); }
        let set = m.ty().is_set();
        let mut want: Vec<String> = snap.iter().map(|e| format!("K{}:{:x};", e.id, e.ktag)).chain(snap.iter().filter(|_| !set).map(|e| format!("V{}:{:x};", e.val, e.vtag))).collect();
        want.sort();
        let mut full = 0;
        for form in ["{:?}", "{:#?}", "{:09.2?}", "{:+#x?}", "{:>1.0X?}"] {
            let t = cx.target("formatting", || match form { "{:?}" => each!(&m, m => format!("{:?}", m)), "{:#?}" => each!(&m, m => format!("{:#?}", m)), "{:09.2?}" => each!(&m, m => format!("{:09.2?}", m)), "{:+#x?}" => each!(&m, m => format!("{:+#x?}", m)), _ => each!(&m, m => format!("{:>1.0X?}", m)) })?;
            if form == "{:?}" { full = t.len(); }
            cx.rep.evals += 1;
            let got = tokens(&t);
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != b) {
                let miss = want.iter().find(|w| want.iter().filter(|x| x == w).count() != got.iter().filter(|x| **x == w.as_str()).count()).cloned();
                return cx.viol(match miss { Some(x) => format!("{} appears {} times in the {} text of a version that holds it {} times", x, got.iter().filter(|y| **y == x.as_str()).count(), form, want.iter().filter(|y| **y == x).count()), None => format!("{} keys and values appear in the text of a version that holds {}", got.len(), want.len()) });
            }
            cx.max("max_text", t.len() as u64); cx.add("tokens_matched", got.len() as u64);
        }
        // a writer that fails: success is not to be claimed for a text that is short of entries
        for round in 0..4 {
            // for good, or for one write only
            let mut w = if round % 2 == 0 { Narrow { left: cx.rng.below(full + 1), skip: usize::MAX, out: String::new() } } else { Narrow { left: usize::MAX, skip: cx.rng.below(full / 4 + 2), out: String::new() } };
            let r = cx.target("formatting into a writer that fails", || { use std::fmt::Write; each!(&m, m => write!(w, "{:?}", m)) })?;
            cx.rep.evals += 1;
            let got = tokens(&w.out);
            if r.is_ok() && (got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a != b)) { return cx.viol(format!("formatting claims success, but the writer failed and has {} bytes: {} of {} keys and values were written", w.out.len(), got.len(), want.len())); }
            cx.add(if r.is_ok() { "narrow_writers_sufficed" } else { "narrow_writers_failed" }, 1);
        }
        if !same_snap(&m.snap(), &snap) { return cx.viol("formatting changed the version".into()); }
        let mut pairs = BTreeMap::new(); let sh = u.pair_sig(&ids_of(&snap), &[], &mut pairs); if !snap.is_empty() { cx.sig(mix2(m.ty() as u64, sh)); }
        let id = cx.rng.below(u.n()) as u32;
        m = cx.prep("single-key operation", || match m.remove(&u, id, false) { Some((x, _)) => x, None => m.insert(&u, id, id as u64 * 7919 + 1, 5, id as u64 * 104729 + 3, true, false).map(|x| x.0).unwrap_or(m) })?;
    }
    if cx.rep.samples.len() < 3 && u.n() < 5 { let t = each!(&m, m => format!("{:?}", m)); cx.rep.samples.push(t.chars().take(600).collect()); }
    Ok(())
}

struct Narrow { left: usize, skip: usize, out: String }
impl std::fmt::Write for Narrow { fn write_str(&mut self, t: &str) -> std::fmt::Result { if self.skip == 0 { self.skip = usize::MAX; return Err(std::fmt::Error); } self.skip = self.skip.wrapping_sub(1); if t.len() > self.left { self.left = 0; return Err(std::fmt::Error); } self.left -= t.len(); self.out.push_str(t); Ok(()) } }

// ------------------------------------------------------------------ C29: memory
/// Most bytes a version over these ids may hold: a fixed amount per branch of its trie (one per distinct hash prefix) and per entry.
/// `grown`: it was made by insertions alone, so branches are only where hashes part.
fn may_hold(u: &Uni, snap: &[Ent], grown: bool) -> i64 {
    if snap.is_empty() { return EMPTY_MAX; }
    let levels = (bits() + logb() - 1) / logb();
    let mut nodes = 1i64;
    for d in 1..=levels { let low = (d * logb()).min(128); let mask = if low >= 128 { u128::MAX } else { (1u128 << low) - 1 }; let mut s: BTreeMap<u128, BTreeSet<u128>> = BTreeMap::new(); for e in snap { s.entry(u.eff(e.id) & mask).or_default().insert(u.eff(e.id)); } nodes += s.values().filter(|g| !grown || g.len() > 1).count() as i64; }
    EMPTY_MAX + nodes * NODE_MAX + snap.len() as i64 * ENTRY_MAX
}
const EMPTY_MAX: i64 = 256;
const NODE_MAX: i64 = 160;
const ENTRY_MAX: i64 = 256;
pub fn memory(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let n = gen_n(&mut cx.rng).min(400);
    let u = gen_uni(cx, n);
    let n = u.n();
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB]);
    // only the newest version is kept, so that all memory in use is its
    let mut held = 0i64;
    let fresh = { let b = ALLOC_BYTES.load(Relaxed); let m = Any::empty(ty); let w = ALLOC_BYTES.load(Relaxed) - b; drop(m); let d = ALLOC_BYTES.load(Relaxed) - b; if d != 0 { return cx.viol(format!("an empty collection kept {} bytes after it was dropped", d)); } w };
    let b = ALLOC_BYTES.load(Relaxed);
    let mut m = Some(Any::empty(ty));
    held += ALLOC_BYTES.load(Relaxed) - b;
    let mut grown = true;
    let rounds = if cfg!(miri) { 3 } else { cx.rng.range(3, 14) };
    for round in 0..rounds {
        let act = if round == 0 { 0 } else { cx.rng.below(6) };
        let p = cx.rng.range(0, 8);
        let mut pick: Vec<u32> = (0..n as u32).filter(|_| cx.rng.chance(p, 8)).collect();
        cx.rng.shuffle(&mut pick);
        let k = match ty { Ty::MA => *cx.rng.pick(&[Kind::T, Kind::TT, Kind::TM]), Ty::SA => *cx.rng.pick(&[Kind::ST, Kind::STT, Kind::STM]), _ => Kind::T };
        let mut s = Spec::gen(&mut cx.rng, k, 1, 6); s.record = false;
        let dup = cx.rng.chance(1, 2);
        let oids = if act == 5 && k.joint() && k.left_ty() == ty { let ids = subset(cx, &u); cx.note(|| format!("other side {:?}", &ids[..ids.len().min(40)])); ids } else { Vec::new() };
        let empties = act == 4 && cx.rng.chance(1, 2);
        cx.note(|| format!("round {}: {}", round, match act { 0 | 1 => format!("insert {:?}", &pick[..pick.len().min(40)]), 2 | 3 => format!("remove {:?}", &pick[..pick.len().min(40)]), 4 => if empties { "remove everything".into() } else { format!("insert and remove {:?} again", &pick[..pick.len().min(40)]) }, _ => s.brief() }));
        let x = m.take().unwrap();
        let before = ALLOC_BYTES.load(Relaxed);
        let r = cx.run(b'P', STEP_BUDGET, BYTE_BUDGET, || {
            let mut x = x;
            match act {
                0 | 1 => for id in &pick { if let Ok((y, _, _)) = x.insert(&u, *id, 1, 2, 3, dup, false) { x = y; } },
                2 | 3 => for id in &pick { if let Some((y, _)) = x.remove(&u, *id, false) { x = y; } },
                4 if empties => for id in 0..n as u32 { if let Some((y, _)) = x.remove(&u, id, false) { x = y; } },
                4 => for id in &pick { let id = *id; if x.find(&u, id).is_none() { if let Ok((y, _, _)) = x.insert(&u, id, 1, 2, 3, false, false) { x = y; } if let Some((y, _)) = x.remove(&u, id, false) { x = y; } } },
                _ => {
                    // the other side, with which the result may share much, is gone before the account is taken
                    let mut r = if k.joint() { Any::empty(k.right_ty()) } else { x.clone() };
                    for id in &oids { if let Ok((y, _, _)) = r.insert(&u, *id, 5, 6, 7, false, false) { r = y; } }
                    let rec = Rec::new(&s);
                    if let Some((y, _)) = run_bulk(&s, &rec, &x, &r) { x = y; }
                }
            }
            x
        });
        let x = match r { Ok(x) => x, Err(_) => return Err(Stop::Inconcl(format!("an operation failed: {}", last_panic()))) };
        held += ALLOC_BYTES.load(Relaxed) - before;
        let snap = x.snap();
        if !unique_ids(&snap) || x.size() != snap.len() { return Err(Stop::Inconcl("size and entries disagree".into())); }
        cx.rep.evals += 1;
        if act >= 2 { grown = snap.is_empty(); }
        if snap.is_empty() && held > fresh { return cx.viol(format!("an emptied collection holds {} bytes, a new one {}", held, fresh)); }
        let lim = may_hold(&u, &snap, grown);
        if held > lim { return cx.viol(format!("a version of {} entries holds {} bytes, more than {}", snap.len(), held, lim)); }
        if !snap.is_empty() { cx.max(if grown { "max_share_of_limit_grown_x100" } else { "max_share_of_limit_x100" }, (100 * held / lim) as u64); }
        if snap.is_empty() { cx.count("emptied"); }
        let mut pairs = BTreeMap::new(); cx.sig(mix3(ty as u64, u.pair_sig(&ids_of(&snap), &[], &mut pairs), act as u64));
        m = Some(x);
    }
    let x = m.take().unwrap();
    let snap = x.snap();
    memory_end(cx, &u, x, &snap, ty, fresh, held, grown)
}
/// Drops the last version: it must have held what was accounted for, within the limit.
fn memory_end(cx: &mut Cx, u: &Uni, x: Any, snap: &[Ent], ty: Ty, fresh: i64, held: i64, grown: bool) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let b = ALLOC_BYTES.load(Relaxed); drop(x); let w = b - ALLOC_BYTES.load(Relaxed);
    let lim = may_hold(u, snap, grown);
    if w > lim { return cx.viol(format!("a version of {} entries held {} bytes, more than {}", snap.len(), w, lim)); }
    if snap.is_empty() && w > fresh { return cx.viol(format!("an emptied collection held {} bytes, a new one {}", w, fresh)); }
    if held != w { return cx.viol(format!("{} bytes remain in use after the last version was dropped", held - w)); }
    if cx.rep.samples.len() < 3 { let t = format!("cfg {}x{} {:?} {} entries, {} bytes of at most {} ; {}", bits(), F::max_ones(), ty, snap.len(), w, lim, cx.trace.last().cloned().unwrap_or_default()); cx.rep.samples.push(t); }
    Ok(())
}

// ------------------------------------------------------------------ C30: reading and sharing is cheap
pub fn cheap(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let n = gen_n(&mut cx.rng);
    let u = gen_uni(cx, n);
    let n = u.n();
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB]);
    let ids = subset(cx, &u);
    let m = gen_input(cx, &u, ty, &ids)?;
    let snap = m.snap();
    let mut pairs = BTreeMap::new(); if !snap.is_empty() { cx.sig(mix2(ty as u64, u.pair_sig(&ids_of(&snap), &[], &mut pairs))); }
    let judge = |cx: &mut Cx, what: &str, c: Counts, bytes: i64| -> Res {
        cx.rep.evals += 1; cx.count(what); cx.max(&format!("max_allocations_{}", what.replace(' ', "_")), c.allocs);
        if c.kclones + c.vclones > 0 { return cx.viol(format!("{} copied {} keys and {} values", what, c.kclones, c.vclones)); }
        if c.allocs > 0 || bytes != 0 { return cx.viol(format!("{} made {} allocations ({} bytes kept) on {} entries", what, c.allocs, bytes, snap.len())); }
        Ok(())
    };
    let meas = |f: &mut dyn FnMut()| -> (Counts, i64) { let (c, b) = (counts(), ALLOC_BYTES.load(Relaxed)); f(); (counts().since(c), ALLOC_BYTES.load(Relaxed) - b) };
    for _ in 0..20.min(n + 4) {
        let id = cx.rng.below(n) as u32;
        cover_key(cx, &u, snap.iter().map(|e| e.id), id, ty as u64);
        let alike = cx.rng.chance(1, 4);
        let (c, b) = cx.prep("find", || meas(&mut || { std::hint::black_box(m.find_alike(&u, id, alike)); }))?;
        judge(cx, "find", c, b)?;
    }
    let (c, b) = cx.prep("size", || meas(&mut || { std::hint::black_box(m.size()); }))?; judge(cx, "size", c, b)?;
    let (c, b) = cx.prep("visit", || meas(&mut || { std::hint::black_box(each!(&m, m => m.visit_count())); }))?; judge(cx, "visit", c, b)?;
    let mut k = None;
    let (c, b) = cx.prep("clone", || meas(&mut || k = Some(m.clone())))?; judge(cx, "clone", c, b)?;
    let (c, b) = cx.prep("compare", || meas(&mut || { std::hint::black_box(m.eq(k.as_ref().unwrap())); }))?; judge(cx, "comparison with a clone", c, b)?;
    {
        let id = cx.rng.below(n) as u32;
        // a clone over another version, which others hold too
        let o = cx.prep("insert", || m.insert(&u, id, 1, 1, 1, true, false).ok().map(|x| x.0))?.unwrap_or_else(|| m.clone());
        let mut y = o.clone();
        let (c, b) = cx.prep("clone_from", || meas(&mut || { y.assign(&m); }))?; judge(cx, "clone over another version", c, b)?;
        if y.eq(&m) != Some((true, false)) { return cx.viol("a clone over another version does not equal its original".into()); }
    }
    let (c, b) = cx.prep("drop", || meas(&mut || k = None))?; judge(cx, "drop of a clone", c, b)?;
    // a refused insert and a removal of nothing
    let p = cx.rng.below(n) as u32;
    let has = snap.iter().any(|e| e.id == p);
    let (c, b) = cx.prep("a single-key operation that changes nothing", || meas(&mut || { if has { std::hint::black_box(m.insert(&u, p, 1, 1, 1, false, false).is_ok()); } else { std::hint::black_box(m.remove(&u, p, false).is_some()); } }))?;
    cx.rep.evals += 1;
    if c.kclones + c.vclones > 0 { return cx.viol(format!("{} copied {} keys and {} values", if has { "a refused insert" } else { "a removal of an absent key" }, c.kclones, c.vclones)); }
    if b != 0 { return cx.viol(format!("{} kept {} bytes", if has { "a refused insert" } else { "a removal of an absent key" }, b)); }
    if !same_snap(&m.snap(), &snap) { return cx.viol("reading changed the version".into()); }
    if cx.rep.samples.len() < 3 && n < 8 { let t = format!("cfg {}x{} {:?} {} | {}", bits(), F::max_ones(), ty, brief(&snap), u.desc()); cx.rep.samples.push(t); }
    Ok(())
}

// ------------------------------------------------------------------ C31: repeatability
/// Carries out a history that `seed` determines and notes what can be seen of every step, in order.
fn trail(u: &Uni, seed: u64, len: usize, mut between: impl FnMut(usize)) -> Vec<(u64, String)> {
    let mut rng = Rng::new(seed);
    let n = u.n();
    let mut pool: Vec<Any> = TYS.iter().filter(|t| **t != Ty::MC && **t != Ty::SC).map(|t| Any::empty(*t)).collect();
    let first = pool.len();
    let mut out = Vec::new();
    let seq = |v: &[Ent]| v.iter().fold(v.len() as u64, |a, e| mix3(a, e.id as u64, mix3(e.ktag, e.val as u64, e.vtag)));
    for step in 0..len {
        between(step);
        let vi = if rng.chance(1, 3) { rng.below(first) } else { rng.below(pool.len()) };
        let m = pool[vi].clone();
        let mut made = None;
        let (d, what) = match rng.below(10) {
            0..=3 => {
                let k = if rng.chance(1, 2) { rng.range(1, n + 1) } else { rng.range(1, 6) };
                let mut m = m; let mut d = 0;
                for _ in 0..k { let (id, kt, v, vt, rep) = (rng.below(n) as u32, rng.next(), rng.below(1000) as u32, rng.next(), rng.chance(1, 3));
                    match m.insert(u, id, kt, v, vt, rep, false) { Ok((x, e, p)) => { d = mix3(d, seq(&[e]), p.map_or(0, |p| seq(&[p]))); m = x; } Err(e) => d = mix3(d, 9, seq(&[e])) } }
                made = Some(m); (d, format!("{} insertions into v{}", k, vi))
            }
            4 => {
                let k = rng.range(1, 4 + n / 4);
                let mut m = m; let mut d = 0;
                for _ in 0..k { let id = rng.below(n) as u32; if let Some((x, e)) = m.remove(u, id, false) { d = mix2(d, seq(&[e])); m = x; } }
                made = Some(m); (d, format!("{} removals from v{}", k, vi))
            }
            5 => { let mut d = 0; for id in 0..n as u32 { if let Some(e) = m.find(u, id) { d = mix2(d, seq(&[e])); } } for o in &pool { d = mix2(d, same_version(&m, o) as u64); } (d, format!("lookups in and comparisons with v{}", vi)) }
            _ => {
                let k = *rng.pick(&KINDS);
                let s = Spec::gen(&mut rng, k, 1, 5);
                let ls: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].ty() == k.left_ty()).collect();
                let rs: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].ty() == k.right_ty()).collect();
                if ls.is_empty() || rs.is_empty() { (0, "nothing".into()) } else {
                    let (li, ri) = (*ls.last().unwrap(), *rng.pick(&rs));
                    let rec = Rec::new(&s);
                    let (x, red) = run_bulk(&s, &rec, &pool[li], &pool[ri]).unwrap();
                    let calls = rec.calls.into_inner().unwrap();
                    let d = calls.iter().fold(red.shape, |a, c| mix3(a, c.role as u64, mix2(c.l.as_ref().map_or(0, |e| seq(std::slice::from_ref(e))), c.r.as_ref().map_or(0, |e| seq(std::slice::from_ref(e))))));
                    made = Some(x); (d, format!("v{} and v{} under {} ({} calls, {} results reduced)", li, ri, s.brief(), calls.len(), red.n))
                }
            }
        };
        let mut d = d;
        let mut what = what;
        if let Some(x) = made {
            let v = x.visit_all();
            let v2 = x.clone().visit_all();
            if !v.iter().zip(&v2).all(|(a, b)| a.id == b.id) || v.len() != v2.len() { d = mix2(d, STEPS.load(std::sync::atomic::Ordering::Relaxed) | 1); what += ", of which two visits in a row go different ways"; }
            d = mix3(d, seq(&v), x.size() as u64);
            if v.len() < 60 && rng.chance(1, 4) { let t = each!(&x, m => format!("{:?}", m)); d = t.bytes().fold(d, |a, b| mix2(a, b as u64)); }
            what += &format!(", then visits {}", v.iter().take(12).map(|e| e.brief()).collect::<Vec<_>>().join(" "));
            if pool.len() > first + 8 { let i = first + rng.below(8); pool.remove(i); }
            pool.push(x);
        }
        out.push((d, what));
    }
    out
}
fn same_version(a: &Any, b: &Any) -> bool { match (a, b) { (Any::MA(a), Any::MA(b)) => a == b, (Any::MB(a), Any::MB(b)) => a == b, (Any::MAB(a), Any::MAB(b)) => a == b, (Any::SA(a), Any::SA(b)) => a == b, (Any::SB(a), Any::SB(b)) => a == b, (Any::MC(a), Any::MC(b)) => a == b, (Any::SC(a), Any::SC(b)) => a == b, _ => false } }
pub fn repeat(cx: &mut Cx) -> Res { balanced(cx, repeat_run) }
fn repeat_run(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng).min(150);
    let u = gen_uni(cx, n);
    let u2 = gen_uni(cx, 20);
    let (seed, len) = (cx.rng.next(), cx.rng.range(4, 24));
    cx.note(|| format!("a history of {} steps over {} keys", len, n));
    let once = cx.prep("the history", || trail(&u, seed, len, |_| {}))?;
    for (d, w) in &once { cx.note(|| w.clone()); cx.sig(*d); }
    for round in 0..3 {
        let s2 = cx.rng.next();
        let how = ["at once", "among other operations", "on another thread while this one works on other versions"][round];
        let again = match round {
            0 => cx.target("repeating the history", || trail(&u, seed, len, |_| {}))?,
            1 => {
                // other versions come, stay and go, and so does memory
                let mut hold: Vec<(Any, Vec<u8>)> = Vec::new();
                let mut r = Rng::new(s2);
                cx.target("repeating the history", || trail(&u, seed, len, |_| for _ in 0..r.below(4) {
                    if hold.len() > 6 { let i = r.below(hold.len()); hold.swap_remove(i); }
                    let ty = *r.pick(&TYS);
                    let mut m = match r.below(3) { 0 if !hold.is_empty() => r.pick(&hold).0.clone(), _ => Any::empty(ty) };
                    for _ in 0..r.below(12) { let id = r.below(u2.n()) as u32; m = if r.chance(1, 3) { match m.remove(&u2, id, false) { Some((x, _)) => x, None => m } } else { match m.insert(&u2, id, r.next(), 1, r.next(), r.chance(1, 2), false) { Ok((x, ..)) => x, Err(_) => m } }; }
                    if r.chance(1, 2) { let mut s = Spec::gen(&mut r, if m.ty().is_set() { Kind::ST } else { Kind::T }, 1, 3); s.record = false; let rec = Rec::new(&s); if m.ty() == Ty::MA || m.ty() == Ty::SA { m = run_bulk(&s, &rec, &m, &m).unwrap().0; } }
                    m.visit_all();
                    hold.push((m, Vec::with_capacity(r.range(1, 400))));
                }))?
            }
            _ => {
                cx.jot(b'T');
                let (u, u2) = (&u, &u2);
                let r = std::thread::scope(|s| {
                    let h = s.spawn(move || trail(u, seed, len, |_| std::thread::yield_now()));
                    let _other = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trail(u2, s2, len, |_| std::thread::yield_now())));
                    h.join()
                });
                cx.jot(b'-');
                match r { Ok(r) => r, Err(_) => return cx.viol(format!("a history of {} steps completes when run first and panics when repeated {}: {}", len, how, last_panic())) }
            }
        };
        cx.rep.evals += len as u64; cx.add("repeated_steps", len as u64);
        if let Some(i) = (0..len).find(|i| once[*i].0 != again[*i].0) { return cx.viol(format!("step {} of a history goes differently when it is repeated {}: first {}; again {}", i, how, once[i].1, again[i].1)); }
    }
    if cx.rep.samples.len() < 3 { let t = once.iter().take(5).map(|x| x.1.chars().take(120).collect::<String>()).collect::<Vec<_>>().join(" | "); cx.rep.samples.push(t); }
    Ok(())
}
