// Included per configuration after engine.rs.
use crate::cx::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen_n(rng: &mut Rng) -> usize { if cfg!(miri) { return rng.range(1, 7); } match rng.below(20) { 0..=9 => rng.range(1, 8), 10..=15 => rng.range(9, 24), 16..=18 => rng.range(25, 80), _ => if rng.chance(1, 16) { rng.range(400, 1800) } else { rng.range(100, 300) } } }
pub fn gen_uni(cx: &mut Cx, n: usize) -> Uni {
    let u = if !cfg!(miri) && n > 3 && n <= 300 && cx.rng.chance(1, 24) {
        let c = (1usize << logb()).max(4);
        let n = cx.rng.range(c / 2, c + c / 4);
        Uni::gen_mode(&mut cx.rng, n, bits(), logb(), 10)
    } else { Uni::gen(&mut cx.rng, n, bits(), logb()) };
    cx.note(|| format!("cfg {}x{} mode {} {}", bits(), F::max_ones(), u.mode, if n <= 100 { u.desc() } else { format!("n={}", n) }));
    u
}

/// Grows a collection by random inserts, replacements and removals over `ids`.
pub fn grow(cx: &mut Cx, u: &Uni, ty: Ty, from: Option<Any>, ids: &[u32], removes: bool) -> Res<Any> {
    let mut m = from.unwrap_or_else(|| Any::empty(ty));
    let mut ids = ids.to_vec();
    cx.rng.shuffle(&mut ids);
    let mut plan: Vec<(u32, u8, u64, u32, u64)> = Vec::new();
    for (i, id) in ids.iter().enumerate() {
        plan.push((*id, 0, cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next()));
        if removes && cx.rng.chance(1, 5) { plan.push((ids[cx.rng.below(i + 1)], 2, 0, 0, 0)); }
        if removes && cx.rng.chance(1, 8) { plan.push((ids[cx.rng.below(i + 1)], 1, cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next())); }
    }
    cx.note(|| format!("grow {:?}: {}", ty, plan.iter().map(|p| format!("{}{}", ["+", "=", "-"][p.1 as usize], p.0)).collect::<Vec<_>>().join(" ")));
    cx.prep("building an input", || {
        for (id, act, kt, v, vt) in plan {
            match act {
                2 => if let Some((n, _)) = m.remove(u, id, false) { m = n; },
                a => if let Ok((n, _, _)) = m.insert(u, id, kt, v, vt, a == 1, false) { m = n; },
            }
        }
        m
    })
}
pub fn subset(cx: &mut Cx, u: &Uni) -> Vec<u32> {
    let n = u.n();
    if u.mode == 10 { let k = cx.rng.range(0, 4); return (0..n as u32).filter(|_| !cx.rng.chance(k, 8)).collect(); }
    if cx.rng.chance(if u.slots.is_empty() { 1 } else { 4 }, 5) { return u.choose(&mut cx.rng); }
    let (a, b) = *cx.rng.pick(&[(0, 1), (1, 4), (1, 2), (1, 2), (4, 5), (1, 1)]);
    (0..n as u32).filter(|_| cx.rng.chance(a, b)).collect()
}
thread_local! { static CROWD: std::cell::RefCell<Vec<Any>> = const { std::cell::RefCell::new(Vec::new()) }; }
pub fn disperse() { CROWD.with(|c| c.borrow_mut().clear()) }
/// Many versions made from `m` and kept beside it: every node gets far more owners than an ordinary history gives it.
pub fn crowd(cx: &mut Cx, u: &Uni, m: &Any, adds: bool) -> Res {
    if cfg!(miri) { return Ok(()); }
    let n = *cx.rng.pick(&[20usize, 70, 130, 260, 400]);
    let plan: Vec<(u32, usize, u64)> = (0..n).map(|_| (cx.rng.below(u.n()) as u32, cx.rng.below(4), cx.rng.next())).collect();
    cx.note(|| format!("{} versions derived from this one are kept beside it", n));
    let v = cx.prep("deriving many versions", || {
        let ids: Vec<u32> = m.snap().iter().map(|e| e.id).collect();
        plan.iter().map(|(id, act, t)| match act {
            0 => m.clone(),
            1 if adds => m.insert(u, *id, *t, 7, t ^ 1, true, false).map_or(m.clone(), |x| x.0),
            _ if u.group(*id, ids.iter().copied()) <= 1 => m.remove(u, *id, false).map_or(m.clone(), |x| x.0),
            _ => m.clone(),
        }).collect::<Vec<Any>>()
    })?;
    cx.add("crowds", 1);
    CROWD.with(|c| c.borrow_mut().extend(v));
    Ok(())
}
/// Input maps of assorted shapes: plain, or passed through a bulk operation first; now and then in a crowd.
pub fn gen_input(cx: &mut Cx, u: &Uni, ty: Ty, ids: &[u32]) -> Res<Any> {
    let m = gen_input_alone(cx, u, ty, ids)?;
    if cx.rng.chance(1, 24) { crowd(cx, u, &m, true)?; }
    Ok(m)
}
fn gen_input_alone(cx: &mut Cx, u: &Uni, ty: Ty, ids: &[u32]) -> Res<Any> {
    let m = grow(cx, u, ty, None, ids, true)?;
    if cx.rng.chance(1, 3) {
        // make it the outcome of a bulk operation
        let ks: &[Kind] = match ty { Ty::MA => &[Kind::T, Kind::T, Kind::TT, Kind::TM, Kind::TMF], Ty::MB => &[Kind::MT], Ty::MAB => &[Kind::MTF], Ty::SA => &[Kind::ST, Kind::ST, Kind::STT, Kind::STM], Ty::SB => &[Kind::SMT], _ => &[] };
        if ks.is_empty() { return Ok(m); }
        let k = *cx.rng.pick(ks);
        let mut s = Spec::gen(&mut cx.rng, k, 1, 8);
        if k.joint() { // keep most of what `m` holds
            let keep = if k.style(0) == 'r' { 2 } else { 1 };
            if s.role(keep) != Role::Gen || cx.rng.chance(2, 3) { s.w[keep] = [3, 3, 0, 2, 1]; match keep { 1 => s.left = Role::Gen, _ => s.right = Role::Gen } }
            if cx.rng.chance(1, 2) { s.w[0] = [2, 2, 1, 1, 1]; s.both = Role::Gen; }
        }
        let few = subset(cx, u);
        let other = if k.joint() { grow(cx, u, if k.style(0) == 'r' { k.left_ty() } else { k.right_ty() }, None, &few, true)? } else { m.clone() };
        cx.note(|| format!("then {} with {}", s.brief(), brief(&other.snap())));
        let rec = Rec::new(&s);
        let (a, b) = if k.joint() && k.style(0) == 'r' { (&other, &m) } else { (&m, &other) };
        return cx.prep("building an input by a bulk operation", || run_bulk(&s, &rec, a, b).unwrap().0);
    }
    Ok(m)
}
pub fn gen_pair(cx: &mut Cx, u: &Uni, k: Kind) -> Res<(Any, Any)> {
    let li = subset(cx, u);
    let l = gen_input(cx, u, k.left_ty(), &li)?;
    if !k.joint() { return Ok((l.clone(), l)); }
    let rt = k.right_ty();
    let r = if rt == k.left_ty() && cx.rng.chance(1, 4) {
        let few: Vec<u32> = (0..cx.rng.below(4)).map(|_| cx.rng.below(u.n()) as u32).collect();
        cx.note(|| "right side derived from left".into());
        let mut m = l.clone();
        let mut plan = Vec::new();
        for id in few { plan.push((id, cx.rng.below(3), cx.rng.next(), cx.rng.below(1000) as u32)); }
        cx.note(|| format!("edits {}", plan.iter().map(|p| format!("{}{}", ["+", "=", "-"][p.1], p.0)).collect::<Vec<_>>().join(" ")));
        cx.prep("deriving an input", || {
            for (id, a, t, v) in plan {
                if a == 2 { if let Some((n, _)) = m.remove(u, id, false) { m = n; } } else if let Ok((n, _, _)) = m.insert(u, id, t, v, t ^ 1, a == 1, false) { m = n; }
            }
            m
        })?
    } else { let ri = match cx.rng.below(6) { 0 | 1 => { let drop = cx.rng.below(u.n()) as u32; li.iter().copied().filter(|x| *x != drop).collect() } 2 if !u.slots.is_empty() => u.swap_group(&mut cx.rng, &li), _ => subset(cx, u) }; gen_input(cx, u, rt, &ri)? };
    Ok((l, r))
}

pub fn unique_ids(v: &[Ent]) -> bool { let s: BTreeSet<u32> = v.iter().map(|e| e.id).collect(); s.len() == v.len() }
pub fn same_snap(a: &[Ent], b: &[Ent]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }
pub fn same_contents(a: &[Ent], b: &[Ent]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_content(y)) }
fn ids_of(v: &[Ent]) -> Vec<u32> { v.iter().map(|e| e.id).collect() }

/// lookups agree with the visited entries for every key of the universe
pub fn check_finds(u: &Uni, m: &Any, snap: &[Ent], what: &str) -> Res {
    let by: BTreeMap<u32, &Ent> = snap.iter().map(|e| (e.id, e)).collect();
    for id in 0..u.n() as u32 {
        match (by.get(&id), m.find(u, id)) {
            (Some(e), Some(x)) => if !e.same_content(&x) { return Err(Stop::Viol(format!("{}: lookup of key {} gives {}, visit gives {}", what, id, x.brief(), e.brief()))); },
            (None, None) => {}
            (Some(_), None) => return Err(Stop::Viol(format!("{}: key {} is visited but lookup does not find it", what, id))),
            (None, Some(_)) => return Err(Stop::Viol(format!("{}: lookup finds key {} which is not visited", what, id))),
        }
    }
    Ok(())
}

pub struct BulkObs { pub out: Any, pub red: R, pub snap: Vec<Ent>, pub calls: Vec<Call>, pub counts: Counts }
pub struct BulkIn { pub u: Uni, pub l: Any, pub r: Any, pub sl: Vec<Ent>, pub sr: Vec<Ent> }

pub fn bulk_input(cx: &mut Cx, k: Kind) -> Res<BulkIn> {
    // the first cases of every thousand: lists longer than a byte counts
    let long = cx.case % 1024 < 16 && !cfg!(miri) && !cfg!(feature = "san");
    let n = if long { cx.rng.range(260, 560) } else { gen_n(&mut cx.rng) };
    let u = if long { Uni::gen_mode(&mut cx.rng, n, bits(), logb(), 1 + (cx.case % 16 / 8) as usize) } else { gen_uni(cx, n) };
    if long { cx.note(|| format!("cfg {}x{} mode {} n={}", bits(), F::max_ones(), u.mode, n)); }
    let (l, r) = gen_pair(cx, &u, k)?;
    let (sl, sr) = (l.snap(), if k.joint() { r.snap() } else { Vec::new() });
    if !unique_ids(&sl) || !unique_ids(&sr) { return Err(Stop::Inconcl("input holds a key twice".into())); }
    cx.note(|| format!("left {}", brief(&sl)));
    if k.joint() { cx.note(|| format!("right {}", brief(&sr))); }
    Ok(BulkIn { u, l, r, sl, sr })
}
pub fn bulk_cover(cx: &mut Cx, i: &BulkIn, s: &Spec, e: &Expect) {
    let mut pairs = BTreeMap::new();
    let sh = i.u.pair_sig(&ids_of(&i.sl), &ids_of(&i.sr), &mut pairs);
    if !(i.sl.is_empty() && i.sr.is_empty()) {
        let roles = mix3(s.both_code(0), s.both_code(1), s.both_code(2));
        cx.sig(mix3(mix2(s.kind as u64, roles), sh, e.decs));
    }
    for (k, n) in pairs { cx.add(&format!("meet:{}", k), n); }
    cx.count(&format!("op:{}", s.kind.name()));
    cx.add("entries_in", (i.sl.len() + i.sr.len()) as u64);
    cx.add("callback_calls", e.calls.len() as u64);
    if cx.rep.samples.len() < 3 && !i.sl.is_empty() && i.sl.len() + i.sr.len() < 12 { let t = format!("{} | left {} | right {} | cfg {}x{} mode {}", s.brief(), brief(&i.sl), brief(&i.sr), bits(), F::max_ones(), i.u.mode); cx.rep.samples.push(t); }
}
/// Runs one bulk operation; `target` says whether failing to complete violates the property at hand.
pub fn bulk_run(cx: &mut Cx, i: &BulkIn, s: &Spec, target: bool) -> Res<BulkObs> {
    cx.note(|| s.brief());
    let rec = Rec::new(s);
    let before = counts();
    let f = || run_bulk(s, &rec, &i.l, &i.r).unwrap();
    let (out, red) = if target { cx.target(s.kind.name(), f)? } else { cx.prep(s.kind.name(), f)? };
    let counts = counts().since(before);
    let snap = if target { cx.target("visiting the result", || out.snap())? } else { cx.prep("visiting the result", || out.snap())? };
    cx.note(|| format!("result {}", brief(&snap)));
    let calls = rec.calls.into_inner().unwrap_or_else(|e| e.into_inner());
    Ok(BulkObs { out, red, snap, calls, counts })
}
pub fn inputs_intact(i: &BulkIn) -> Res {
    if !same_snap(&i.l.snap(), &i.sl) { return Err(Stop::Viol("the left input changed".into())); }
    if !i.sr.is_empty() && !same_snap(&i.r.snap(), &i.sr) { return Err(Stop::Viol("the right input changed".into())); }
    Ok(())
}
/// A short history on a map against a dictionary, starting from its visited contents.
pub fn follow_up(cx: &mut Cx, u: &Uni, m: &Any, snap: &[Ent], n: usize) -> Res {
    let mut model: BTreeMap<u32, Ent> = snap.iter().map(|e| (e.id, e.clone())).collect();
    let mut m = m.clone();
    let set = m.ty().is_set();
    for _ in 0..n {
        let id = cx.rng.below(u.n()) as u32;
        if cx.rng.chance(1, 2) {
            let (kt, v, vt) = (cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next());
            cx.note(|| format!("then insert {} (replace)", id));
            let r = cx.target("insert into the result", || m.insert(u, id, kt, v, vt, true, false))?;
            match r { Ok((n, _, p)) => { if p.is_some() != model.contains_key(&id) { return cx.viol(format!("inserting key {} into the result: previous entry reported wrongly", id)); } m = n; model.insert(id, Ent { id, ktag: kt, val: if set { 0 } else { v }, vtag: if set { 0 } else { vt }, ka: 0, va: 0 }); } Err(_) => return cx.viol(format!("replacing insert of key {} into the result was refused", id)) }
        } else {
            cx.note(|| format!("then remove {}", id));
            match (cx.target("remove from the result", || m.remove(u, id, false))?, model.remove(&id)) { (Some((n, _)), Some(_)) => m = n, (None, None) => {}, _ => return cx.viol(format!("removing key {} from the result: presence reported wrongly", id)) }
        }
    }
    let s = cx.target("visiting", || m.snap())?;
    let want: Vec<Ent> = model.into_values().collect();
    if !same_contents(&s, &want) { return cx.viol(format!("after further operations on the result: {} instead of {}", brief(&s), brief(&want))); }
    if m.size() != want.len() { return cx.viol(format!("after further operations on the result: size {} instead of {}", m.size(), want.len())); }
    cx.target("lookups in the result", || check_finds(u, &m, &s, "after further operations on the result"))?
}

pub fn spec_for(cx: &mut Cx, i: &BulkIn, k: Kind, num: usize, den: usize) -> Spec {
    let mut s = Spec::gen(&mut cx.rng, k, num, den);
    let ids = |v: &[Ent]| v.iter().map(|e| e.id).collect::<Vec<u32>>();
    s.focus(&mut cx.rng, &i.u, &ids(&i.sl), &ids(&i.sr));
    s
}
/// C04..C09 (and the bulk half of C17): contents of results.
pub fn bulk_contents(cx: &mut Cx, kinds: &[Kind]) -> Res {
    let k = *cx.rng.pick(kinds);
    let i = bulk_input(cx, k)?;
    for _ in 0..3 {
        let s = spec_for(cx, &i, k, 1, 5);
        let e = s.expect(&i.sl, &i.sr);
        let o = bulk_run(cx, &i, &s, true)?;
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
        e.check_contents(&o.snap).map_err(Stop::Viol)?;
        cx.target("lookups in the result", || check_finds(&i.u, &o.out, &o.snap, "result"))??;
        if o.out.size() != o.snap.len() { return cx.viol(format!("the result holds {} entries but its size is {}", o.snap.len(), o.out.size())); }
        if k.is_set() && cx.prop == "C17" && o.red != e.red { return cx.viol(format!("reduction combined {} secondary results, expected {}", o.red.n, e.red.n)); }
        inputs_intact(&i)?;
        if cx.rng.chance(1, 3) { follow_up(cx, &i.u, &o.out, &o.snap, 6)?; }
    }
    Ok(())
}
/// C10
pub fn bulk_reduction(cx: &mut Cx) -> Res {
    let k = *cx.rng.pick(&KINDS);
    let i = bulk_input(cx, k)?;
    for _ in 0..3 {
        let s = spec_for(cx, &i, k, 0, 1);
        let e = s.expect(&i.sl, &i.sr);
        let o = bulk_run(cx, &i, &s, false)?;
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
        // The results the operations really returned, as recorded, are what must have been combined.
        let mut want = R::default();
        for c in &o.calls { want = want.add(&s.token(c.role, c.l.as_ref().or(c.r.as_ref()).unwrap().id)); }
        if o.red != want { return cx.viol(format!("the operations returned {} secondary results, the reduction combined {} ({})", want.n, o.red.n, if o.red.n == want.n { "not the same ones" } else { "lost or invented some" })); }
    }
    Ok(())
}
/// C21
pub fn bulk_calls(cx: &mut Cx) -> Res {
    let k = *cx.rng.pick(&KINDS);
    let i = bulk_input(cx, k)?;
    for _ in 0..3 {
        let s = spec_for(cx, &i, k, 0, 1);
        let e = s.expect(&i.sl, &i.sr);
        let o = bulk_run(cx, &i, &s, false)?;
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
        e.check_calls(&o.calls).map_err(Stop::Viol)?;
    }
    Ok(())
}
/// C11
pub fn bulk_strategies(cx: &mut Cx) -> Res {
    let ks: Vec<Kind> = KINDS.iter().copied().filter(|k| k.has_strat()).collect();
    let k = *cx.rng.pick(&ks);
    let i = bulk_input(cx, k)?;
    for _ in 0..2 {
        let mut s = spec_for(cx, &i, k, 1, 6);
        // either side may be reused when both are acceptable: make the answer unambiguous
        for r in s.w.iter_mut().chain(s.w2.iter_mut()) { r[2] = 0; if r.iter().all(|x| *x == 0) { r[0] = 1; } }
        if s.both == Role::Const(Dec::Keep(Side::LR)) { s.both = Role::Const(Dec::Keep(Side::L)); }
        let e = s.expect(&i.sl, &i.sr);
        let mut first: Option<(BulkObs, Strat)> = None;
        let mut failed: Option<String> = None;
        for st in [Strat::Seq, Strat::Mid, Strat::Def, Strat::Par] {
            s.strat = st;
            let o = match bulk_run(cx, &i, &s, true) { Ok(o) => o, Err(Stop::Viol(m)) => { if first.is_some() { return cx.viol(format!("{:?}: {}", st, m)); } if failed.is_none() { failed = Some(m); } continue; } Err(x) => return Err(x) };
            if let Some(m) = &failed { return cx.viol(format!("fails under one strategy ({}) but not under {:?}", m, st)); }
            if let Some((f, fs)) = &first {
                let strip = |v: &[Ent]| -> Vec<(u32, u32, u64, u64)> { v.iter().map(|e| (e.id, e.val, e.vtag, e.ktag)).collect() };
                if strip(&f.snap) != strip(&o.snap) { return cx.viol(format!("{:?} gives {} but {:?} gives {}", fs, brief(&f.snap), st, brief(&o.snap))); }
                if f.out.size() != o.out.size() { return cx.viol(format!("{:?} and {:?} give sizes {} and {}", fs, st, f.out.size(), o.out.size())); }
                if f.red != o.red { return cx.viol(format!("{:?} and {:?} give different reductions", fs, st)); }
                let prof = |c: &[Call]| { let mut v: Vec<(usize, u32)> = c.iter().map(|c| (c.role, c.l.as_ref().or(c.r.as_ref()).unwrap().id)).collect(); v.sort(); v };
                if prof(&f.calls) != prof(&o.calls) { return cx.viol(format!("{:?} and {:?} call the operations differently", fs, st)); }
            } else { first = Some((o, st)); }
        }
        if let Some(m) = failed { return Err(Stop::Inconcl(m)); }
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
    }
    Ok(())
}
/// C24
pub fn bulk_constants(cx: &mut Cx) -> Res {
    let k = *cx.rng.pick(&KINDS);
    let i = bulk_input(cx, k)?;
    for _ in 0..3 {
        let mut s = spec_for(cx, &i, k, 2, 3);
        if s.both == Role::Gen && s.left == Role::Gen && s.right == Role::Gen { s.left = Role::Const(s.random_const(&mut cx.rng, 1)); }
        let e = s.expect(&i.sl, &i.sr);
        let mut g = s.clone();
        for r in 0..3 { if let Role::Const(d) = s.role(r) { g.fixed[r] = Some(d); } }
        g.both = Role::Gen; g.left = Role::Gen; g.right = Role::Gen;
        let (a, b) = (bulk_run(cx, &i, &s, true), bulk_run(cx, &i, &g, true));
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(Stop::Inconcl(m)), _) | (_, Err(Stop::Inconcl(m))) => return Err(Stop::Inconcl(m)),
            (Err(Stop::Viol(m)), Ok(_)) => return cx.viol(format!("with constant operations: {}", m)),
            (_, Err(Stop::Viol(m))) => return Err(Stop::Inconcl(m)),
        };
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
        // Where either side is acceptable compare against what is acceptable, else entry by entry.
        let lr = |id: u32| e.ents.iter().find(|x| x.id == id).map_or(false, |x| x.places.len() == 2 || x.ktags.len() == 2);
        if ids_of(&a.snap) != ids_of(&b.snap) { return cx.viol(format!("constant operations give {} but the same per-entry operations give {}", brief(&a.snap), brief(&b.snap))); }
        for (x, y) in a.snap.iter().zip(&b.snap) {
            let ok = if lr(x.id) { let e = e.ents.iter().find(|z| z.id == x.id).unwrap(); e.vals.contains(&(x.val, x.vtag)) || (x.val, x.vtag) == (y.val, y.vtag) } else { x.same_content(y) };
            if !ok { return cx.viol(format!("key {}: constant operations give {}, the same per-entry operations give {}", x.id, x.brief(), y.brief())); }
        }
        if a.out.size() != b.out.size() { return cx.viol(format!("sizes differ: {} with constant operations, {} without", a.out.size(), b.out.size())); }
        if a.red != b.red { return cx.viol(format!("reductions differ: {} results combined with constant operations, {} without", a.red.n, b.red.n)); }
    }
    Ok(())
}
