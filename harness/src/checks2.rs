// Included per configuration after checks.rs: histories, version forests, addresses, work, faults.

fn ent(ty: Ty, id: u32, ktag: u64, val: u32, vtag: u64) -> Ent { let set = ty.is_set(); Ent { id, ktag, val: if set { 0 } else { val }, vtag: if set { 0 } else { vtag }, ka: 0, va: 0 } }
fn show(e: Option<&Ent>) -> String { e.map_or("nothing".into(), |e| e.brief()) }
fn opt_same(a: Option<&Ent>, b: Option<&Ent>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.same_content(b), _ => false } }
pub fn cover_key(cx: &mut Cx, u: &Uni, ids: impl Iterator<Item = u32>, id: u32, code: u64) {
    if u.n() > 300 && id % 16 != 0 { return; }
    let (k, d, g) = u.situation(ids, id);
    cx.count(&format!("at:{}", k));
    cx.max("max_depth", d as u64); cx.max("max_group", g as u64);
    cx.sig(mix3(mix2(code, k as u64), d as u64, mix2(g.min(8) as u64, bits() as u64)));
}

// ------------------------------------------------------------------ C01, C17, C20: histories against a dictionary
struct Dv { m: Any, d: BTreeMap<u32, Ent> }
pub fn dictionary(cx: &mut Cx, ty: Ty, alike_mix: bool) -> Res {
    let n = gen_n(&mut cx.rng).min(700);
    let u = gen_uni(cx, n);
    let n = u.n();
    let mut vs = vec![Dv { m: Any::empty(ty), d: BTreeMap::new() }];
    let steps = if cfg!(miri) { 12 } else { 2 * n + cx.rng.range(5, 40) };
    let grow = cx.rng.range(0, n + n / 2);
    cx.note(|| format!("history on {:?}", ty));
    let crowded = if cx.rng.chance(1, 12) { cx.rng.below(steps) } else { usize::MAX };
    for step in 0..steps {
        if step == crowded { let m = vs[vs.len() - 1].m.clone(); crowd(cx, &u, &m, true)?; }
        let vi = if cx.rng.chance(5, 6) { vs.len() - 1 } else { cx.rng.below(vs.len()) };
        let mut id = cx.rng.below(n) as u32;
        let act = if step < grow { cx.rng.below(5) } else { cx.rng.below(12) };
        // bias removals and lookups to keys that are there
        if act >= 6 && cx.rng.chance(1, 2) { let d = &vs[vi].d; if !d.is_empty() { let k = cx.rng.below(d.len()); id = *d.keys().nth(k).unwrap(); } }
        let alike = alike_mix && cx.rng.chance(1, 2);
        let m = vs[vi].m.clone();
        let had = vs[vi].d.get(&id).cloned();
        cover_key(cx, &u, vs[vi].d.keys().copied(), id, mix3(act as u64 / 4, had.is_some() as u64, alike as u64 * 8 + ty as u64));
        cx.rep.evals += 1;
        match act {
            0..=5 => {
                let replace = act >= 4;
                let (kt, v, vt) = (cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next());
                let new = ent(ty, id, kt, v, vt);
                cx.note(|| format!("#{} insert {} on version {} replace={} alike={}", step, new.brief(), vi, replace, alike));
                let conv = || (KCONVS.load(std::sync::atomic::Ordering::Relaxed), VCONVS.load(std::sync::atomic::Ordering::Relaxed));
                let c0 = conv();
                let r = cx.target("insert", || m.insert(&u, id, kt, v, vt, replace, alike))?;
                if alike {
                    let (c, stored) = (conv(), r.is_ok() as u64);
                    let (kc, vc) = (c.0 - c0.0, c.1 - c0.1);
                    if kc != stored || vc != stored * (!ty.is_set() && vt & 1 == 1) as u64 { return cx.viol(format!("insert of key {} with a key{} of another type, {}, converted the key {} times and the value {} times", id, if ty.is_set() || vt & 1 == 0 { "" } else { " and value" }, if stored == 1 { "stored" } else { "refused" }, kc, vc)); }
                    cx.count(if stored == 1 { "conversions_on_storing" } else { "refusals_without_conversion" });
                }
                match r {
                    Ok((nm, _, prev)) => {
                        if had.is_some() && !replace { return cx.viol(format!("a non-replacing insert of present key {} was not refused", id)); }
                        if !opt_same(prev.as_ref(), had.as_ref()) { return cx.viol(format!("insert of key {} reported {} as the old entry, the map held {}", id, show(prev.as_ref()), show(had.as_ref()))); }
                        let mut d = vs[vi].d.clone();
                        d.insert(id, new);
                        push_dv(cx, &mut vs, Dv { m: nm, d });
                    }
                    Err(e) => {
                        if had.is_none() { return cx.viol(format!("insert of absent key {} was refused", id)); }
                        if replace { return cx.viol(format!("a replacing insert of key {} was refused", id)); }
                        if !e.same_content(had.as_ref().unwrap()) { return cx.viol(format!("a refused insert of key {} reported {}, stored is {}", id, e.brief(), show(had.as_ref()))); }
                    }
                }
            }
            6..=9 => {
                cx.note(|| format!("#{} remove {} on version {} alike={}", step, id, vi, alike));
                match (cx.target("remove", || m.remove(&u, id, alike))?, had) {
                    (Some((nm, e)), Some(h)) => {
                        if !e.same_content(&h) { return cx.viol(format!("remove of key {} reported {}, stored was {}", id, e.brief(), h.brief())); }
                        let mut d = vs[vi].d.clone();
                        d.remove(&id);
                        push_dv(cx, &mut vs, Dv { m: nm, d });
                    }
                    (None, None) => {}
                    (Some(_), None) => return cx.viol(format!("remove of absent key {} succeeded", id)),
                    (None, Some(_)) => return cx.viol(format!("remove of present key {} failed", id)),
                }
            }
            _ => cx.note(|| format!("#{} find {} on version {}", step, id, vi)),
        }
        let last = vs.last().unwrap();
        let mut probe = vec![id];
        for _ in 0..3 { probe.push(cx.rng.below(n) as u32); }
        for p in probe { let f = cx.target("find", || last.m.find_alike(&u, p, alike))?; if !opt_same(f.as_ref(), last.d.get(&p)) { return cx.viol(format!("lookup of key {} gives {}, a dictionary would hold {}", p, show(f.as_ref()), show(last.d.get(&p)))); } }
        if ty.is_set() && last.m.size() != last.d.len() { return cx.viol(format!("size is {}, there are {} members", last.m.size(), last.d.len())); }
    }
    for (i, v) in vs.iter().enumerate() {
        for id in 0..n as u32 { let f = cx.target("find", || v.m.find_alike(&u, id, alike_mix && id % 2 == 0))?; if !opt_same(f.as_ref(), v.d.get(&id)) { return cx.viol(format!("in retained version {}: lookup of key {} gives {}, a dictionary would hold {}", i, id, show(f.as_ref()), show(v.d.get(&id)))); } }
        if ty.is_set() {
            let s = cx.target("visit", || v.m.snap())?;
            let want: Vec<Ent> = v.d.values().cloned().collect();
            if !same_contents(&s, &want) { return cx.viol(format!("in version {}: visit gives {} instead of {}", i, brief(&s), brief(&want))); }
        }
    }
    cx.add("versions", vs.len() as u64);
    if cx.rep.samples.len() < 3 && n <= 6 { let s = format!("cfg {}x{} {} ; {}", bits(), F::max_ones(), u.desc(), cx.trace.iter().skip(2).take(14).cloned().collect::<Vec<_>>().join(" ; ")); cx.rep.samples.push(s); }
    Ok(())
}
fn push_dv(cx: &mut Cx, vs: &mut Vec<Dv>, v: Dv) { if vs.len() > 8 { let i = cx.rng.below(vs.len() - 1); vs.remove(i); } vs.push(v); }

/// One collection of more entries than 16 bits count, or one list of more than 8 bits count, once per program.
pub fn huge(cx: &mut Cx, ty: Ty) -> Res {
    let long = cx.case >= 4;
    let n = if long { cx.rng.range(260, 560) } else { cx.rng.range(66_000, 72_000) };
    let u = Uni::gen_mode(&mut cx.rng, n, bits(), logb(), if long { 1 } else { 0 });
    cx.note(|| format!("{} entries on {:?}", n, ty));
    let mut m = Any::empty(ty);
    for c in 0..(n + 1999) / 2000 {
        m = cx.target("inserting", || { let mut m = m; for id in c * 2000..n.min(c * 2000 + 2000) { match m.insert(&u, id as u32, id as u64, id as u32, 1, false, false) { Ok((x, _, None)) => m = x, _ => return Err(id) } } Ok(m) })?.or_else(|id| cx.viol(format!("the insertion of the new key {} is refused or replaces something", id)))?;
        cx.rep.evals += 1;
        if m.size() != n.min(c * 2000 + 2000) { return cx.viol(format!("the size is {} with {} entries", m.size(), n.min(c * 2000 + 2000))); }
    }
    cx.max("max_entries", n as u64);
    cx.sig(mix3(n as u64, bits() as u64, ty as u64));
    let mut gone = BTreeSet::new();
    for round in 0..3 {
        let ids: Vec<u32> = (0..800).map(|_| cx.rng.below(n) as u32).collect();
        for id in &ids { let f = cx.target("find", || m.find(&u, *id))?; if f.as_ref().map(|e| e.id) != if gone.contains(id) { None } else { Some(*id) } { return cx.viol(format!("find of key {} among {} entries finds {}", id, n - gone.len(), show(f.as_ref()))); } }
        for id in ids.iter().take(300) { let r = cx.target("remove", || m.remove(&u, *id, false))?; if r.is_some() != gone.insert(*id) { return cx.viol(format!("removal of key {} among {} entries is mistaken", id, n - gone.len())); } if let Some(r) = r { m = r.0; } }
        let seen = cx.target("visit", || m.snap())?;
        if m.size() != n - gone.len() || seen.len() != m.size() { return cx.viol(format!("round {}: {} entries are visited and the size is {}, {} are stored", round, seen.len(), m.size(), n - gone.len())); }
        if let Some(w) = seen.windows(2).find(|w| w[0].id >= w[1].id) { return cx.viol(format!("key {} is visited twice", w[0].id)); }
        if let Some(e) = seen.iter().find(|e| gone.contains(&e.id)) { return cx.viol(format!("the removed key {} is visited", e.id)); }
    }
    for k in match ty { Ty::MA => [Kind::T, Kind::TT], Ty::SA => [Kind::ST, Kind::STT], _ => return Ok(()) } {
        let mut s = Spec::gen(&mut cx.rng, k, 1, 5);
        (s.both, s.left, s.right) = (Role::Gen, Role::Gen, Role::Gen);
        let other = { let id = cx.rng.below(n) as u32; cx.prep("insert", || m.insert(&u, id, 1, 2, 3, true, false).ok().map(|x| x.0))?.unwrap_or_else(|| m.clone()) };
        let rec = Rec::new(&s);
        let (o, _) = cx.target("bulk operation", || run_bulk(&s, &rec, &m, &other).unwrap())?;
        let seen = cx.target("visit", || o.snap())?;
        let e = s.expect(&m.snap(), &if k.joint() { other.snap() } else { Vec::new() });
        cx.rep.evals += 1;
        cx.note(|| format!("then {}", s.brief()));
        if o.size() != seen.len() { return cx.viol(format!("after {} {} entries are visited and the size is {}", s.brief(), seen.len(), o.size())); }
        if cx.prop == "C17" { e.check_contents(&seen).map_err(Stop::Viol)?; }
    }
    Ok(())
}

// ------------------------------------------------------------------ version forests: C02, C03, C12, C16
pub struct Fv { m: Any, snap: Vec<Ent>, size: usize, no: usize }
fn obs(cx: &mut Cx, m: Any, no: &mut usize) -> Res<Fv> { let m2 = m.clone(); let (snap, size) = cx.prep("observing a new version", || (m2.snap(), m2.size()))?; *no += 1; Ok(Fv { m, snap, size, no: *no }) }
/// Every key and value alive must be an entry of some version alive.
fn live_set(vs: &[Fv]) -> i64 { let mut s = BTreeSet::new(); for v in vs { let set = v.m.ty().is_set(); for e in &v.snap { s.insert(e.ka); if !set { s.insert(e.va); } } } s.len() as i64 }

pub fn forest(cx: &mut Cx, mode: char) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let live0 = LIVE.load(Relaxed);
    take_bad();
    let r = forest_run(cx, mode, live0);
    disperse();
    let r2 = if let Some(b) = take_bad() { if mode == 'd' || mode == 'i' { Err(Stop::Viol(b)) } else { Err(Stop::Inconcl(b)) } } else { Ok(()) };
    r?; r2?;
    if mode == 'd' {
        let d = LIVE.load(Relaxed) - live0;
        if d != 0 { return cx.viol(format!("after every version was dropped {} keys and values {}", d.abs(), if d > 0 { "are still alive (leaked)" } else { "were dropped too often" })); }
    }
    Ok(())
}
fn forest_run(cx: &mut Cx, mode: char, live0: i64) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let n = if cfg!(miri) { cx.rng.range(2, 6) } else { match cx.rng.below(10) { 0..=5 => cx.rng.range(2, 8), 6..=8 => cx.rng.range(9, 30), _ => cx.rng.range(40, 150) } };
    let u = gen_uni(cx, n);
    let n = u.n();
    let mut vs: Vec<Fv> = Vec::new();
    let mut no = 0;
    let fam: &[Ty] = if cx.rng.chance(1, 3) { &[Ty::SA, Ty::SB] } else if cx.rng.chance(1, 6) { &[Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB, Ty::MC, Ty::SC] } else { &[Ty::MA, Ty::MB, Ty::MAB] };
    for t in fam { vs.push(obs(cx, Any::empty(*t), &mut no)?); }
    let steps = if cfg!(miri) { 14 } else { cx.rng.range(15, 60) };
    let cap = if mode == 'e' { 9 } else { 12 };
    for step in 0..steps {
        cx.rep.evals += 1;
        let vi = cx.rng.below(vs.len());
        let act = if step < 4 { 0 } else { cx.rng.below(20) };
        let mut unchanged_of: Option<usize> = None;
        let mut made: Option<Any> = None;
        if step >= 4 && cx.rng.chance(1, 300) { let m = vs[vi].m.clone(); crowd(cx, &u, &m, mode != 'd')?; }
        {
        let m = vs[vi].m.clone();
        let ids = || vs[vi].snap.iter().map(|e| e.id);
        match act {
            0..=2 => {
                // a burst of inserts, only the last version is kept: keeps some versions rich
                let k = cx.rng.range(1, n.min(20));
                let plan: Vec<(u32, u64, u32, u64, bool)> = (0..k).map(|_| (cx.rng.below(n) as u32, cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next(), cx.rng.chance(1, 3))).collect();
                cx.note(|| format!("#{} v{} inserts {}", step, vs[vi].no, plan.iter().map(|p| format!("{}{}", if p.4 { "=" } else { "+" }, p.0)).collect::<Vec<_>>().join(" ")));
                made = Some(cx.prep("insert", || { let mut m = m; for (id, kt, v, vt, rep) in plan { if let Ok((x, _, _)) = m.insert(&u, id, kt, v, vt, rep, false) { m = x; } } m })?);
                cx.sig(mix3(1, k as u64, vs[vi].snap.len() as u64));
            }
            3..=5 => {
                let id = cx.rng.below(n) as u32;
                let (kt, v, vt, rep) = (cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next(), cx.rng.chance(1, 2));
                cover_key(cx, &u, ids(), id, 40 + rep as u64);
                cx.note(|| format!("#{} v{} insert {} replace={}", step, vs[vi].no, id, rep));
                if let Ok((x, _, _)) = cx.prep("insert", || m.insert(&u, id, kt, v, vt, rep, false))? { made = Some(x); }
            }
            6..=9 => {
                let mut id = cx.rng.below(n) as u32;
                if !vs[vi].snap.is_empty() && cx.rng.chance(3, 4) { id = vs[vi].snap[cx.rng.below(vs[vi].snap.len())].id; }
                cover_key(cx, &u, ids(), id, 50);
                cx.note(|| format!("#{} v{} remove {}", step, vs[vi].no, id));
                if let Some((x, _)) = cx.prep("remove", || m.remove(&u, id, false))? { made = Some(x); }
            }
            10..=16 => {
                let ks: Vec<Kind> = KINDS.iter().copied().filter(|k| vs.iter().any(|v| v.m.ty() == k.left_ty()) && vs.iter().any(|v| v.m.ty() == k.right_ty())).collect();
                if !ks.is_empty() {
                    let k = *cx.rng.pick(&ks);
                    let ls: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].m.ty() == k.left_ty()).collect();
                    let rs: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].m.ty() == k.right_ty()).collect();
                    let (li, ri) = (*cx.rng.pick(&ls), *cx.rng.pick(&rs));
                    let mut s = Spec::gen(&mut cx.rng, k, 1, 6);
                    if mode == 'e' && cx.rng.chance(1, 3) { for w in s.w.iter_mut() { *w = [0, 0, 0, 0, 0]; w[cx.rng.below(3)] = 1; } }
                    if matches!(k, Kind::T | Kind::ST) && !vs[li].snap.is_empty() && vs[li].snap.iter().all(|e| matches!(s.decide(1, e.id), Dec::Keep(_))) { unchanged_of = Some(li); }
                    cx.note(|| format!("#{} v{} v{} {}", step, vs[li].no, vs[ri].no, s.brief()));
                    let (l, r) = (vs[li].m.clone(), vs[ri].m.clone());
                    let mut pairs = BTreeMap::new();
                    let sh = u.pair_sig(&ids_of(&vs[li].snap), &ids_of(&vs[ri].snap), &mut pairs);
                    cx.sig(mix3(k as u64, sh, mix3(s.both_code(0), s.both_code(1), s.both_code(2))));
                    cx.count(&format!("op:{}", k.name()));
                    let rec = Rec::new(&s);
                    made = Some(cx.prep(k.name(), || run_bulk(&s, &rec, &l, &r).unwrap().0)?);
                }
            }
            17 => {
                let ls: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].m.ty() == m.ty()).collect();
                let mut x = m;
                if cx.rng.chance(1, 2) {
                    let o = *cx.rng.pick(&ls);
                    cx.note(|| format!("#{} v{} cloned over a copy of v{}", step, vs[vi].no, vs[o].no));
                    let mut y = vs[o].m.clone();
                    cx.prep("clone_from", || y.assign(&x))?;
                    cx.count("overwritten by a clone");
                    x = y;
                }
                else { cx.note(|| format!("#{} clone v{}", step, vs[vi].no)); }
                if mode == 'i' || mode == 'e' { let s = cx.target("observing a clone", || x.snap())?; if !same_snap(&s, &vs[vi].snap) { return cx.viol(format!("a clone of version {}, which holds {}, holds {}", vs[vi].no, brief(&vs[vi].snap), brief(&s))); } }
                if mode == 'e' && (x.eq(&vs[vi].m) != Some((true, false)) || vs[vi].m.eq(&x) != Some((true, false))) { return cx.viol(format!("version {} does not equal its clone", vs[vi].no)); }
                made = Some(x);
            }
            18 => { cx.note(|| format!("#{} drop v{}", step, vs[vi].no)); drop(m); if vs.len() > 3 { vs.remove(vi); cx.count("drops"); } }
            _ => {
                cx.note(|| format!("#{} print, compare and find in v{}", step, vs[vi].no));
                cx.prep("formatting", || { let _ = each!(&m, m => format!("{:?}", m)).len(); for v in &vs { let _ = m.eq(&v.m); } for id in 0..n as u32 { let _ = m.find(&u, id); } })?;
            }
        }
        }
        if let Some(x) = made {
            let fv = obs(cx, x, &mut no)?;
            cx.count("versions");
            if mode == 's' {
                let (m, snap) = (&fv.m, &fv.snap);
                if !unique_ids(snap) { return cx.viol(format!("visit yields a key more than once: {}", brief(snap))); }
                let found: Vec<Option<Ent>> = cx.prep("lookups", || (0..n as u32).map(|id| m.find(&u, id)).collect())?;
                let cnt = found.iter().filter(|f| f.is_some()).count();
                if m.size() != cnt { return cx.viol(format!("size is {} but lookup finds {} distinct keys", m.size(), cnt)); }
                if snap.len() != cnt { return cx.viol(format!("visit called the operation {} times but lookup finds {} distinct keys", snap.len(), cnt)); }
                for e in snap { match found.get(e.id as usize).and_then(|f| f.as_ref()) {
                    None => return cx.viol(format!("visit yields key {} which lookup does not find", e.id)),
                    Some(f) => if !(f.same_content(e) && f.same_place(e)) { return cx.viol(format!("visit yields {} for key {}, lookup gives {}{}", e.brief(), e.id, f.brief(), if f.same_content(e) { " elsewhere" } else { "" })); } } }
                cx.add("entries_compared", cnt as u64);
            }
            if mode == 'e' {
                if let Some(o) = unchanged_of { if fv.m.eq(&vs[o].m) != Some((true, false)) { return cx.viol(format!("a transform that left every entry of version {} unchanged returned a version that does not equal it", vs[o].no)); } cx.count("unchanged_transforms"); }
            }
            if vs.len() >= cap { let i = cx.rng.below(vs.len()); vs.remove(i); cx.count("drops"); }
            vs.push(fv);
        }
        match mode {
            'i' => for v in &vs {
                let (s, z) = cx.target("observing a retained version", || (v.m.snap(), v.m.size()))?;
                if !same_snap(&s, &v.snap) { return cx.viol(format!("version {} held {} when it was made and now holds {}{}", v.no, brief(&v.snap), brief(&s), if same_contents(&s, &v.snap) { " (entries moved)" } else { "" })); }
                if z != v.size { return cx.viol(format!("version {} had size {} when it was made and now has {}", v.no, v.size, z)); }
                cx.count("reobservations");
            },
            'd' => { disperse(); let live = LIVE.load(Relaxed) - live0; let held = live_set(&vs); if live != held { return cx.viol(format!("after step {}: {} keys and values are alive, the {} versions alive hold {}", step, live, vs.len(), held)); } cx.count("live_balances"); }
            'e' => equality(cx, &vs)?,
            _ => {}
        }
    }
    if mode == 'i' {
        for v in &vs { cx.target("lookups in a retained version", || -> Res {
            let by: BTreeMap<u32, &Ent> = v.snap.iter().map(|e| (e.id, e)).collect();
            for id in 0..n as u32 { let f = v.m.find(&u, id); match (by.get(&id), f) { (None, None) => {}, (Some(e), Some(f)) if e.same_content(&f) && e.same_place(&f) => {}, (_, f) => return Err(Stop::Viol(format!("version {}: lookup of key {} gives {} but the version was made with {}", v.no, id, show(f.as_ref()), show(by.get(&id).copied())))) } }
            Ok(())
        })??; }
        // drop in random order, looking at the survivors each time
        while vs.len() > 1 { let i = cx.rng.below(vs.len()); vs.remove(i); let v = &vs[cx.rng.below(vs.len())]; let s = cx.target("observing a retained version", || v.m.snap())?; if !same_snap(&s, &v.snap) { return cx.viol(format!("version {} changed when another version was dropped: {} became {}", v.no, brief(&v.snap), brief(&s))); } cx.count("reobservations"); }
    }
    if mode == 'd' {
        while vs.len() > 0 { let i = cx.rng.below(vs.len()); vs.remove(i); let live = LIVE.load(Relaxed) - live0; let held = live_set(&vs); if live != held { return cx.viol(format!("after dropping a version: {} keys and values are alive, the {} versions left hold {}", live, vs.len(), held)); } cx.count("live_balances"); }
    }
    if cx.rep.samples.len() < 3 && n <= 8 { let s = format!("cfg {}x{} mode {} n={} ; {}", bits(), F::max_ones(), u.mode, n, cx.trace.iter().skip(1).take(14).cloned().collect::<Vec<_>>().join(" ; ")); cx.rep.samples.push(s); }
    Ok(())
}
fn equality(cx: &mut Cx, vs: &[Fv]) -> Res {
    let k = vs.len();
    let mut eqm = vec![vec![None; k]; k];
    for i in 0..k { for j in 0..k {
        let r = cx.prep("comparing", || vs[i].m.eq(&vs[j].m))?;
        if let Some((eq, ne)) = r {
            cx.count("comparisons");
            if eq == ne { return cx.viol(format!("== and != agree on versions {} and {}", vs[i].no, vs[j].no)); }
            if i == j && !eq { return cx.viol(format!("version {} does not equal itself", vs[i].no)); }
            if i == j { let c = vs[i].m.clone(); if c.eq(&vs[i].m) != Some((true, false)) || vs[i].m.eq(&c) != Some((true, false)) { return cx.viol(format!("version {} does not equal its clone", vs[i].no)); } }
            if eq && !same_contents(&vs[i].snap, &vs[j].snap) { return cx.viol(format!("versions {} and {} compare equal but hold {} and {}", vs[i].no, vs[j].no, brief(&vs[i].snap), brief(&vs[j].snap))); }
            if eq && i != j { cx.count("equal_pairs"); }
            eqm[i][j] = Some(eq);
        }
    } }
    for i in 0..k { for j in 0..k {
        if eqm[i][j] != eqm[j][i] { return cx.viol(format!("equality of versions {} and {} is not symmetric", vs[i].no, vs[j].no)); }
        if eqm[i][j] == Some(true) { for l in 0..k { if eqm[j][l] == Some(true) && eqm[i][l] != Some(true) { return cx.viol(format!("equality is not transitive over versions {}, {}, {}", vs[i].no, vs[j].no, vs[l].no)); } } }
    } }
    Ok(())
}

// ------------------------------------------------------------------ C14: what returned references and pointers denote
pub fn pointers(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng).min(120);
    let u = gen_uni(cx, n);
    let n = u.n();
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::MA, Ty::SA, Ty::SA, Ty::MAB]);
    let ids = subset(cx, &u);
    let mut m = gen_input(cx, &u, ty, &ids)?;
    let steps = if cfg!(miri) { 8 } else { cx.rng.range(5, 40) };
    for step in 0..steps {
        let id = cx.rng.below(n) as u32;
        let parent = m.clone();
        let psnap = cx.prep("visit", || parent.snap())?;
        let stored = psnap.iter().find(|e| e.id == id).cloned();
        let alike = cx.rng.chance(1, 4);
        let f = cx.prep("find", || parent.find_alike(&u, id, alike))?;
        match (&f, &stored) { (Some(f), Some(s)) => if !(f.same_place(s) && f.same_content(s)) { return cx.viol(format!("find of key {} refers to {} which is not the stored entry {}{}", id, f.brief(), s.brief(), if f.same_content(s) { " but a copy elsewhere" } else { "" })); }, (None, None) => {}, _ => return Err(Stop::Inconcl("find and visit disagree".into())) }
        cover_key(cx, &u, psnap.iter().map(|e| e.id), id, ty as u64);
        cx.rep.evals += 1;
        if cx.rng.chance(2, 3) {
            let (kt, v, vt, rep) = (cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next(), cx.rng.chance(1, 2));
            let new = ent(ty, id, kt, v, vt);
            cx.note(|| format!("#{} insert {} replace={} alike={} into {}", step, new.brief(), rep, alike, if psnap.len() < 12 { brief(&psnap) } else { format!("{} entries", psnap.len()) }));
            // reads through the returned pointers: a dangling one may crash, which counts
            let r = cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || parent.insert(&u, id, kt, v, vt, rep, alike));
            let r = match r { Ok(r) => r, Err(_) => return Err(Stop::Inconcl("insert failed".into())) };
            match r {
                Ok((nm, p, prev)) => {
                    let nsnap = cx.prep("visit", || nm.snap())?;
                    let nf = cx.prep("find", || nm.find(&u, id))?;
                    let at = nsnap.iter().find(|e| e.id == id);
                    let (at, nf) = match (at, nf) { (Some(a), Some(f)) => (a, f), _ => return Err(Stop::Inconcl("inserted key not found".into())) };
                    if !p.same_place(at) || !p.same_place(&nf) { return cx.viol(format!("insert of key {} returned pointers to {:x}/{:x}, the stored entry is at {:x}/{:x} (visit) {:x}/{:x} (find)", id, p.ka, p.va, at.ka, at.va, nf.ka, nf.va)); }
                    if !p.same_content(&new) { return cx.viol(format!("the pointers insert returned denote {}, inserted was {}", p.brief(), new.brief())); }
                    match (&prev, &stored) { (Some(a), Some(b)) => if !(a.same_place(b) && a.same_content(b)) { return cx.viol(format!("insert of key {} returned a reference to {} as the old entry; the old entry is {}{}", id, a.brief(), b.brief(), if a.same_content(b) { " elsewhere" } else { "" })); }, (None, None) => {},
                        (Some(a), None) => return cx.viol(format!("insert of absent key {} returned {} as the old entry", id, a.brief())), (None, Some(_)) => return cx.viol(format!("replacing insert of key {} returned no reference to the old entry", id)) }
                    m = nm;
                }
                Err(e) => match &stored { Some(s) => if !(e.same_place(s) && e.same_content(s)) { return cx.viol(format!("refused insert of key {} refers to {}{}, stored is {}", id, e.brief(), if e.same_content(s) { " elsewhere" } else { "" }, s.brief())); }, None => return Err(Stop::Inconcl("insert of an absent key refused".into())) },
            }
        } else {
            cx.note(|| format!("#{} remove {}", step, id));
            let r = cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || parent.remove(&u, id, alike));
            match (match r { Ok(r) => r, Err(_) => return Err(Stop::Inconcl("remove failed".into())) }, &stored) {
                (Some((nm, e)), Some(s)) => { if !(e.same_place(s) && e.same_content(s)) { return cx.viol(format!("remove of key {} returned a reference to {}{}, stored was {}", id, e.brief(), if e.same_content(s) { " elsewhere" } else { "" }, s.brief())); } m = nm; }
                (None, None) => {}
                _ => return Err(Stop::Inconcl("remove disagrees with visit".into())),
            }
        }
        if let Some(b) = take_bad() { return cx.viol(b); }
    }
    if cx.rep.samples.len() < 3 && n <= 8 { let s = format!("cfg {}x{} mode {} ; {}", bits(), F::max_ones(), u.mode, cx.trace.iter().skip(1).take(10).cloned().collect::<Vec<_>>().join(" ; ")); cx.rep.samples.push(s); }
    Ok(())
}

// ------------------------------------------------------------------ C15: sharing
pub fn sharing_single(cx: &mut Cx) -> Res {
    let n = gen_n(&mut cx.rng).min(500);
    let u = gen_uni(cx, n);
    let n = u.n();
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::SA, Ty::MB]);
    let ids = subset(cx, &u);
    let mut m = gen_input(cx, &u, ty, &ids)?;
    let steps = if cfg!(miri) { 6 } else { cx.rng.range(5, 25) };
    for step in 0..steps {
        let id = cx.rng.below(n) as u32;
        if cx.rng.chance(1, 60) { crowd(cx, &u, &m, true)?; }
        let parent = m.clone();
        let psnap = cx.prep("visit", || parent.snap())?;
        cover_key(cx, &u, psnap.iter().map(|e| e.id), id, ty as u64);
        cx.rep.evals += 1;
        let (act, kt, v, vt) = (cx.rng.below(5), cx.rng.next(), cx.rng.below(1000) as u32, cx.rng.next());
        cx.note(|| format!("#{} {} {}", step, ["insert", "insert", "replace", "remove", "remove"][act], id));
        let c0 = counts();
        let r = cx.prep("single-key operation", || if act < 3 { parent.insert(&u, id, kt, v, vt, act == 2, false).ok().map(|(m, _, _)| m) } else { parent.remove(&u, id, false).map(|(m, _)| m) })?;
        let c = counts().since(c0);
        let group = u.group(id, psnap.iter().map(|e| e.id)) as u64;
        if c.kclones > group + 1 || c.vclones > group + 1 { return cx.viol(format!("an operation on key {} whose hash {} stored entries have copied {} keys and {} values", id, group, c.kclones, c.vclones)); }
        cx.add("copies_seen", c.kclones + c.vclones);
        if let Some(nm) = r {
            let nsnap = cx.prep("visit", || nm.snap())?;
            let by: BTreeMap<u32, &Ent> = nsnap.iter().map(|e| (e.id, e)).collect();
            for e in &psnap {
                if u.eff(e.id) == u.eff(id) { continue; }
                match by.get(&e.id) { Some(x) if x.same_place(e) => cx.count("entries_in_place"), Some(_) => return cx.viol(format!("an operation on key {} moved or copied the entry of key {}, whose hash differs", id, e.id)), None => return Err(Stop::Inconcl("entry lost".into())) }
            }
            m = nm;
        } else if c.kclones + c.vclones > 0 { return cx.viol(format!("an operation on key {} that changed nothing copied {} keys and {} values", id, c.kclones, c.vclones)); }
    }
    if cx.rep.samples.len() < 2 && n <= 8 { let s = format!("cfg {}x{} mode {} ; {}", bits(), F::max_ones(), u.mode, cx.trace.iter().skip(1).take(10).cloned().collect::<Vec<_>>().join(" ; ")); cx.rep.samples.push(s); }
    Ok(())
}
pub fn sharing_bulk(cx: &mut Cx) -> Res {
    let k = *cx.rng.pick(&[Kind::T, Kind::TT, Kind::TT, Kind::TM, Kind::TMF, Kind::MT, Kind::MTF, Kind::ST, Kind::STT, Kind::STM, Kind::SMT]);
    let i = bulk_input(cx, k)?;
    let mut cnt: BTreeMap<u128, BTreeSet<u32>> = BTreeMap::new();
    for e in i.sl.iter().chain(&i.sr) { cnt.entry(i.u.eff(e.id)).or_default().insert(e.id); }
    for _ in 0..3 {
        let s = spec_for(cx, &i, k, 1, 5);
        let e = s.expect(&i.sl, &i.sr);
        let o = bulk_run(cx, &i, &s, false)?;
        cx.rep.evals += 1;
        bulk_cover(cx, &i, &s, &e);
        let set = k.is_set();
        let m = e.check_places(&o.snap, &|id| cnt[&i.u.eff(id)].len() > 1).map_err(Stop::Viol)?;
        let _ = set;
        cx.add("entries_in_place", m as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C22: work
pub fn work(cx: &mut Cx) -> Res {
    let lim = if cx.tier == "thorough" { 6000 } else { 2500 };
    let n = match cx.rng.below(10) { 0..=4 => cx.rng.range(1, 12), 5..=7 => cx.rng.range(13, 150), _ => cx.rng.range(300, lim) };
    let u = gen_uni(cx, n);
    let n = u.n();
    // beware of quadratic building: long collision lists stay moderate
    let mut biggest: BTreeMap<u128, usize> = BTreeMap::new();
    for id in 0..n as u32 { *biggest.entry(u.eff(id)).or_insert(0) += 1; }
    let g = *biggest.values().max().unwrap_or(&0);
    let n = if g > 200 { 200 } else { n };
    let levels = ((bits() + logb() - 1) / logb()) as u64;
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::SA]);
    let mut m = Any::empty(ty);
    let mut model: BTreeMap<u32, ()> = BTreeMap::new();
    let mut groups: BTreeMap<u128, u64> = BTreeMap::new();
    let mut gmax = 0u64;
    let mut ids: Vec<u32> = (0..n as u32).collect(); cx.rng.shuffle(&mut ids);
    let single = |cx: &mut Cx, what: &str, c: Counts, gr: u64, id: u32| -> Res {
        cx.rep.evals += 1;
        cx.max("max_equalities", c.eqs); cx.max("max_hashes", c.hashes); cx.max("max_copies", c.kclones + c.vclones);
        let b = 8 + 4 * gr;
        if c.eqs > b || c.hashes > b || c.kclones + c.vclones > 2 * b { return cx.viol(format!("{} of key {} (largest group of equal hashes: {} entries) took {} key comparisons, {} hashings, {} key and {} value copies", what, id, gr, c.eqs, c.hashes, c.kclones, c.vclones)); }
        if c.allocs > 16 + 6 * levels + 8 * gr { return cx.viol(format!("{} of key {} (largest group of equal hashes: {} entries) took {} allocations", what, id, gr, c.allocs)); }
        Ok(())
    };
    cx.note(|| format!("build {} keys in order {:?}", n, &ids[..ids.len().min(60)]));
    for id in ids.iter().copied() {
        let gr = gmax;
        let c0 = counts();
        let r = cx.target("insert", || m.insert(&u, id, 1, 1, 1, false, false))?;
        let c = counts().since(c0);
        single(cx, "insert", c, gr, id)?;
        if let Ok((x, _, _)) = r { m = x; }
        model.insert(id, ()); { let e = groups.entry(u.eff(id)).or_insert(0); *e += 1; gmax = gmax.max(*e); }
        if model.len() % 16 == 1 { cover_key(cx, &u, model.keys().copied(), id, n.min(64) as u64); }
    }
    for _ in 0..(n / 4).clamp(6, 60) {
        let id = cx.rng.below(n) as u32;
        let gr = gmax;
        let c0 = counts(); let _ = cx.target("find", || m.find(&u, id))?; single(cx, "find", counts().since(c0), gr, id)?;
        match cx.rng.below(3) {
            0 => { let c0 = counts(); let r = cx.target("remove", || m.remove(&u, id, false))?; single(cx, "remove", counts().since(c0), gr, id)?; if let Some((x, _)) = r { m = x; if model.remove(&id).is_some() { *groups.get_mut(&u.eff(id)).unwrap() -= 1; } } }
            w => { let c0 = counts(); let r = cx.target("insert", || m.insert(&u, id, 2, 2, 2, w == 1, false))?; single(cx, "insert", counts().since(c0), gr, id)?; if let Ok((x, _, _)) = r { m = x; if model.insert(id, ()).is_none() { let e = groups.entry(u.eff(id)).or_insert(0); *e += 1; gmax = gmax.max(*e); } } }
        }
    }
    // linear work of visiting and of bulk operations
    let c0 = counts(); let sn = cx.target("visit", || m.snap())?; let c = counts().since(c0);
    if c.eqs + c.hashes + c.kclones + c.vclones > sn.len() as u64 { return cx.viol(format!("visiting {} entries took {} comparisons, {} hashings, {} copies", sn.len(), c.eqs, c.hashes, c.kclones + c.vclones)); }
    let k = loop { let k = *cx.rng.pick(&KINDS); if k.left_ty() == ty { break k; } };
    let rt = k.right_ty();
    let keep = cx.rng.range(1, 4);
    let rids: Vec<u32> = (0..n as u32).filter(|_| cx.rng.chance(keep, 4)).collect();
    let r = if k.joint() { if rt == ty && cx.rng.chance(1, 3) { m.clone() } else { cx.target("building", || { let mut r = Any::empty(rt); for id in &rids { if let Ok((x, _, _)) = r.insert(&u, *id, 3, 3, 3, false, false) { r = x; } } r })? } } else { m.clone() };
    let (sl, sr) = (m.snap(), if k.joint() { r.snap() } else { Vec::new() });
    let mut gl: BTreeMap<u128, u64> = BTreeMap::new(); let mut gr: BTreeMap<u128, u64> = BTreeMap::new();
    for e in &sl { *gl.entry(u.eff(e.id)).or_insert(0) += 1; } for e in &sr { *gr.entry(u.eff(e.id)).or_insert(0) += 1; }
    let cross: u64 = gl.iter().map(|(h, a)| { let b = gr.get(h).copied().unwrap_or(0); a * b + if a + b > 1 { (a + b) * (a + b) } else { 0 } }).sum::<u64>() + gr.values().map(|b| if *b > 1 { b * b } else { 0 }).sum::<u64>();
    let tot = (sl.len() + sr.len()) as u64;
    for _ in 0..2 {
        let mut s = Spec::gen(&mut cx.rng, k, 1, 4);
        s.record = false;
        cx.note(|| s.brief());
        let rec = Rec::new(&s);
        let c0 = counts();
        let x = cx.target(k.name(), || run_bulk(&s, &rec, &m, &r).unwrap().0)?;
        let c = counts().since(c0);
        cx.rep.evals += 1;
        let w = c.eqs + c.hashes + c.kclones + c.vclones + c.reduces;
        let b = 32 + 12 * tot + 3 * cross;
        cx.max("max_bulk_work_per_entry_x100", if tot > 20 && cross == 0 { 100 * w / tot } else { 0 });
        if w > b || c.calls > tot + 4 { return cx.viol(format!("{} on {} and {} entries took {} comparisons, {} hashings, {} copies, {} reductions, {} calls", k.name(), sl.len(), sr.len(), c.eqs, c.hashes, c.kclones + c.vclones, c.reduces, c.calls)); }
        // nodes: one per branch on each entry's path at most
        if c.allocs > 64 + (tot + cross) * (levels + 8) * 2 { return cx.viol(format!("{} on {} and {} entries took {} allocations", k.name(), sl.len(), sr.len(), c.allocs)); }
        cx.sig(mix3(k as u64, (tot / 16).min(200), mix3(s.both_code(0), s.both_code(1), s.both_code(2))));
        let _ = x;
    }
    if cx.rep.samples.len() < 3 { let s = format!("cfg {}x{} mode {} n={} largest group {} {}", bits(), F::max_ones(), u.mode, n, g, cx.trace.last().cloned().unwrap_or_default()); cx.rep.samples.push(s); }
    Ok(())
}

// ------------------------------------------------------------------ C19: panics in user code
pub fn faults(cx: &mut Cx) -> Res {
    use std::sync::atomic::Ordering::Relaxed;
    let n = if cfg!(miri) { cx.rng.range(1, 5) } else { match cx.rng.below(8) { 0..=5 => cx.rng.range(1, 9), _ => cx.rng.range(10, 30) } };
    let u = gen_uni(cx, n);
    let n = u.n();
    let live_start = LIVE.load(Relaxed);
    take_bad();
    {
        let what = cx.rng.below(10);
        let k = *cx.rng.pick(&KINDS);
        let s = Spec::gen(&mut cx.rng, k, 1, 8);
        let (lt, rt) = if what < 4 { let t = *cx.rng.pick(&[Ty::MA, Ty::SA]); (t, t) } else { (k.left_ty(), k.right_ty()) };
        let li = subset(cx, &u); let ri = subset(cx, &u);
        let l = gen_input(cx, &u, lt, &li)?;
        let r = gen_input(cx, &u, rt, &ri)?;
        let (sl, sr, zl, zr) = (l.snap(), r.snap(), l.size(), r.size());
        let id = cx.rng.below(n) as u32;
        let (kt, v, vt, rep, alike) = (cx.rng.next(), 7, cx.rng.next(), cx.rng.chance(1, 2), cx.rng.chance(1, 4));
        let name = match what { 0 => "insert", 1 => "insert (2)", 2 => "remove", 3 => "find", _ => k.name() };
        cx.note(|| format!("{} key {} replace={} on {} / {} ; {}", name, id, rep, brief(&sl), brief(&sr), s.brief()));
        let op = || -> (Option<Any>, Vec<Ent>) { match what {
            0 | 1 => match l.insert(&u, id, kt, v, vt, rep, alike) { Ok((m, e, _)) => (Some(m), vec![e]), Err(e) => (None, vec![e]) },
            2 => match l.remove(&u, id, alike) { Some((m, e)) => (Some(m), vec![e]), None => (None, vec![]) },
            3 => (None, l.find(&u, id).into_iter().collect()),
            _ => { let mut s2 = s.clone(); s2.record = false; let rec = Rec::new(&s2); (Some(run_bulk(&s2, &rec, &l, &r).unwrap().0), vec![]) }
        } };
        let live0 = LIVE.load(Relaxed);
        let s0 = STEPS.load(Relaxed);
        let base = cx.prep(name, || op().0.map(|m| m.snap()))?;
        let steps = (STEPS.load(Relaxed) - s0) as i64;
        if LIVE.load(Relaxed) != live0 || take_bad().is_some() { return Err(Stop::Inconcl("the operation itself is unbalanced".into())); }
        cx.max("max_fault_points", steps as u64);
        let all: Vec<i64> = if steps <= 400 { (1..=steps).collect() } else { (0..400).map(|i| 1 + i * steps / 400).collect() };
        if steps > 400 { cx.count("sampled_fault_points_only"); } else { cx.count("calls_with_every_fault_point"); }
        for i in all {
            FUSE.store(i, Relaxed);
            let res = cx.run(b'T', STEP_BUDGET, BYTE_BUDGET, || op().0.map(|m| m.snap()));
            FUSE.store(i64::MAX, Relaxed);
            cx.rep.evals += 1;
            match res {
                Err(Fail::Injected) => cx.count("panics_injected"),
                Err(Fail::Panic(m)) => { if m.starts_with("injected") { cx.count("panics_injected") } else { cx.count("other_panics") } }
                Err(Fail::Budget) => return Err(Stop::Inconcl("budget".into())),
                Ok(_) => cx.count("fault_not_reached"),
            }
            cx.sig(mix3(what as u64 * 64 + k as u64, mix2(i as u64, steps as u64), mix2(sl.len() as u64, sr.len() as u64)));
            let w = || format!("after a panic in call {} of {} into user code during {}", i, steps, name);
            if let Some(b) = take_bad() { return cx.viol(format!("{}: {}", w(), b)); }
            let d = LIVE.load(Relaxed) - live0;
            if d != 0 { return cx.viol(format!("{}: {} keys and values {}", w(), d.abs(), if d > 0 { "leaked" } else { "were dropped too often" })); }
            let (a, b, za, zb) = cx.target("observing an existing version", || (l.snap(), r.snap(), l.size(), r.size()))?;
            if !same_snap(&a, &sl) || za != zl { return cx.viol(format!("{}: the version it was called on changed from {} to {}", w(), brief(&sl), brief(&a))); }
            if !same_snap(&b, &sr) || zb != zr { return cx.viol(format!("{}: the other version changed from {} to {}", w(), brief(&sr), brief(&b))); }
        }
        // still fully usable
        let again = cx.target(name, || op().0.map(|m| m.snap()))?;
        let strip = |v: &Option<Vec<Ent>>| v.as_ref().map(|v| v.iter().map(|e| (e.id, e.ktag, e.val, e.vtag)).collect::<Vec<_>>());
        if strip(&base) != strip(&again) { return cx.viol(format!("after the panics {} gives a different result than before", name)); }
        for m in [&l, &r] { let s = m.snap(); cx.target("lookups after the panics", || check_finds(&u, m, &s, "after the panics"))??; }
        cx.count(&format!("op:{}", name));
        if cx.rep.samples.len() < 3 && steps > 3 && sl.len() < 8 { let t = format!("{} fault points: {} | {}", steps, cx.trace.last().cloned().unwrap_or_default(), u.desc()); cx.rep.samples.push(t); }
    }
    disperse();
    let d = LIVE.load(Relaxed) - live_start;
    if d != 0 { return cx.viol(format!("after dropping everything {} keys and values {}", d.abs(), if d > 0 { "are alive" } else { "were dropped too often" })); }
    if let Some(b) = take_bad() { return cx.viol(b); }
    Ok(())
}
