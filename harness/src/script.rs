// Included per configuration: a deterministic script whose observable outcomes do not depend on the configuration.

/// Outcome digests only.
pub fn script(u: &Uni, seed: u64, len: usize, base: &[Any], ktags: bool, say: impl FnMut(String)) -> Vec<u64> { script_pool(u, seed, len, base, ktags, say).0 }
/// Runs `len` operations over pools seeded with `base`; one digest per step. `ktags`: include which of two equal keys is stored.
pub fn script_pool(u: &Uni, seed: u64, len: usize, base: &[Any], ktags: bool, mut say: impl FnMut(String)) -> (Vec<u64>, Vec<Any>) {
    let mut rng = Rng::new(seed);
    let mut pool: Vec<Any> = base.to_vec();
    let n = u.n();
    let mut out = Vec::with_capacity(len);
    let dig = |e: &Ent| mix3(e.id as u64, e.val as u64, mix2(e.vtag, if ktags { e.ktag } else { 0 }));
    let digs = |v: &[Ent]| v.iter().fold(v.len() as u64, |a, e| mix2(a, dig(e)));
    for step in 0..len {
        let vi = rng.below(pool.len());
        let id = rng.below(n) as u32;
        let m = pool[vi].clone();
        let act = rng.below(16);
        let mut made = None;
        let d = match act {
            0..=4 => {
                let k = if rng.chance(1, 4) { rng.range(1, n + 1) } else { rng.range(1, 8) };
                let mut m = m; let mut d = 0;
                for _ in 0..k { let (id, kt, v, vt, rep) = (rng.below(n) as u32, rng.next(), rng.below(1000) as u32, rng.next(), rng.chance(1, 3));
                    match m.insert(u, id, kt, v, vt, rep, false) { Ok((x, e, p)) => { d = mix3(d, dig(&e), p.as_ref().map_or(0, |p| dig(p))); m = x; } Err(e) => d = mix3(d, 9, dig(&e)) } }
                say(format!("#{} v{} {} inserts -> {:x}", step, vi, k, d));
                made = Some(m); d
            }
            5 if n > 10 && step % 2 == 0 => {
                let k = rng.range(1, n / 3);
                let mut m = m; let mut d = 0;
                for _ in 0..k { let id = rng.below(n) as u32; if let Some((x, e)) = m.remove(u, id, false) { d = mix2(d, dig(&e)); m = x; } }
                say(format!("#{} v{} {} removals -> {:x}", step, vi, k, d));
                made = Some(m); d
            }
            5..=7 => { let r = m.remove(u, id, false); let d = match r { Some((x, e)) => { made = Some(x); mix2(5, dig(&e)) } None => 1 }; say(format!("#{} v{} remove {} -> {:x}", step, vi, id, d)); d }
            8 | 9 => { let mut d = m.size() as u64; for id in 0..n as u32 { if let Some(e) = m.find(u, id) { d = mix2(d, dig(&e)); } } say(format!("#{} v{} find all, size {} -> {:x}", step, vi, m.size(), d)); d }
            _ => {
                let k = *rng.pick(&KINDS);
                let mut s = Spec::gen(&mut rng, k, 1, 6);
                for w in s.w.iter_mut() { w[2] = 0; if w.iter().all(|x| *x == 0) { w[0] = 1; } }
                if s.both == Role::Const(Dec::Keep(Side::LR)) { s.both = Role::Const(Dec::Keep(Side::L)); }
                if k == Kind::STT { s.w[0][3] = 0; if s.w[0].iter().all(|x| *x == 0) { s.w[0][0] = 1; } }
                if ktags && k == Kind::TT { s.w[0][3] = 0; if s.w[0].iter().all(|x| *x == 0) { s.w[0][1] = 1; } }
                s.record = false;
                let ls: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].ty() == k.left_ty()).collect();
                let rs: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].ty() == k.right_ty()).collect();
                if ls.is_empty() || rs.is_empty() { 0 } else {
                    let (li, ri) = (*rng.pick(&ls), *rng.pick(&rs));
                    let rec = Rec::new(&s);
                    let (x, red) = run_bulk(&s, &rec, &pool[li], &pool[ri]).unwrap();
                    let d = mix3(red.sum, red.sq, red.n);
                    say(format!("#{} v{} v{} {} -> reduction of {}", step, li, ri, s.brief(), red.n));
                    made = Some(x); d
                }
            }
        };
        let mut d = mix2(d, act as u64);
        if let Some(x) = made {
            let s = x.snap();
            d = mix3(d, x.size() as u64, digs(&s));
            if s.len() < 40 { say(format!("     {} ({})", brief(&s), x.size())); }
            if pool.len() > base.len() + 8 { let i = base.len() + rng.below(8); pool.remove(i); }
            pool.push(x);
        }
        out.push(d);
    }
    (out, pool)
}
