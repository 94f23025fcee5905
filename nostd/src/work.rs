// Random histories of maps and sets of one configuration, against ordered dictionaries. Included once per configuration,
// with H, F, the hasher X and `support` (what all configurations share) in scope.
use alloc::{collections::{BTreeMap, BTreeSet}, format, string::String, vec::Vec};
use core::cell::RefCell;
use hash_trie::{results::*, transformations::*, *};
use super::support::{block_on, key, mix, K, Rng, Stats};

type V = String;
type M = HashTrieMap<H, F, K, V, X>;
type S = HashTrieSet<H, F, K, X>;
type D = BTreeMap<K, V>;

/// What visit says, in its order, folded into the digest.
fn seen(m: &M, g: &mut u64) -> Vec<(K, V)> { let c = RefCell::new(Vec::new()); m.visit(|k, v| c.borrow_mut().push((k.clone(), v.clone()))); let mut v = c.into_inner(); for (k, v) in &v { fold(g, &k.name); fold(g, v); } v.sort(); v }
fn fold(g: &mut u64, s: &str) { for b in s.bytes() { *g = (*g ^ b as u64).wrapping_mul(0x100000001b3); } *g = mix(*g); }
fn check(what: &str, m: &M, d: &D, g: &mut u64) -> Result<(), String> {
    let s = seen(m, g);
    if s.len() != d.len() || s.iter().zip(d).any(|(a, b)| &a.0 != b.0 || &a.1 != b.1) { return Err(format!("{}: the map holds {:?}, expected {:?}", what, s, d)); }
    if m.size() != d.len() { return Err(format!("{}: size {} for {} entries", what, m.size(), d.len())); }
    for (k, v) in d { if m.find(k).ok().map(|e| e.1) != Some(v) { return Err(format!("{}: {:?} is not found", what, k)); } }
    Ok(())
}
fn check_set(what: &str, m: &S, d: &BTreeSet<K>, g: &mut u64) -> Result<(), String> {
    let c = RefCell::new(Vec::new()); m.visit(|k| c.borrow_mut().push(k.clone())); let mut s = c.into_inner(); for k in &s { fold(g, &k.name); } s.sort();
    if s.len() != d.len() || !s.iter().eq(d.iter()) { return Err(format!("{}: the set holds {:?}, expected {:?}", what, s, d)); }
    if m.size() != d.len() { return Err(format!("{}: size {} for {} members", what, m.size(), d.len())); }
    for k in d { if m.find(k).is_err() { return Err(format!("{}: {:?} is not found", what, k)); } }
    Ok(())
}
fn sum(a: &u64, b: &u64) -> u64 { a.wrapping_add(*b) }

/// Runs one history; its digest tells what was observed.
pub fn case(seed: u64, brief: bool, st: &mut Stats) -> Result<u64, String> {
    let mut r = Rng(seed);
    let mut digest = 0u64; let g = &mut digest;
    let n = 1 + if r.below(6) == 0 { r.below(300) } else { r.below(24) };
    let u = r.below(10);
    let mut pool: Vec<(M, D)> = Vec::new();
    pool.push((M::new(), D::new()));
    for step in 0..if brief { 4 + r.below(8) } else { 12 + r.below(30) } {
        st.steps += 1;
        let i = r.below(pool.len() as u64) as usize;
        let (mut m, mut d) = (pool[i].0.clone(), pool[i].1.clone());
        let k = key(u, seed, r.below(n));
        if r.below(8) == 0 && !brief { for _ in 0..r.below(40) { let k = key(u, seed, r.below(n)); m = match m.insert(k.clone(), String::from("many"), true) { Ok(x) => x.0, Err(_) => return Err("insert: refused without cause".into()) }; d.insert(k, "many".into()); } }
        let par = [ParallelismStrategy::Sequential, ParallelismStrategy::MiddleIndex][r.below(2) as usize];
        let (what, m) = match r.below(9) {
            0..=3 => {
                let (v, replace) = (format!("v{}", step), r.below(3) > 0);
                ("insert", match m.insert(k.clone(), v.clone(), replace) {
                    Ok((x, _, _, old)) => { if old.map(|e| e.1.clone()) != d.get(&k).cloned() || old.is_some() && !replace { return Err("insert: not the replaced entry".into()); } d.insert(k, v); x }
                    Err((_, old)) => { if replace || d.get(&k) != Some(old) { return Err("insert: refused without cause".into()); } m.clone() }
                })
            }
            4 => ("remove", match m.remove(&k) { Ok((x, _, v)) => { if d.remove(&k).as_ref() != Some(v) { return Err("remove: another entry was removed".into()); } x } Err(_) => { if d.contains_key(&k) { return Err("remove: a stored key is not found".into()); } m.clone() } }),
            5 => { // the maps' operations on one side
                st.bulk += 1;
                let s = r.next();
                let ask = |k: &K| mix(s ^ k.name.len() as u64 ^ k.class ^ k.name.as_bytes()[k.name.len() - 1] as u64) % 3;
                let new = |k: &K| format!("{}*{}", k.name, s % 97);
                let red = d.keys().fold(0u64, |a, k| a.wrapping_add(k.class ^ 5));
                let (x, y) = if r.below(2) == 0 {
                    block_on(m.transform(sum, new_map_transform_generic(|k: &K, _: &V| { let t = k.class ^ 5; match ask(k) { 0 => MapTransformResult::Unchanged(t), 1 => MapTransformResult::Transformed(new(k), t), _ => MapTransformResult::Removed(t) } }), par))?
                } else {
                    unsafe { m.transmute(sum, new_map_transmute_generic(|k: &K, v: &V| { let t = k.class ^ 5; match ask(k) { 0 => MapTransmuteResult::Transmuted(k.clone(), v.clone(), t), 1 => MapTransmuteResult::Transmuted(k.clone(), new(k), t), _ => MapTransmuteResult::Removed(t) } })) }
                };
                *g = mix(*g ^ y);
                if y != red { return Err("transform: another reduction".into()); }
                d = d.into_iter().filter_map(|(k, v)| match ask(&k) { 0 => Some((k, v)), 1 => { let v = new(&k); Some((k, v)) } _ => None }).collect();
                ("transform or transmute", x)
            }
            6 => { // two maps
                st.bulk += 1;
                let j = r.below(pool.len() as u64) as usize;
                let (o, e) = (&pool[j].0, &pool[j].1);
                let s = r.next();
                let ask = |role: u64, k: &K| mix(s ^ role << 50 ^ k.class ^ (k.name.len() as u64) << 9 ^ k.name.as_bytes()[k.name.len() - 1] as u64) % 4;
                let new = |k: &K| format!("{}+{}", k.name, s % 97);
                let tok = |role: u64, k: &K| mix(role ^ k.class);
                let one = |role: u64, k: &K| { let t = tok(role, k); match ask(role, k) { 0 | 1 => MapTransformResult::Unchanged(t), 2 => MapTransformResult::Transformed(new(k), t), _ => MapTransformResult::Removed(t) } };
                let away = |role: u64, k: &K| { let t = tok(role, k); match ask(role, k) { 0 => MapTransmuteResult::Removed(t), _ => MapTransmuteResult::Transmuted(k.clone(), new(k), t) } };
                let which = r.below(4);
                let (x, y) = match which {
                    0 => block_on(m.transform_with_transformed(o, sum, new_map_joint_transform_generic(|k: &K, _: &V, _: &K, _: &V| { let t = tok(0, k); match ask(0, k) { 0 => MapJointTransformResult::UnchangedL(t), 1 => MapJointTransformResult::UnchangedR(t), 2 => MapJointTransformResult::Transformed(new(k), t), _ => MapJointTransformResult::Removed(t) } }), new_map_transform_generic(|k: &K, _: &V| one(1, k)), new_map_transform_generic(|k: &K, _: &V| one(2, k)), par))?,
                    1 => block_on(unsafe { m.transform_with_transmuted(o, sum, new_map_transform_transmute_generic(|k: &K, _: &V, _: &K, _: &V| one(0, k)), new_map_transform_generic(|k: &K, _: &V| one(1, k)), new_map_transmute_generic(|k: &K, _: &V| away(2, k)), par) })?,
                    2 => block_on(unsafe { m.transmute_with_transformed(o, sum, new_map_transmute_transform_generic(|k: &K, _: &V, _: &K, _: &V| one(0, k)), new_map_transmute_generic(|k: &K, _: &V| away(1, k)), new_map_transform_generic(|k: &K, _: &V| one(2, k)), par) })?,
                    _ => unsafe { m.transmute_with_transmuted(o, sum, new_map_transmute_transmute_generic(|k: &K, _: &V, _: &K, _: &V| away(0, k)), new_map_transmute_generic(|k: &K, _: &V| away(1, k)), new_map_transmute_generic(|k: &K, _: &V| away(2, k))) },
                };
                let mut red = 0u64;
                let mut out = D::new();
                for k in d.keys().chain(e.keys().filter(|k| !d.contains_key(*k))) {
                    let (a, b) = (d.get(k), e.get(k));
                    let role = match (a, b) { (Some(_), Some(_)) => 0, (Some(_), None) => 1, _ => 2 };
                    red = red.wrapping_add(tok(role, k));
                    let muted = matches!((which, role), (1, 2) | (2, 1) | (3, _));
                    let v = if muted { if ask(role, k) == 0 { None } else { Some(new(k)) } }
                        else { match (ask(role, k), role) { (3, _) => None, (2, _) => Some(new(k)), (1, 0) if which == 0 => b.cloned(), (_, 0) if which == 2 => b.cloned(), (_, 2) => b.cloned(), _ => a.cloned() } };
                    if let Some(v) = v { out.insert(k.clone(), v); }
                }
                *g = mix(*g ^ y);
                if y != red { return Err(format!("joint operation {}: another reduction", which)); }
                d = out;
                ("joint operation", x)
            }
            7 => { // sets
                st.bulk += 1;
                let j = r.below(pool.len() as u64) as usize;
                let of = |d: &D| -> (S, BTreeSet<K>) { (d.keys().fold(S::new(), |s, k| match s.insert(k.clone(), true) { Ok(x) => x.0, Err(_) => S::new() }), d.keys().cloned().collect()) };
                let ((a, ad), (b, bd)) = (of(&d), of(&pool[j].1));
                check_set("building a set", &a, &ad, g)?;
                let keep = |s: bool| move |_: &K| if s { SetTransformResult::Unchanged(1u64) } else { SetTransformResult::Removed(1) };
                let (both, left, right) = (r.below(2) == 0, r.below(2) == 0, r.below(2) == 0);
                let (x, y) = block_on(a.transform_with_transformed(&b, sum, new_set_joint_transform_generic(move |_: &K, _: &K| if both { SetJointTransformResult::UnchangedLR(1u64) } else { SetJointTransformResult::Removed(1) }), new_set_transform_generic(keep(left)), new_set_transform_generic(keep(right)), par))?;
                if y != ad.union(&bd).count() as u64 { return Err("joint operation of sets: another reduction".into()); }
                check_set("joint operation of sets", &x, &ad.union(&bd).filter(|k| match (ad.contains(*k), bd.contains(*k)) { (true, true) => both, (true, _) => left, _ => right }).cloned().collect(), g)?;
                let t = unsafe { a.transmute(sum, new_set_transmute_generic(|k: &K| SetTransmuteResult::Transmuted(k.clone(), 1u64))) };
                check_set("transmute of a set", &t.0, &ad, g)?;
                match a.remove(&k) { Ok((x, _)) => { let mut e = ad.clone(); e.remove(&k); check_set("removal from a set", &x, &e, g)?; } Err(_) => if ad.contains(&k) { return Err("removal from a set: a member is not found".into()); } }
                ("sets", m)
            }
            _ => { let t = format!("{:?}", m); if d.keys().any(|k| !t.contains(&format!("{:?}", k))) { return Err("Debug: an entry is missing".into()); } if !(m == m.clone()) { return Err("a map does not equal itself".into()); } ("Debug", m) }
        };
        check(what, &m, &d, g)?;
        st.entries += d.len() as u64;
        let sh = mix(d.len() as u64 ^ (d.keys().map(|k| k.class).collect::<BTreeSet<_>>().len() as u64) << 8 ^ (what.len() as u64) << 16);
        st.shapes[(sh >> 6 & 1023) as usize] |= 1 << (sh & 63);
        if pool.len() < 6 { pool.push((m, d)); } else { let x = r.below(6) as usize; pool[x] = (m, d); }
    }
    for (m, d) in &pool { check("an older version", m, d, g)?; }
    Ok(digest)
}
