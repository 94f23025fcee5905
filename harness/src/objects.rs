//! C25: operation objects answer and flip as their functions do.
use hash_trie::{results::*, transformations::*};
use hmon::cx::*;
use hmon::support::*;

type K = u32; type V = u64; type L = i64; type W = u16; type R2 = u64;

/// Normal form of an answer: variant, payload, secondary value.
type A = (char, u64, u64);
fn mj(r: MapJointTransformResult<V, R2>) -> A { match r { MapJointTransformResult::UnchangedLR(r) => ('=', 0, r), MapJointTransformResult::UnchangedL(r) => ('L', 0, r), MapJointTransformResult::UnchangedR(r) => ('R', 0, r), MapJointTransformResult::Transformed(v, r) => ('T', v, r), MapJointTransformResult::Removed(r) => ('-', 0, r) } }
fn sj(r: SetJointTransformResult<R2>) -> A { match r { SetJointTransformResult::UnchangedLR(r) => ('=', 0, r), SetJointTransformResult::UnchangedL(r) => ('L', 0, r), SetJointTransformResult::UnchangedR(r) => ('R', 0, r), SetJointTransformResult::Removed(r) => ('-', 0, r) } }
fn mt<X: Into<u64>>(r: MapTransformResult<X, R2>) -> A { match r { MapTransformResult::Unchanged(r) => ('=', 0, r), MapTransformResult::Transformed(v, r) => ('T', v.into(), r), MapTransformResult::Removed(r) => ('-', 0, r) } }
fn st(r: SetTransformResult<R2>) -> A { match r { SetTransformResult::Unchanged(r) => ('=', 0, r), SetTransformResult::Removed(r) => ('-', 0, r) } }
fn mm(r: MapTransmuteResult<u64, u64, R2>) -> A { match r { MapTransmuteResult::Transmuted(k, v, r) => ('X', mix2(k, v), r), MapTransmuteResult::Removed(r) => ('-', 0, r) } }
fn sm(r: SetTransmuteResult<u64, R2>) -> A { match r { SetTransmuteResult::Transmuted(k, r) => ('X', k, r), SetTransmuteResult::Removed(r) => ('-', 0, r) } }
fn swap(a: A) -> A { (match a.0 { 'L' => 'R', 'R' => 'L', c => c }, a.1, a.2) }

fn fmj(s: u64) -> impl Fn(&K, &V, &K, &V) -> MapJointTransformResult<V, R2> + Clone { move |k, v, l, w| { let h = mix3(s, mix2(*k as u64, *v), mix2(*l as u64 + 1, *w)); match h % 5 { 0 => MapJointTransformResult::UnchangedLR(h), 1 => MapJointTransformResult::UnchangedL(h), 2 => MapJointTransformResult::UnchangedR(h), 3 => MapJointTransformResult::Transformed(mix(h), h), _ => MapJointTransformResult::Removed(h) } } }
fn fsj(s: u64) -> impl Fn(&K, &K) -> SetJointTransformResult<R2> + Clone { move |k, l| { let h = mix3(s, *k as u64, *l as u64 + 1); match h % 4 { 0 => SetJointTransformResult::UnchangedLR(h), 1 => SetJointTransformResult::UnchangedL(h), 2 => SetJointTransformResult::UnchangedR(h), _ => SetJointTransformResult::Removed(h) } } }
fn h4(s: u64, k: &K, v: &V, l: &L, w: &W) -> u64 { mix3(s, mix2(*k as u64, *v), mix2(*l as u64, *w as u64)) }

pub fn objects(cx: &mut Cx) -> Res {
    let mut rng = cx.rng.clone();
    cx.note(|| "random functions, constants and arguments on every operation object".into());
    let (n, sig, sample) = cx.target("an operation object", || one(&mut rng))?.map_err(Stop::Viol)?;
    cx.rep.evals += n; for s in sig { cx.sig(s); }
    if cx.rep.samples.len() < 3 { cx.rep.samples.push(sample); }
    Ok(())
}
fn one(r: &mut Rng) -> Result<(u64, Vec<u64>, String), String> {
    let s = r.next(); let c = r.next();
    let (k, v, l, w) = (r.next() as u32 % 50, r.next() % 50, r.next() as i64 % 50, r.next() as u16 % 50);
    let (k2, v2) = (r.next() as u32 % 50, r.next() % 50);
    let mut n = 0u64; let mut sig = Vec::new();
    let mut ck = |what: &str, got: A, want: A| -> Result<(), String> { n += 1; let mut h = 0; for b in what.bytes() { h = mix2(h, b as u64); } sig.push(mix3(h, got.0 as u64, s)); if got == want { Ok(()) } else { Err(format!("{} answers {:?}, expected {:?} (arguments {} {} {} {}, other side {} {})", what, got, want, k, v, l, w, k2, v2)) } };

    // joint transforms of maps
    let f = fmj(s);
    let direct = mj(f(&k, &v, &k2, &v2));
    let g = new_map_joint_transform_generic(f.clone());
    ck("map joint generic call", mj(g.call(&k, &v, &k2, &v2)), direct)?;
    ck("map joint generic flipped", mj(g.flip().call(&k2, &v2, &k, &v)), swap(direct))?;
    ck("map joint generic flipped twice", mj(g.flip().flip().call(&k, &v, &k2, &v2)), direct)?;
    ck("map joint generic flipped thrice", mj(g.flip().flip().flip().call(&k2, &v2, &k, &v)), swap(direct))?;
    ck("map joint generic built directly", mj(MapJointTransform::Generic(f.clone(), true).call(&k, &v, &k2, &v2)), swap(mj(f(&k2, &v2, &k, &v))))?;
    ck("map joint clone", mj(g.flip().clone().call(&k2, &v2, &k, &v)), swap(direct))?;
    for (name, o, want) in [("map joint unchangedlr", new_map_joint_transform_unchangedlr::<K, V, R2>(c), '='), ("map joint unchangedl", new_map_joint_transform_unchangedl(c), 'L'), ("map joint unchangedr", new_map_joint_transform_unchangedr(c), 'R'), ("map joint removed", new_map_joint_transform_removed(c), '-')] {
        ck(name, mj(o.call(&k, &v, &k2, &v2)), (want, 0, c))?;
        ck(&format!("{} flipped", name), mj(o.flip().call(&k2, &v2, &k, &v)), swap((want, 0, c)))?;
        ck(&format!("{} flipped twice", name), mj(o.flip().flip().call(&k, &v, &k2, &v2)), (want, 0, c))?;
    }
    // joint transforms of sets
    let f = fsj(s);
    let direct = sj(f(&k, &k2));
    let g = new_set_joint_transform_generic(f.clone());
    ck("set joint generic call", sj(g.call(&k, &k2)), direct)?;
    ck("set joint generic flipped", sj(g.flip().call(&k2, &k)), swap(direct))?;
    ck("set joint generic flipped twice", sj(g.flip().flip().call(&k, &k2)), direct)?;
    ck("set joint generic built directly", sj(SetJointTransform::Generic(f.clone(), true).call(&k, &k2)), swap(sj(f(&k2, &k))))?;
    for (name, o, want) in [("set joint unchangedlr", new_set_joint_transform_unchangedlr::<K, R2>(c), '='), ("set joint unchangedl", new_set_joint_transform_unchangedl(c), 'L'), ("set joint unchangedr", new_set_joint_transform_unchangedr(c), 'R'), ("set joint removed", new_set_joint_transform_removed(c), '-')] {
        ck(name, sj(o.call(&k, &k2)), (want, 0, c))?;
        ck(&format!("{} flipped", name), sj(o.flip().call(&k2, &k)), swap((want, 0, c)))?;
        ck(&format!("{} flipped twice", name), sj(o.flip().flip().call(&k, &k2)), (want, 0, c))?;
    }
    // a set's answer as a map's
    ck("set answer as a map's", mj(MapJointTransformResult::<V, R2>::from(f(&k, &k2))), direct)?;
    for (a, b) in [(SetTransformResult::Unchanged(c), '='), (SetTransformResult::Removed(c), '-')] { ck("set answer on one entry as a map's", mt(MapTransformResult::<V, R2>::from(a)), (b, 0, c))?; }
    // map transforms
    let f1 = move |k: &K, v: &V| { let h = mix3(s, *k as u64, *v); match h % 3 { 0 => MapTransformResult::Unchanged(h), 1 => MapTransformResult::Transformed(mix(h), h), _ => MapTransformResult::Removed(h) } };
    ck("map transform generic", mt(new_map_transform_generic(f1).call(&k, &v)), mt(f1(&k, &v)))?;
    ck("map transform unchanged", mt(new_map_transform_unchanged::<K, V, R2>(c).call(&k, &v)), ('=', 0, c))?;
    ck("map transform removed", mt(new_map_transform_removed::<K, V, R2>(c).call(&k, &v)), ('-', 0, c))?;
    let f2 = move |k: &K, v: &V, l: &L, w: &W| { let h = h4(s, k, v, l, w); match h % 3 { 0 => MapTransformResult::Unchanged(h), 1 => MapTransformResult::Transformed(mix(h), h), _ => MapTransformResult::<V, R2>::Removed(h) } };
    let d2 = mt(f2(&k, &v, &l, &w));
    let o = new_map_transform_transmute_generic(f2);
    ck("map transform/transmute generic", mt(o.call_transform_transmute(&k, &v, &l, &w)), d2)?;
    let of = o.flip_transform_transmute();
    ck("map transform/transmute flipped", mt(of.call_transmute_transform(&l, &w, &k, &v)), d2)?;
    ck("map transform/transmute flipped twice", mt(of.flip_transmute_transform().call_transform_transmute(&k, &v, &l, &w)), d2)?;
    let f3 = move |k: &K, v: &V, l: &L, w: &W| { let h = h4(s ^ 1, k, v, l, w); match h % 3 { 0 => MapTransformResult::Unchanged(h), 1 => MapTransformResult::Transformed(mix(h) as u16, h), _ => MapTransformResult::<W, R2>::Removed(h) } };
    let d3 = mt(f3(&k, &v, &l, &w));
    let o = new_map_transmute_transform_generic(f3);
    ck("map transmute/transform generic", mt(o.call_transmute_transform(&k, &v, &l, &w)), d3)?;
    let of = o.flip_transmute_transform();
    ck("map transmute/transform flipped", mt(of.call_transform_transmute(&l, &w, &k, &v)), d3)?;
    ck("map transmute/transform flipped twice", mt(of.flip_transform_transmute().call_transmute_transform(&k, &v, &l, &w)), d3)?;
    for (name, o, want) in [("map transform/transmute unchanged", new_map_transform_transmute_unchanged::<K, V, L, W, R2>(c), '='), ("map transform/transmute removed", new_map_transform_transmute_removed(c), '-')] {
        ck(name, mt(o.call_transform_transmute(&k, &v, &l, &w)), (want, 0, c))?;
        ck(&format!("{} flipped", name), mt(o.flip_transform_transmute().call_transmute_transform(&l, &w, &k, &v)), (want, 0, c))?;
    }
    for (name, o, want) in [("map transmute/transform unchanged", new_map_transmute_transform_unchanged::<K, V, L, W, R2>(c), '='), ("map transmute/transform removed", new_map_transmute_transform_removed(c), '-')] {
        ck(name, mt(o.call_transmute_transform(&k, &v, &l, &w)), (want, 0, c))?;
        ck(&format!("{} flipped", name), mt(o.flip_transmute_transform().call_transform_transmute(&l, &w, &k, &v)), (want, 0, c))?;
    }
    // set transforms
    let f4 = move |k: &K| { let h = mix2(s, *k as u64); if h % 2 == 0 { SetTransformResult::Unchanged(h) } else { SetTransformResult::Removed(h) } };
    ck("set transform generic", st(new_set_transform_generic(f4).call(&k)), st(f4(&k)))?;
    ck("set transform unchanged", st(new_set_transform_unchanged::<K, R2>(c).call(&k)), ('=', 0, c))?;
    ck("set transform removed", st(new_set_transform_removed::<K, R2>(c).call(&k)), ('-', 0, c))?;
    let f5 = move |k: &K, l: &L| { let h = mix3(s, *k as u64, *l as u64); if h % 2 == 0 { SetTransformResult::Unchanged(h) } else { SetTransformResult::Removed(h) } };
    let o = new_set_transform_transmute_generic(f5);
    ck("set transform/transmute generic", st(o.call_transmute(&k, &l)), st(f5(&k, &l)))?;
    ck("set transform/transmute flipped", st(o.flip_transmute().call_transmute(&l, &k)), st(f5(&k, &l)))?;
    ck("set transform/transmute flipped twice", st(o.flip_transmute().flip_transmute().call_transmute(&k, &l)), st(f5(&k, &l)))?;
    for (name, o, want) in [("set transform/transmute unchanged", new_set_transform_transmute_unchanged::<K, L, R2>(c), '='), ("set transform/transmute removed", new_set_transform_transmute_removed(c), '-')] {
        ck(name, st(o.call_transmute(&k, &l)), (want, 0, c))?;
        ck(&format!("{} flipped", name), st(o.flip_transmute().call_transmute(&l, &k)), (want, 0, c))?;
    }
    // transmutes
    let f6 = move |k: &K, v: &V| { let h = mix3(s, *k as u64, *v); if h % 2 == 0 { MapTransmuteResult::Transmuted(mix(h), mix(h ^ 5), h) } else { MapTransmuteResult::Removed(h) } };
    ck("map transmute generic", mm(new_map_transmute_generic(f6).call(&k, &v)), mm(f6(&k, &v)))?;
    ck("map transmute removed", mm(new_map_transmute_removed::<K, V, u64, u64, R2>(c).call(&k, &v)), ('-', 0, c))?;
    let f7 = move |k: &K, v: &V, l: &L, w: &W| { let h = h4(s, k, v, l, w); if h % 2 == 0 { MapTransmuteResult::Transmuted(mix(h), mix(h ^ 5), h) } else { MapTransmuteResult::Removed(h) } };
    let o = new_map_transmute_transmute_generic(f7);
    ck("map transmute/transmute generic", mm(o.call_transmute(&k, &v, &l, &w)), mm(f7(&k, &v, &l, &w)))?;
    let of = o.flip();
    ck("map transmute/transmute flipped", mm(of.call_transmute(&l, &w, &k, &v)), mm(f7(&k, &v, &l, &w)))?;
    ck("map transmute/transmute flipped twice", mm(of.flip().call_transmute(&k, &v, &l, &w)), mm(f7(&k, &v, &l, &w)))?;
    let o = new_map_transmute_transmute_removed::<K, V, L, W, u64, u64, R2>(c);
    ck("map transmute/transmute removed", mm(o.call_transmute(&k, &v, &l, &w)), ('-', 0, c))?;
    ck("map transmute/transmute removed flipped", mm(o.flip().call_transmute(&l, &w, &k, &v)), ('-', 0, c))?;
    let f8 = move |k: &K| { let h = mix2(s, *k as u64); if h % 2 == 0 { SetTransmuteResult::Transmuted(mix(h), h) } else { SetTransmuteResult::Removed(h) } };
    ck("set transmute generic", sm(new_set_transmute_generic(f8).call(&k)), sm(f8(&k)))?;
    ck("set transmute removed", sm(new_set_transmute_removed::<K, u64, R2>(c).call(&k)), ('-', 0, c))?;
    let f9 = move |k: &K, l: &L| { let h = mix3(s, *k as u64, *l as u64); if h % 2 == 0 { SetTransmuteResult::Transmuted(mix(h), h) } else { SetTransmuteResult::Removed(h) } };
    let o = new_set_transmute_transmute_generic(f9);
    ck("set transmute/transmute generic", sm(o.call_transmute(&k, &l)), sm(f9(&k, &l)))?;
    let of = o.flip();
    ck("set transmute/transmute flipped", sm(of.call_transmute(&l, &k)), sm(f9(&k, &l)))?;
    ck("set transmute/transmute flipped twice", sm(of.flip().call_transmute(&k, &l)), sm(f9(&k, &l)))?;
    let o = new_set_transmute_transmute_removed::<K, L, u64, R2>(c);
    ck("set transmute/transmute removed", sm(o.call_transmute(&k, &l)), ('-', 0, c))?;
    ck("set transmute/transmute removed flipped", sm(o.flip().call_transmute(&l, &k)), ('-', 0, c))?;
    let sample = format!("function seed {:x}, constant {:x}, arguments ({} {}) ({} {}) ({} {})", s, c, k, v, l, w, k2, v2);
    Ok((n, sig, sample))
}
