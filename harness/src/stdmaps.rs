//! C20 with ordinary key types, std hashers and the documented kind of look-alike key, against std's collections.
use hash_trie::{traits::*, DefaultHashTrieMap, DefaultHashTrieSet, HashTrieMap, HashTrieSet};
use hmon::cx::*;
use hmon::support::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

macro_rules! alike { ($a:ident, $own:ty, $hash:expr, $eq:expr, $into:expr) => {
    #[derive(Clone, Debug, Default)]
    pub struct $a(pub $own);
    impl PartialEq for $a { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl Eq for $a {}
    impl Hash for $a { fn hash<S: Hasher>(&self, s: &mut S) { let f: fn(&$own, &mut S) = $hash; f(&self.0, s) } }
    impl From<$a> for $own { fn from(a: $a) -> $own { a.0 } }
    impl PartialEq<$a> for $own { fn eq(&self, o: &$a) -> bool { *self == o.0 } }
    impl HashLike<$own> for $a {}
    impl HashLike<$a> for $own {}
} }
alike!(Int, i32, |a, s| a.hash(s), |a, b| a == b, |a| a.0);
alike!(Big, u64, |a, s| a.hash(s), |a, b| a == b, |a| a.0);
alike!(Pair, (u8, i64), |a, s| a.hash(s), |a, b| a == b, |a| a.0);
/// A borrowed string standing for an owned one, as in the documentation.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub struct Str { s: &'static str }
impl From<Str> for String { fn from(s: Str) -> String { s.s.into() } }
impl PartialEq<Str> for String { fn eq(&self, o: &Str) -> bool { *self == o.s } }
impl HashLike<String> for Str {}
impl HashLike<Str> for String {}

const WORDS: [&str; 40] = ["", "a", "b", "aa", "ab", "ba", "Hello,", "world!", "0", "1", "key", "Key", "KEY", "x", "y", "z", "xy", "yz", "zx", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "\u{e9}t\u{e9}", "\u{1f600}", "a longer key than the others", "trie", "hash", "set", "map", "node", "leaf", "root", "twig"];

macro_rules! history { ($name:ident, $map:ty, $set:ty, $k:ty, $alike:ty, $gen:expr, $mkalike:expr) => {
    fn $name(cx: &mut Cx) -> Res {
        let gen: fn(u64) -> $k = $gen;
        let mka: fn(u64) -> $alike = $mkalike;
        let n = cx.rng.range(1, 40);
        let off = if cx.rng.chance(1, 3) { cx.rng.next() } else { 0 };
        let steps = cx.rng.range(10, 120);
        let mut m = if cx.rng.chance(1, 2) { <$map>::new() } else { <$map>::default() };
        let mut s = if cx.rng.chance(1, 2) { <$set>::new() } else { <$set>::default() };
        let mut dm: HashMap<$k, u32> = HashMap::new();
        let mut ds: HashSet<$k> = HashSet::new();
        let who = concat!(stringify!($map), " with look-alike ", stringify!($alike));
        cx.note(|| format!("{} n={} off={:#x}", who, n, off));
        for step in 0..steps {
            let x = off.wrapping_add(cx.rng.below(n) as u64);
            let k = gen(x);
            let al = cx.rng.chance(1, 2);
            let (v, rep) = (cx.rng.below(1000) as u32, cx.rng.chance(1, 2));
            let act = cx.rng.below(10);
            cx.rep.evals += 1;
            cx.sig(mix3(who.len() as u64 * 16 + act as u64, al as u64 * 4 + rep as u64 * 2 + dm.contains_key(&k) as u64, mix2(dm.len() as u64, stringify!($name).len() as u64)));
            cx.note(|| format!("#{} {} {:?} as {} replace={}", step, ["insert", "insert", "insert", "insert", "remove", "remove", "remove", "find", "find", "find"][act], k, if al { "look-alike" } else { "own type" }, rep));
            let fail = |what: String| -> Res { Err(Stop::Viol(format!("{}: {} of {:?} given as {}: {}", who, ["insert", "insert", "insert", "insert", "remove", "remove", "remove", "find", "find", "find"][act], k, if al { "a look-alike" } else { "its own type" }, what))) };
            match act {
                0..=3 => {
                    let r = cx.target("insert", || { let r = if al { m.insert(mka(x), v, rep) } else { m.insert(gen(x), v, rep) }; match r { Ok((nm, kp, vp, p)) => { let here = unsafe { ((*kp).clone(), *vp) }; let p = p.map(|(k, v)| (k.clone(), *v)); Ok((nm, here, p)) } Err((k, v)) => Err((k.clone(), *v)) } })?;
                    match r {
                        Ok((nm, here, p)) => {
                            if dm.contains_key(&k) && !rep { return fail("accepted although present".into()); }
                            if p != dm.get(&k).map(|v| (k.clone(), *v)) { return fail(format!("reports {:?} as the old entry, it was {:?}", p, dm.get(&k))); }
                            if here != (k.clone(), v) { return fail(format!("returned pointers denote {:?}", here)); }
                            m = nm; dm.insert(k.clone(), v);
                        }
                        Err(e) => { if rep || dm.get(&k) != Some(&e.1) || e.0 != k { return fail(format!("refused with {:?}, stored is {:?}", e, dm.get(&k))); } }
                    }
                    let r = cx.target("insert into the set", || { let r = if al { s.insert(mka(x), rep) } else { s.insert(gen(x), rep) }; r.map(|(ns, kp, p)| { let here = unsafe { (*kp).clone() }; (here == gen(x), p.cloned(), ns) }).map_err(|k| k.clone()) })?;
                    match r {
                        Ok((here, p, ns)) => { if !here || (ds.contains(&k) && !rep) || p.is_some() != ds.contains(&k) || p.map_or(false, |p| p != k) { return fail("the set reports the insertion wrongly".into()); } s = ns; ds.insert(k.clone()); }
                        Err(e) => if rep || !ds.contains(&k) || e != k { return fail("the set refuses wrongly".into()); }
                    }
                }
                4..=6 => {
                    let r = cx.target("remove", || { let r = if al { m.remove(&mka(x)) } else { m.remove(&gen(x)) }; r.ok().map(|(nm, k, v)| { let e = (k.clone(), *v); (nm, e) }) })?;
                    match (r, dm.remove(&k)) { (Some((nm, e)), Some(v)) => { if e != (k.clone(), v) { return fail(format!("reports {:?}, stored was {}", e, v)); } m = nm; } (None, None) => {}, (r, o) => return fail(format!("{} although {}", if r.is_some() { "succeeds" } else { "fails" }, if o.is_some() { "present" } else { "absent" })) }
                    let r = cx.target("remove from the set", || { let r = if al { s.remove(&mka(x)) } else { s.remove(&gen(x)) }; r.ok().map(|(ns, k)| { let k = k.clone(); (ns, k) }) })?;
                    match (r, ds.remove(&k)) { (Some((ns, e)), true) => { if e != k { return fail(format!("the set reports {:?}", e)); } s = ns; } (None, false) => {}, _ => return fail("the set reports presence wrongly".into()) }
                }
                _ => {
                    for al in [false, true] {
                        let r = cx.target("find", || if al { m.find(&mka(x)).ok().map(|(k, v)| (k.clone(), *v)) } else { m.find(&gen(x)).ok().map(|(k, v)| (k.clone(), *v)) })?;
                        if r != dm.get(&k).map(|v| (k.clone(), *v)) { return fail(format!("{} lookup gives {:?}, stored is {:?}", if al { "look-alike" } else { "own" }, r, dm.get(&k))); }
                        let r = cx.target("find in the set", || if al { s.find(&mka(x)).ok().cloned() } else { s.find(&gen(x)).ok().cloned() })?;
                        if r != ds.get(&k).cloned() { return fail(format!("{} lookup in the set gives {:?}, stored is {:?}", if al { "look-alike" } else { "own" }, r, ds.get(&k))); }
                    }
                }
            }
        }
        for x in 0..n as u64 { let x = off.wrapping_add(x); let (a, b) = cx.target("find", || (m.find(&gen(x)).ok().map(|(_, v)| *v), m.find(&mka(x)).ok().map(|(_, v)| *v)))?; let w = dm.get(&gen(x)).copied(); if a != w || b != w { return cx.viol(format!("{}: key {:?} is bound to {:?} by its own type, {:?} by a look-alike; a dictionary holds {:?}", who, gen(x), a, b, w)); } }
        let got = std::sync::Mutex::new(Vec::new());
        cx.target("visit", || m.visit(|k, v| got.lock().unwrap().push((k.clone(), *v))))?;
        let mut got = got.into_inner().unwrap(); got.sort();
        let mut want: Vec<_> = dm.iter().map(|(k, v)| (k.clone(), *v)).collect(); want.sort();
        if got != want || m.size() != want.len() { return cx.viol(format!("{}: visit gives {:?} (size {}), a dictionary holds {:?}", who, got, m.size(), want)); }
        if s.size() != ds.len() { return cx.viol(format!("{}: the set's size is {}, it has {} members", who, s.size(), ds.len())); }
        cx.count(stringify!($name));
        if cx.rep.samples.len() < 3 { let t = format!("{} n={} {}", who, n, cx.trace.iter().skip(1).take(8).cloned().collect::<Vec<_>>().join(" ; ")); cx.rep.samples.push(t); }
        Ok(())
    }
} }
type Fx = fnv::FnvHasher;
history!(ints, DefaultHashTrieMap<i32, u32>, DefaultHashTrieSet<i32>, i32, Int, |x| x as i32, |x| Int(x as i32));
history!(strings, DefaultHashTrieMap<String, u32>, DefaultHashTrieSet<String>, String, Str, |x| WORDS[(x % 40) as usize].to_string(), |x| Str { s: WORDS[(x % 40) as usize] });
history!(strings8, HashTrieMap<u8, u8, String, u32, Fx>, HashTrieSet<u8, u8, String, Fx>, String, Str, |x| WORDS[(x % 40) as usize].to_string(), |x| Str { s: WORDS[(x % 40) as usize] });
history!(bigs16, HashTrieMap<u16, u16, u64, u32, Fx>, HashTrieSet<u16, u16, u64, Fx>, u64, Big, |x| x, |x| Big(x));
history!(pairs32, HashTrieMap<u32, u64, (u8, i64), u32, Fx>, HashTrieSet<u32, u64, (u8, i64), Fx>, (u8, i64), Pair, |x| (x as u8, (x / 7) as i64 - 2), |x| Pair((x as u8, (x / 7) as i64 - 2)));
pub fn stdmaps(cx: &mut Cx) -> Res { match cx.rng.below(5) { 0 => ints(cx), 1 => strings(cx), 2 => strings8(cx), 3 => bigs16(cx), _ => pairs32(cx) } }
