//! C32: keys and values of every size, alignment and kind, against a dictionary.
use hash_trie::{results::*, traits::*, transformations::*, HashTrieMap, HashTrieSet, ParallelismStrategy};
use hmon::cx::*;
use hmon::support::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::num::{NonZeroU64, NonZeroU8};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// A type with at least `N` values, numbered; `num` reads the number back and fails on anything that is no such value.
pub trait Pat: Clone + Debug + Send + Sync + 'static { const N: u64; fn make(x: u64) -> Self; fn num(&self) -> Option<u64>; }
macro_rules! pat { ($t:ty, $n:expr, |$x:ident| $make:expr, |$s:ident| $num:expr) => { impl Pat for $t { const N: u64 = $n; fn make($x: u64) -> Self { $make } fn num(&self) -> Option<u64> { let $s = self; $num } } } }
const MANY: u64 = 1 << 20;
fn upto(x: u64, n: u64) -> Option<u64> { if x < n { Some(x) } else { None } }
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Nil;
#[derive(Clone, Debug)] #[repr(align(16))] pub struct A16(u32);
#[derive(Clone, Debug)] #[repr(align(64))] pub struct A64(u64, u8);
#[derive(Clone, Debug)] #[repr(align(128))] pub struct A128([u64; 20]);
#[derive(Clone, Debug)] #[repr(align(4096))] pub struct Page(u8);
#[derive(Clone, Debug)] pub enum Sum { A(u8), B(Box<u64>), C { x: [u16; 5] }, D }
#[derive(Clone, Debug)] #[repr(C, packed)] pub struct Packed { a: u8, b: [u8; 4] }
pat!((), 1, |_x| (), |_s| Some(0));
pat!(Nil, 1, |_x| Nil, |_s| Some(0));
pat!(bool, 2, |x| x == 1, |s| Some(*s as u64));
pat!(u8, 256, |x| x as u8, |s| Some(*s as u64));
pat!(u64, MANY, |x| x * 0x9e37_79b9, |s| if s % 0x9e37_79b9 == 0 { upto(s / 0x9e37_79b9, MANY) } else { None });
pat!(u128, MANY, |x| (x as u128) << 90 | 5, |s| if s & ((1 << 90) - 1) == 5 { Some((s >> 90) as u64) } else { None });
pat!(f64, MANY, |x| x as f64 + 0.5, |s| if s.fract() == 0.5 { upto(s.trunc() as u64, MANY) } else { None });
pat!(char, 0xd000, |x| char::from_u32(x as u32).unwrap(), |s| upto(*s as u64, 0xd000));
pat!(NonZeroU64, MANY, |x| NonZeroU64::new(x + 1).unwrap(), |s| upto(s.get() - 1, MANY));
pat!(Option<NonZeroU8>, 256, |x| NonZeroU8::new(x as u8), |s| Some(s.map_or(0, |v| v.get() as u64)));
pat!([u8; 33], MANY, |x| { let mut a = [x as u8; 33]; a[..8].copy_from_slice(&x.to_le_bytes()); a }, |s| { let x = u64::from_le_bytes(s[..8].try_into().unwrap()); if s[8..].iter().all(|b| *b == x as u8) { Some(x) } else { None } });
pat!([u8; 4096], MANY, |x| { let mut a = [x as u8 ^ 0x5a; 4096]; a[..8].copy_from_slice(&x.to_le_bytes()); a }, |s| { let x = u64::from_le_bytes(s[..8].try_into().unwrap()); if s[8..].iter().all(|b| *b == x as u8 ^ 0x5a) { Some(x) } else { None } });
pat!([u32; 2], MANY, |x| [x as u32, !(x as u32)], |s| if s[0] == !s[1] { Some(s[0] as u64) } else { None });
pat!(String, MANY, |x| format!("n{}", x), |s| s.strip_prefix('n').and_then(|s| s.parse().ok()));
pat!(&'static str, 40, |x| WORDS[x as usize], |s| WORDS.iter().position(|w| w == s).map(|i| i as u64));
pat!(Arc<str>, MANY, |x| Arc::from(format!("arc {}", x)), |s| s.strip_prefix("arc ").and_then(|s| s.parse().ok()));
pat!(Option<Box<u64>>, MANY, |x| if x == 0 { None } else { Some(Box::new(x)) }, |s| Some(s.as_ref().map_or(0, |b| **b)));
pat!(Vec<u8>, MANY, |x| { let mut v = x.to_le_bytes().to_vec(); v.resize(8 + (x % 23) as usize, 7); v }, |s| { if s.len() < 8 { return None; } let x = u64::from_le_bytes(s[..8].try_into().unwrap()); if s.len() as u64 == 8 + x % 23 && s[8..].iter().all(|b| *b == 7) { Some(x) } else { None } });
pat!(Box<[u64]>, MANY, |x| vec![x; 1 + (x % 5) as usize].into(), |s| if s.is_empty() || s.iter().any(|v| *v != s[0]) || s.len() as u64 != 1 + s[0] % 5 { None } else { Some(s[0]) });
pat!(A16, MANY, |x| A16(x as u32), |s| Some(s.0 as u64));
pat!([A16; 3], MANY, |x| [A16(x as u32), A16(x as u32 + 1), A16(x as u32 + 2)], |s| if s[1].0 == s[0].0 + 1 && s[2].0 == s[0].0 + 2 { Some(s[0].0 as u64) } else { None });
pat!(A64, MANY, |x| A64(x, x as u8), |s| if s.0 as u8 == s.1 { Some(s.0) } else { None });
pat!(A128, MANY, |x| A128([x; 20]), |s| if s.0.iter().all(|v| *v == s.0[0]) { Some(s.0[0]) } else { None });
pat!(Page, 256, |x| Page(x as u8), |s| Some(s.0 as u64));
pat!(Sum, MANY, |x| match x % 4 { 0 if x < 1024 => Sum::A((x / 4) as u8), 1 => Sum::B(Box::new(x)), 2 => Sum::C { x: [x as u16, (x >> 16) as u16, 1, 2, 3] }, 3 if x == 3 => Sum::D, _ => Sum::B(Box::new(x)) }, |s| match s { Sum::A(a) => Some(*a as u64 * 4), Sum::B(b) => Some(**b), Sum::C { x } => if x[2..] == [1, 2, 3] { Some(x[0] as u64 | (x[1] as u64) << 16) } else { None }, Sum::D => Some(3) });
pat!(Packed, MANY, |x| Packed { a: x as u8, b: (x as u32).to_le_bytes() }, |s| { let b = s.b; let x = u32::from_le_bytes(b) as u64; if x as u8 == s.a { Some(x) } else { None } });
const WORDS: [&str; 40] = ["", "a", "b", "aa", "ab", "ba", "Hello,", "world!", "0", "1", "key", "Key", "KEY", "x", "y", "z", "xy", "yz", "zx", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve", "longer key than the others", "trie", "hash", "set", "map", "node", "leaf", "root", "twig"];

static MODE: AtomicU64 = AtomicU64::new(0);
static BAD: Mutex<Option<String>> = Mutex::new(None);
fn bad(s: String) { let mut b = BAD.lock().unwrap_or_else(|e| e.into_inner()); if b.is_none() { *b = Some(s); } }
/// Reads the number of something the library handed out, watching its address and its contents.
fn read<T: Pat>(t: &T, what: &str) -> u64 {
    let p = t as *const T as usize;
    if p % std::mem::align_of::<T>() != 0 || p == 0 { bad(format!("a {} of type {} lies at {:#x}, its alignment is {}", what, std::any::type_name::<T>(), p, std::mem::align_of::<T>())); return u64::MAX; }
    t.num().unwrap_or_else(|| { bad(format!("a {} of type {} is damaged", what, std::any::type_name::<T>())); u64::MAX })
}
#[derive(Clone, Debug)] pub struct Own<T>(T);
/// The same key in another layout.
#[derive(Clone, Debug)] #[repr(align(32))] pub struct Alt<T> { pad: [u16; 3], t: T, end: u8 }
fn alt<T: Pat>(x: u64) -> Alt<T> { Alt { pad: [x as u16; 3], t: T::make(x), end: !(x as u8) } }
impl<T: Pat> Own<T> { fn id(&self) -> u64 { read(&self.0, "key") } }
impl<T: Pat> Alt<T> { fn id(&self) -> u64 {
    let p = self as *const Self as usize; if p % 32 != 0 { bad(format!("a key of another layout lies at {:#x}", p)); return u64::MAX; }
    let x = read(&self.t, "key"); if self.pad != [x as u16; 3] || self.end != !(x as u8) { bad("a key of another layout is damaged".into()); } x
} }
macro_rules! keyed { ($t:ident, $o:ident) => {
    impl<T: Pat> PartialEq for $t<T> { fn eq(&self, o: &Self) -> bool { self.id() == o.id() } }
    impl<T: Pat> Eq for $t<T> {}
    impl<T: Pat> PartialEq<$o<T>> for $t<T> { fn eq(&self, o: &$o<T>) -> bool { self.id() == o.id() } }
    impl<T: Pat> HashLike<$o<T>> for $t<T> {}
    impl<T: Pat> Hash for $t<T> { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.id()) } }
    impl<T: Pat> HasherBv<u64, $t<T>> for Mix { fn hash(&self, k: &$t<T>) -> u64 { hash_of(k.id()) } }
} }
#[derive(Clone, Debug, Default)] pub struct Mix;
keyed!(Own, Alt);
keyed!(Alt, Own);
impl<T: Pat> From<Alt<T>> for Own<T> { fn from(a: Alt<T>) -> Own<T> { a.id(); Own(a.t) } }
fn hash_of(x: u64) -> u64 {
    let m = MODE.load(Relaxed);
    match m & 7 { 0 => mix2(m, x), 1 => (x % 3) * 77, 2 => m, 3 => (x % 5) << 55 | (x / 5 % 2), 4 => x * 32, 5 => (x % 4) << 62, 6 => x % 7 | (x % 2) << 40, _ => x }
}
type Map<K, V> = HashTrieMap<u64, u32, K, V, Mix>;
type Dict = BTreeMap<u64, u64>;

fn contents<K: Key, V: Pat>(m: &Map<K, V>, id: impl Fn(&K) -> u64 + Clone) -> Vec<(u64, u64)> where Mix: HasherBv<u64, K> { let o = Mutex::new(Vec::new()); m.visit(|k, v| { let e = (id(k), read(v, "value")); o.lock().unwrap().push(e) }); let mut v = o.into_inner().unwrap(); v.sort(); v }
fn same<K: Key + HashLike<K>, V: Pat>(m: &Map<K, V>, d: &Dict, n: u64, id: impl Fn(&K) -> u64 + Clone, mk: impl Fn(u64) -> K) -> Result<(), String> where Mix: HasherBv<u64, K> {
    let got = contents(m, id.clone());
    let want: Vec<(u64, u64)> = d.iter().map(|(k, v)| (*k, *v)).collect();
    if let Some(b) = BAD.lock().unwrap_or_else(|e| e.into_inner()).take() { return Err(b); }
    if got != want || m.size() != d.len() { return Err(format!("holds {:?} (size {}) instead of {:?}", got, m.size(), want)); }
    for x in 0..n { let f = m.find(&mk(x)).ok().map(|(k, v)| (id(k), read(v, "value"))); if f != d.get(&x).map(|v| (x, *v)) { return Err(format!("finds {:?} for key {}, which is bound to {:?}", f, x, d.get(&x))); } }
    Ok(())
}
/// What an operation answers for a key in a role: keep, new value, remove.
fn ask(seed: u64, role: u64, id: u64) -> (u64, u64) { let r = mix3(seed, role, id); (if seed >> (role * 2) & 3 == 3 { 0 } else { r % 3 }, r >> 8) }
fn run<T>(f: impl std::future::Future<Output = T>) -> T { block_on(f) }


pub fn history<A: Pat, V: Pat, X: Pat>(cx: &mut Cx) -> Res {
    let who = format!("keys {}, values {} and {}", std::any::type_name::<A>(), std::any::type_name::<V>(), std::any::type_name::<X>());
    let n = A::N.min(cx.rng.range(1, 30) as u64);
    MODE.store(cx.rng.next(), Relaxed);
    cx.note(|| format!("{}, {} keys", who, n));
    let (idm, ida) = (|k: &Own<A>| k.id(), |k: &Alt<A>| k.id());
    let mk = |x| Own(A::make(x));
    let mut ms: Vec<(Map<Own<A>, V>, Dict)> = vec![(Map::new(), Dict::new())];
    let mut rs: Vec<(Map<Alt<A>, X>, Dict)> = vec![(Map::new(), Dict::new())];
    let add = |a: &u64, b: &u64| a.wrapping_add(*b);
    let steps = cx.rng.range(6, 30);
    for step in 0..steps {
        let seed = cx.rng.next();
        let par = if cx.rng.chance(1, 2) { ParallelismStrategy::Sequential } else { ParallelismStrategy::MiddleIndex };
        let (mi, ri) = (cx.rng.below(ms.len()), cx.rng.below(rs.len()));
        let (m, d) = (ms[mi].0.clone(), ms[mi].1.clone());
        let (r, e) = (rs[ri].0.clone(), rs[ri].1.clone());
        let vnew = |x: u64| x % V::N; let xnew = |x: u64| x % X::N;
        cx.rep.evals += 1;
        let act = cx.rng.below(9);
        let names = ["insertions and removals", "insertions and removals on the right", "transform", "transmute", "transform_with_transformed", "transform_with_transmuted", "transmute_with_transformed", "transmute_with_transmuted", "set operations"];
        cx.note(|| format!("#{} {} on {:?} and {:?}", step, names[act], d, e));
        cx.sig(mix3(mix2(act as u64, who.len() as u64), mix2(d.len() as u64, e.len() as u64), MODE.load(Relaxed) & 7));
        let mut left: Option<(Map<Own<A>, V>, Dict)> = None;
        let mut right: Option<(Map<Alt<A>, X>, Dict)> = None;
        let mut red = None;
        // outcome for each key: (role, number of the value kept when kept, number a new value gets)
        let union = || d.keys().chain(e.keys()).copied().collect::<std::collections::BTreeSet<u64>>();
        let role = |k: &u64| match (d.get(k), e.get(k)) { (Some(_), Some(_)) => 0, (Some(_), None) => 1, _ => 2 };
        let sum = |ks: &mut dyn Iterator<Item = u64>, f: &dyn Fn(u64) -> u64| ks.fold(0u64, |a, k| a.wrapping_add(mix3(seed, f(k), k)));
        match act {
            0 => {
                let k = cx.rng.range(1, 12); let ins: Vec<(u64, u64, u64)> = (0..k).map(|_| (cx.rng.below(n as usize) as u64, cx.rng.next() % V::N, cx.rng.next())).collect();
                let (mut m, mut d) = (m, d);
                let err = cx.target("insertions and removals", || { for (x, v, c) in &ins {
                    if c % 4 == 0 {
                        let r = m.remove(&mk(*x)).ok().map(|(n, k, v)| (n, k.id(), read(v, "value")));
                        match (r, d.remove(x)) { (Some((nm, k, v)), Some(w)) => { if k != *x || v != w { return Some(format!("removal of {} reports {} bound to {}", x, k, v)); } m = nm; } (None, None) => {}, _ => return Some(format!("removal of {} errs about its presence", x)) }
                    } else {
                        let rep = c % 3 != 0;
                        let res = if c & 8 == 0 { m.insert(mk(*x), V::make(*v), rep) } else { m.insert(alt::<A>(*x), V::make(*v), rep) };
                        let r = match res { Ok((nm, k, v, o)) => { let here = unsafe { ((*k).id(), read(&*v, "value")) }; Ok((here, o.map(|(k, v)| (k.id(), read(v, "value"))), nm)) } Err((k, v)) => Err((k.id(), read(v, "value"))) };
                        match r { Ok((h, o, nm)) => { if h != (*x, *v) || o != d.get(x).map(|w| (*x, *w)) || (o.is_some() && !rep) { return Some(format!("insertion of {}: {} reports {:?} stored, {:?} replaced", x, v, h, o)); } m = nm; d.insert(*x, *v); }
                            Err(o) => if rep || d.get(x) != Some(&o.1) || o.0 != *x { return Some(format!("insertion of {} refused with {:?}", x, o)); } }
                    }
                } None })?;
                if let Some(w) = err { return cx.viol(format!("{}: {}", who, w)); }
                left = Some((m, d));
            }
            1 => {
                let k = cx.rng.range(1, 12); let ins: Vec<(u64, u64, u64)> = (0..k).map(|_| (cx.rng.below(n as usize) as u64, cx.rng.next() % X::N, cx.rng.next())).collect();
                let (mut r, mut e) = (r, e);
                cx.target("insertions and removals", || for (x, v, c) in &ins {
                    if c % 4 == 0 { if let Ok((nr, ..)) = { let q = r.remove(&alt::<A>(*x)); q.map(|(a, b, c)| { b.id(); read(c, "value"); (a,) }) } { r = nr; e.remove(x); } }
                    else { r = r.insert(alt::<A>(*x), X::make(*v), true).map(|q| q.0).unwrap_or_else(|_| unreachable!()); e.insert(*x, *v); }
                })?;
                right = Some((r, e));
            }
            2 => {
                let (o, t) = cx.target("transform", || run(m.transform(add, new_map_transform_generic(|k: &Own<A>, v: &V| { read(v, "value"); let k = k.id(); let t = mix3(seed, 1, k); match ask(seed, 1, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(V::make(vnew(x)), t), _ => MapTransformResult::Removed(t) } }), par)))?;
                red = Some((t, sum(&mut d.keys().copied(), &|_| 1)));
                left = Some((o, d.iter().filter_map(|(k, v)| match ask(seed, 1, *k) { (0, _) => Some((*k, *v)), (1, x) => Some((*k, vnew(x))), _ => None }).collect()));
            }
            3 => {
                let (o, t) = cx.target("transmute", || unsafe { m.transmute(add, new_map_transmute_generic(|k: &Own<A>, v: &V| { read(v, "value"); let k = k.id(); let t = mix3(seed, 1, k); match ask(seed, 1, k) { (2, _) => MapTransmuteResult::Removed(t), (_, x) => MapTransmuteResult::Transmuted(alt::<A>(k), X::make(xnew(x)), t) } })) })?;
                red = Some((t, sum(&mut d.keys().copied(), &|_| 1)));
                right = Some((o, d.keys().filter_map(|k| match ask(seed, 1, *k) { (2, _) => None, (_, x) => Some((*k, xnew(x))) }).collect()));
            }
            4 => {
                let mj = cx.rng.below(ms.len());
                let (m2, e) = (ms[mj].0.clone(), ms[mj].1.clone());
                let one = |role: u64| move |k: &Own<A>, v: &V| { read(v, "value"); let k = k.id(); let t = mix3(seed, role, k); match ask(seed, role, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(V::make(x % V::N), t), _ => MapTransformResult::Removed(t) } };
                let (o, t) = cx.target("transform_with_transformed", || run(m.transform_with_transformed(&m2, add,
                    new_map_joint_transform_generic(|k: &Own<A>, v: &V, k2: &Own<A>, w: &V| { read(v, "value"); read(w, "value"); let k = k.id(); if k2.id() != k { bad(format!("keys {} and {} are joined", k, k2.id())); } let t = mix3(seed, 0, k); match ask(seed, 0, k) { (0, x) => if x % 2 == 0 { MapJointTransformResult::UnchangedL(t) } else { MapJointTransformResult::UnchangedR(t) }, (1, x) => MapJointTransformResult::Transformed(V::make(x % V::N), t), _ => MapJointTransformResult::Removed(t) } }),
                    new_map_transform_generic(one(1)), new_map_transform_generic(one(2)), par)))?;
                let ks: std::collections::BTreeSet<u64> = d.keys().chain(e.keys()).copied().collect();
                let role = |k: &u64| match (d.get(k), e.get(k)) { (Some(_), Some(_)) => 0, (Some(_), None) => 1, _ => 2 };
                red = Some((t, sum(&mut ks.iter().copied(), &|k| role(&k))));
                left = Some((o, ks.iter().filter_map(|k| { let r = role(k); match ask(seed, r, *k) { (0, x) => Some((*k, if r == 1 || r == 0 && x % 2 == 0 { d[k] } else { e[k] })), (1, x) => Some((*k, vnew(x))), _ => None } }).collect()));
            }
            5 => {
                let (o, t) = cx.target("transform_with_transmuted", || run(unsafe { m.transform_with_transmuted(&r, add,
                    new_map_transform_transmute_generic(|k: &Own<A>, v: &V, k2: &Alt<A>, w: &X| { read(v, "value"); read(w, "value"); let k = k.id(); if k2.id() != k { bad(format!("keys {} and {} are joined", k, k2.id())); } let t = mix3(seed, 0, k); match ask(seed, 0, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(V::make(vnew(x)), t), _ => MapTransformResult::Removed(t) } }),
                    new_map_transform_generic(|k: &Own<A>, v: &V| { read(v, "value"); let k = k.id(); let t = mix3(seed, 1, k); match ask(seed, 1, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(V::make(vnew(x)), t), _ => MapTransformResult::Removed(t) } }),
                    new_map_transmute_generic(|k: &Alt<A>, w: &X| { read(w, "value"); let k = k.id(); let t = mix3(seed, 2, k); match ask(seed, 2, k) { (2, _) => MapTransmuteResult::Removed(t), (_, x) => MapTransmuteResult::Transmuted(mk(k), V::make(vnew(x)), t) } }), par) }))?;
                red = Some((t, sum(&mut union().into_iter(), &|k| role(&k))));
                left = Some((o, union().iter().filter_map(|k| { let r = role(k); match ask(seed, r, *k) { (2, _) => None, (0, _) if r < 2 => Some((*k, d[k])), (_, x) => Some((*k, vnew(x))) } }).collect()));
            }
            6 => {
                let (o, t) = cx.target("transmute_with_transformed", || run(unsafe { m.transmute_with_transformed(&r, add,
                    new_map_transmute_transform_generic(|k: &Own<A>, v: &V, k2: &Alt<A>, w: &X| { read(v, "value"); read(w, "value"); let k = k.id(); if k2.id() != k { bad(format!("keys {} and {} are joined", k, k2.id())); } let t = mix3(seed, 0, k); match ask(seed, 0, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(X::make(xnew(x)), t), _ => MapTransformResult::Removed(t) } }),
                    new_map_transmute_generic(|k: &Own<A>, v: &V| { read(v, "value"); let k = k.id(); let t = mix3(seed, 1, k); match ask(seed, 1, k) { (2, _) => MapTransmuteResult::Removed(t), (_, x) => MapTransmuteResult::Transmuted(alt::<A>(k), X::make(xnew(x)), t) } }),
                    new_map_transform_generic(|k: &Alt<A>, w: &X| { read(w, "value"); let k = k.id(); let t = mix3(seed, 2, k); match ask(seed, 2, k) { (0, _) => MapTransformResult::Unchanged(t), (1, x) => MapTransformResult::Transformed(X::make(xnew(x)), t), _ => MapTransformResult::Removed(t) } }), par) }))?;
                red = Some((t, sum(&mut union().into_iter(), &|k| role(&k))));
                right = Some((o, union().iter().filter_map(|k| { let r = role(k); match ask(seed, r, *k) { (2, _) => None, (0, _) if r != 1 => Some((*k, e[k])), (_, x) => Some((*k, xnew(x))) } }).collect()));
            }
            7 => {
                let conv = |role: u64, k: u64| { let t = mix3(seed, role, k); match ask(seed, role, k) { (2, _) => MapTransmuteResult::Removed(t), (_, x) => MapTransmuteResult::Transmuted(alt::<A>(k), X::make(x % X::N), t) } };
                let (o, t) = cx.target("transmute_with_transmuted", || unsafe { m.transmute_with_transmuted(&r, add,
                    new_map_transmute_transmute_generic(|k: &Own<A>, v: &V, k2: &Alt<A>, w: &X| { read(v, "value"); read(w, "value"); if k2.id() != k.id() { bad("different keys are joined".into()); } conv(0, k.id()) }),
                    new_map_transmute_generic(|k: &Own<A>, v: &V| { read(v, "value"); conv(1, k.id()) }),
                    new_map_transmute_generic(|k: &Alt<A>, w: &X| { read(w, "value"); conv(2, k.id()) })) })?;
                red = Some((t, sum(&mut union().into_iter(), &|k| role(&k))));
                right = Some((o, union().iter().filter_map(|k| match ask(seed, role(k), *k) { (2, _) => None, (_, x) => Some((*k, xnew(x))) }).collect()));
            }
            _ => {
                // the keys alone, as sets: difference, then conversion to the other layout
                let (got, size, keep) = cx.target("set operations", || {
                    let mut a: HashTrieSet<u64, u32, Own<A>, Mix> = HashTrieSet::new();
                    let mut b: HashTrieSet<u64, u32, Alt<A>, Mix> = HashTrieSet::new();
                    for k in d.keys() { a = a.insert(mk(*k), false).map(|q| q.0).unwrap_or_else(|_| unreachable!()); }
                    for k in e.keys() { b = b.insert(alt::<A>(*k), false).map(|q| q.0).unwrap_or_else(|_| unreachable!()); }
                    let (c, _) = run(unsafe { a.transform_with_transmuted(&b, add, new_set_transform_transmute_generic(|_: &Own<A>, _: &Alt<A>| SetTransformResult::Removed(1)), new_set_transform_generic(|_: &Own<A>| SetTransformResult::Unchanged(1)), new_set_transmute_generic(|k: &Alt<A>| SetTransmuteResult::Transmuted(Own(A::make(k.id())), 1)), par) });
                    let (f, t) = unsafe { c.transmute(add, new_set_transmute_generic(|k: &Own<A>| SetTransmuteResult::Transmuted(alt::<A>(k.id()), k.id()))) };
                    let o = Mutex::new(Vec::new()); f.visit(|k: &Alt<A>| o.lock().unwrap().push(k.id()));
                    let mut o = o.into_inner().unwrap(); o.sort(); (o, f.size(), t)
                })?;
                let want: Vec<u64> = union().into_iter().filter(|k| role(k) != 0).collect();
                if let Some(b) = BAD.lock().unwrap_or_else(|e| e.into_inner()).take() { return cx.viol(format!("{}: set operations: {}", who, b)); }
                if got != want || size != want.len() || keep != want.iter().sum::<u64>() { return cx.viol(format!("{}: the exclusive union of key sets {:?} and {:?} is {:?} (size {})", who, d.keys().collect::<Vec<_>>(), e.keys().collect::<Vec<_>>(), got, size)); }
            }
        }
        if let Some((a, b)) = red { if a != b { return cx.viol(format!("{}: {} reduced to {} instead of {}", who, names[act], a, b)); } }
        if let Some(b) = BAD.lock().unwrap_or_else(|e| e.into_inner()).take() { return cx.viol(format!("{}: {}: {}", who, names[act], b)); }
        if let Some((m, d)) = left { let r = cx.target("reading the result", || same(&m, &d, n, idm, mk))?; if let Err(w) = r { return cx.viol(format!("{}: after {} the map {}", who, names[act], w)); } if ms.len() > 4 { ms.remove(1); } ms.push((m, d)); }
        if let Some((m, d)) = right { let r = cx.target("reading the result", || same(&m, &d, n, ida, alt::<A>))?; if let Err(w) = r { return cx.viol(format!("{}: after {} the map {}", who, names[act], w)); } if rs.len() > 4 { rs.remove(1); } rs.push((m, d)); }
    }
    let r = cx.target("reading the versions", || { for (m, d) in &ms { same(m, d, n, idm, mk)?; } for (m, d) in &rs { same(m, d, n, ida, alt::<A>)?; } Ok(()) })?;
    if let Err(w) = r { let w: String = w; return cx.viol(format!("{}: in the end an earlier version {}", who, w)); }
    cx.count(std::any::type_name::<(A, V, X)>());
    if cx.rep.samples.len() < 3 { let t = cx.trace.iter().take(6).cloned().collect::<Vec<_>>().join(" ; "); cx.rep.samples.push(t); }
    Ok(())
}
pub fn fresh() { BAD.lock().unwrap_or_else(|e| e.into_inner()).take(); }
/// One program per part of the table of layouts.
#[macro_export]
macro_rules! layout_table { ($($n:literal $k:ty, $v:ty, $x:ty;)*) => {
    fn main() { hmon::drive::main_loop(|cx| { fresh(); let all = [$($n),*]; match *cx.rng.pick(&all) { $($n => history::<$k, $v, $x>(cx),)* _ => unreachable!() } }) }
} }
