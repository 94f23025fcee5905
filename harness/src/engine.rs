// Included once per (hash width, branching width) configuration: `H` and `F` are defined by the includer.
use crate::support::*;
use crate::spec::*;
use hash_trie::{results::*, transformations::*, traits::*, HashTrieMap, HashTrieSet, ParallelismStrategy};
use std::sync::Mutex;

pub type MA = HashTrieMap<H, F, TK<0>, TV<0>, Hx>;
pub type MB = HashTrieMap<H, F, TK<1>, TV<1>, Hx>;
pub type MC = HashTrieMap<H, F, TK<2>, TV<2>, Hx>;
pub type MAB = HashTrieMap<H, F, TK<0>, TV<1>, Hx>;
pub type SA = HashTrieSet<H, F, TK<0>, Hx>;
pub type SB = HashTrieSet<H, F, TK<1>, Hx>;
pub type SC = HashTrieSet<H, F, TK<2>, Hx>;

pub fn bits() -> usize { <H as MaxOnes>::max_ones() }
pub fn logb() -> usize { <F as LogB>::log_b() }

fn ek<const T: u8>(k: &TK<T>) -> Ent { k.chk(); Ent { id: k.id, ktag: k.tag, val: 0, vtag: 0, ka: k as *const _ as usize, va: 0 } }
fn ekv<const T: u8, const U: u8>(k: &TK<T>, v: &TV<U>) -> Ent { k.chk(); v.chk(); Ent { id: k.id, ktag: k.tag, val: v.val, vtag: v.tag, ka: k as *const _ as usize, va: v as *const _ as usize } }

/// Uniform view of the seven collection types.
pub trait Col: Clone + Sized {
    fn empty() -> Self;
    fn size(&self) -> usize;
    /// Entries in visit order.
    fn visit_all(&self) -> Vec<Ent>;
    /// Visits without allocating; returns the number of calls.
    fn visit_count(&self) -> u64;
    fn find_id(&self, u: &Uni, id: u32, alike: bool) -> Option<Ent>;
    fn insert_id(&self, u: &Uni, id: u32, ktag: u64, val: u32, vtag: u64, replace: bool, alike: bool) -> Result<(Self, Ent, Option<Ent>), Ent>;
    fn remove_id(&self, u: &Uni, id: u32, alike: bool) -> Option<(Self, Ent)>;
    fn same(&self, o: &Self) -> bool;
    fn differs(&self, o: &Self) -> bool;
}

macro_rules! col_map { ($m:ty, $k:literal, $v:literal) => {
    impl Col for $m {
        fn empty() -> Self { <$m>::new() }
        fn size(&self) -> usize { <$m>::size(self) }
        fn visit_all(&self) -> Vec<Ent> { let o = Mutex::new(Vec::new()); self.visit(|k, v| { tick(&CALLS); o.lock().unwrap().push(ekv(k, v)) }); o.into_inner().unwrap() }
        fn visit_count(&self) -> u64 { let n = std::sync::atomic::AtomicU64::new(0); self.visit(|k, v| { k.chk(); v.chk(); n.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }); n.into_inner() }
        fn find_id(&self, u: &Uni, id: u32, alike: bool) -> Option<Ent> {
            if alike { self.find(&u.key::<3>(id, 0)).ok().map(|(k, v)| ekv(k, v)) } else { self.find(&u.key::<$k>(id, 0)).ok().map(|(k, v)| ekv(k, v)) }
        }
        fn insert_id(&self, u: &Uni, id: u32, ktag: u64, val: u32, vtag: u64, replace: bool, alike: bool) -> Result<(Self, Ent, Option<Ent>), Ent> {
            // values of another type, too, where their tag is odd
            let r = if alike && vtag & 1 == 1 { self.insert(u.key::<3>(id, ktag), TV::<3>::new(val, vtag), replace) } else { let v = TV::<$v>::new(val, vtag); if alike { self.insert(u.key::<3>(id, ktag), v, replace) } else { self.insert(u.key::<$k>(id, ktag), v, replace) } };
            match r {
                // The pointers denote entries of `m`, which is alive here.
                Ok((m, k, v, p)) => { let e = unsafe { ekv(&*k, &*v) }; Ok((m, e, p.map(|(k, v)| ekv(k, v)))) }
                Err((k, v)) => Err(ekv(k, v)),
            }
        }
        fn remove_id(&self, u: &Uni, id: u32, alike: bool) -> Option<(Self, Ent)> {
            let r = if alike { self.remove(&u.key::<3>(id, 0)) } else { self.remove(&u.key::<$k>(id, 0)) };
            r.ok().map(|(m, k, v)| (m, ekv(k, v)))
        }
        fn same(&self, o: &Self) -> bool { self == o }
        fn differs(&self, o: &Self) -> bool { self != o }
    }
} }
macro_rules! col_set { ($m:ty, $k:literal) => {
    impl Col for $m {
        fn empty() -> Self { <$m>::new() }
        fn size(&self) -> usize { <$m>::size(self) }
        fn visit_all(&self) -> Vec<Ent> { let o = Mutex::new(Vec::new()); self.visit(|k| { tick(&CALLS); o.lock().unwrap().push(ek(k)) }); o.into_inner().unwrap() }
        fn visit_count(&self) -> u64 { let n = std::sync::atomic::AtomicU64::new(0); self.visit(|k| { k.chk(); n.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }); n.into_inner() }
        fn find_id(&self, u: &Uni, id: u32, alike: bool) -> Option<Ent> {
            if alike { self.find(&u.key::<3>(id, 0)).ok().map(ek) } else { self.find(&u.key::<$k>(id, 0)).ok().map(ek) }
        }
        fn insert_id(&self, u: &Uni, id: u32, ktag: u64, _val: u32, _vtag: u64, replace: bool, alike: bool) -> Result<(Self, Ent, Option<Ent>), Ent> {
            let r = if alike { self.insert(u.key::<3>(id, ktag), replace) } else { self.insert(u.key::<$k>(id, ktag), replace) };
            match r {
                Ok((m, k, p)) => { let e = unsafe { ek(&*k) }; Ok((m, e, p.map(ek))) }
                Err(k) => Err(ek(k)),
            }
        }
        fn remove_id(&self, u: &Uni, id: u32, alike: bool) -> Option<(Self, Ent)> {
            let r = if alike { self.remove(&u.key::<3>(id, 0)) } else { self.remove(&u.key::<$k>(id, 0)) };
            r.ok().map(|(m, k)| (m, ek(k)))
        }
        fn same(&self, o: &Self) -> bool { self == o }
        fn differs(&self, o: &Self) -> bool { self != o }
    }
} }
col_map!(MA, 0, 0);
col_map!(MB, 1, 1);
col_map!(MC, 2, 2);
col_map!(MAB, 0, 1);
col_set!(SA, 0);
col_set!(SB, 1);
col_set!(SC, 2);

#[derive(Clone)]
pub enum Any { MA(MA), MB(MB), MC(MC), MAB(MAB), SA(SA), SB(SB), SC(SC) }
macro_rules! each { ($s:expr, $m:ident => $e:expr) => { match $s { Any::MA($m) => $e, Any::MB($m) => $e, Any::MC($m) => $e, Any::MAB($m) => $e, Any::SA($m) => $e, Any::SB($m) => $e, Any::SC($m) => $e } } }
macro_rules! each_wrap { ($s:expr, $m:ident, $w:ident => $e:expr) => { match $s {
    Any::MA($m) => { let $w = Any::MA; $e } Any::MB($m) => { let $w = Any::MB; $e } Any::MC($m) => { let $w = Any::MC; $e } Any::MAB($m) => { let $w = Any::MAB; $e }
    Any::SA($m) => { let $w = Any::SA; $e } Any::SB($m) => { let $w = Any::SB; $e } Any::SC($m) => { let $w = Any::SC; $e } } } }
impl Any {
    pub fn empty(t: Ty) -> Any { match t { Ty::MA => Any::MA(MA::empty()), Ty::MB => Any::MB(MB::empty()), Ty::MC => Any::MC(MC::empty()), Ty::MAB => Any::MAB(MAB::empty()), Ty::SA => Any::SA(SA::empty()), Ty::SB => Any::SB(SB::empty()), Ty::SC => Any::SC(SC::empty()) } }
    pub fn ty(&self) -> Ty { match self { Any::MA(_) => Ty::MA, Any::MB(_) => Ty::MB, Any::MC(_) => Ty::MC, Any::MAB(_) => Ty::MAB, Any::SA(_) => Ty::SA, Any::SB(_) => Ty::SB, Any::SC(_) => Ty::SC } }
    pub fn size(&self) -> usize { each!(self, m => Col::size(m)) }
    pub fn visit_all(&self) -> Vec<Ent> { each!(self, m => m.visit_all()) }
    /// Entries sorted by id.
    pub fn snap(&self) -> Vec<Ent> { let mut v = self.visit_all(); v.sort_by_key(|e| e.id); v }
    pub fn find(&self, u: &Uni, id: u32) -> Option<Ent> { each!(self, m => m.find_id(u, id, false)) }
    pub fn find_alike(&self, u: &Uni, id: u32, alike: bool) -> Option<Ent> { each!(self, m => m.find_id(u, id, alike)) }
    pub fn insert(&self, u: &Uni, id: u32, ktag: u64, val: u32, vtag: u64, replace: bool, alike: bool) -> Result<(Any, Ent, Option<Ent>), Ent> {
        each_wrap!(self, m, w => m.insert_id(u, id, ktag, val, vtag, replace, alike).map(|(m, e, p)| (w(m), e, p)))
    }
    pub fn remove(&self, u: &Uni, id: u32, alike: bool) -> Option<(Any, Ent)> { each_wrap!(self, m, w => m.remove_id(u, id, alike).map(|(m, e)| (w(m), e))) }
    /// Overwrites a version with a clone of another one of its type.
    pub fn assign(&mut self, o: &Any) -> bool {
        match (self, o) {
            (Any::MA(a), Any::MA(b)) => a.clone_from(b), (Any::MB(a), Any::MB(b)) => a.clone_from(b), (Any::MC(a), Any::MC(b)) => a.clone_from(b), (Any::MAB(a), Any::MAB(b)) => a.clone_from(b),
            (Any::SA(a), Any::SA(b)) => a.clone_from(b), (Any::SB(a), Any::SB(b)) => a.clone_from(b), (Any::SC(a), Any::SC(b)) => a.clone_from(b), _ => return false,
        }
        true
    }
    pub fn eq(&self, o: &Any) -> Option<(bool, bool)> {
        Some(match (self, o) {
            (Any::MA(a), Any::MA(b)) => (a.same(b), a.differs(b)), (Any::MB(a), Any::MB(b)) => (a.same(b), a.differs(b)),
            (Any::MC(a), Any::MC(b)) => (a.same(b), a.differs(b)), (Any::MAB(a), Any::MAB(b)) => (a.same(b), a.differs(b)),
            (Any::SA(a), Any::SA(b)) => (a.same(b), a.differs(b)), (Any::SB(a), Any::SB(b)) => (a.same(b), a.differs(b)),
            (Any::SC(a), Any::SC(b)) => (a.same(b), a.differs(b)), _ => return None,
        })
    }
}

/// Records every call of a per-entry operation and hands out its secondary result.
pub struct Rec<'a> { pub calls: Mutex<Vec<Call>>, pub spec: &'a Spec }
impl<'a> Rec<'a> {
    pub fn new(spec: &'a Spec) -> Self { Rec { calls: Mutex::new(Vec::new()), spec } }
    fn hit(&self, role: usize, l: Option<Ent>, r: Option<Ent>) -> (Dec, R) {
        tick(&CALLS);
        let id = l.as_ref().or(r.as_ref()).unwrap().id;
        let d = self.spec.decide(role, id);
        let red = self.spec.token(role, id);
        if self.spec.record { self.calls.lock().unwrap_or_else(|e| e.into_inner()).push(Call { role, l, r }); }
        (d, red)
    }
    fn newval<const U: u8>(&self, role: usize, id: u32) -> TV<U> { TV::new(self.spec.new_val(role, id), self.spec.new_vtag(role, id)) }
    fn newkey<const T: u8>(&self, role: usize, id: u32, h: u128) -> TK<T> { TK::new(id, self.spec.new_ktag(role, id), h) }
}
fn red(a: &R, b: &R) -> R { tick(&REDUCES); a.add(b) }
fn strat(s: Strat) -> ParallelismStrategy { match s { Strat::Seq => ParallelismStrategy::Sequential, Strat::Mid => ParallelismStrategy::MiddleIndex, Strat::Def => ParallelismStrategy::default(), Strat::Par => ParallelismStrategy::default_par() } }

fn mtr<const U: u8>(rec: &Rec, role: usize, id: u32, d: Dec, r: R) -> MapTransformResult<TV<U>, R> {
    match d { Dec::Keep(_) => MapTransformResult::Unchanged(r), Dec::New => MapTransformResult::Transformed(rec.newval(role, id), r), Dec::Rem => MapTransformResult::Removed(r) }
}
fn mjr<const U: u8>(rec: &Rec, role: usize, id: u32, d: Dec, r: R) -> MapJointTransformResult<TV<U>, R> {
    match d {
        Dec::Keep(Side::LR) => MapJointTransformResult::UnchangedLR(r), Dec::Keep(Side::L) => MapJointTransformResult::UnchangedL(r), Dec::Keep(Side::R) => MapJointTransformResult::UnchangedR(r),
        Dec::New => MapJointTransformResult::Transformed(rec.newval(role, id), r), Dec::Rem => MapJointTransformResult::Removed(r),
    }
}
fn mmr<const T: u8, const U: u8>(rec: &Rec, role: usize, id: u32, h: u128, d: Dec, r: R) -> MapTransmuteResult<TK<T>, TV<U>, R> {
    match d { Dec::Rem => MapTransmuteResult::Removed(r), _ => MapTransmuteResult::Transmuted(rec.newkey(role, id, h), rec.newval(role, id), r) }
}
fn smr<const T: u8>(rec: &Rec, role: usize, id: u32, h: u128, d: Dec, r: R) -> SetTransmuteResult<TK<T>, R> {
    match d { Dec::Rem => SetTransmuteResult::Removed(r), _ => SetTransmuteResult::Transmuted(rec.newkey(role, id, h), r) }
}
fn fuse<const U: u8>(rec: &Rec, role: usize, id: u32, d: Dec, r: R) -> SetTransmuteResult<TV<U>, R> {
    match d { Dec::Rem => SetTransmuteResult::Removed(r), _ => SetTransmuteResult::Transmuted(rec.newval(role, id), r) }
}
fn str_(d: Dec, r: R) -> SetTransformResult<R> { match d { Dec::Rem => SetTransformResult::Removed(r), _ => SetTransformResult::Unchanged(r) } }
fn sjr(d: Dec, r: R) -> SetJointTransformResult<R> {
    match d { Dec::Keep(Side::L) => SetJointTransformResult::UnchangedL(r), Dec::Keep(Side::R) => SetJointTransformResult::UnchangedR(r), Dec::Rem => SetJointTransformResult::Removed(r), _ => SetJointTransformResult::UnchangedLR(r) }
}

macro_rules! joint { ($ty:ident, $role:expr, $g:expr) => { match $role { Role::Gen => $ty::Generic($g, false), Role::Const(Dec::Keep(Side::L)) => $ty::UnchangedL(R::default()), Role::Const(Dec::Keep(Side::R)) => $ty::UnchangedR(R::default()), Role::Const(Dec::Rem) => $ty::Removed(R::default()), Role::Const(_) => $ty::UnchangedLR(R::default()) } } }
macro_rules! form { ($ty:ident, $role:expr, $g:expr) => { match $role { Role::Gen => $ty::Generic($g), Role::Const(Dec::Rem) => $ty::Removed(R::default()), Role::Const(_) => $ty::Unchanged(R::default()) } } }
macro_rules! mute { ($ty:ident, $role:expr, $g:expr) => { match $role { Role::Gen => $ty::Generic($g), Role::Const(_) => $ty::Removed(R::default()) } } }

/// Runs the bulk operation `spec` describes; `None` when the operand types do not fit.
pub fn run_bulk(spec: &Spec, rec: &Rec, left: &Any, right: &Any) -> Option<(Any, R)> {
    let (b, l, r) = (spec.both, spec.left, spec.right);
    let st = strat(spec.strat);
    const B: usize = 0; const L: usize = 1; const RR: usize = 2;
    Some(match (spec.kind, left, right) {
        (Kind::T, Any::MA(a), _) => { let (m, x) = block_on(a.transform(red, form!(MapTransform, l, |k: &TK<0>, v: &TV<0>| { let e = ekv(k, v); let (d, t) = rec.hit(L, Some(e), None); mtr(rec, L, k.id, d, t) }), st)); (Any::MA(m), x) }
        (Kind::X, Any::MA(a), _) => { let (m, x) = unsafe { a.transmute(red, mute!(MapTransmute, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mmr::<2, 2>(rec, L, k.id, k.h, d, t) })) }; (Any::MC(m), x) }
        (Kind::TT, Any::MA(a), Any::MA(c)) => { let (m, x) = block_on(a.transform_with_transformed(c, red,
            joint!(MapJointTransform, b, |k: &TK<0>, v: &TV<0>, k2: &TK<0>, v2: &TV<0>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mjr(rec, B, k.id, d, t) }),
            form!(MapTransform, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mtr(rec, L, k.id, d, t) }),
            form!(MapTransform, r, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); mtr(rec, RR, k.id, d, t) }), st)); (Any::MA(m), x) }
        (Kind::TM, Any::MA(a), Any::MB(c)) => { let (m, x) = block_on(unsafe { a.transform_with_transmuted(c, red,
            form!(MapTransform, b, |k: &TK<0>, v: &TV<0>, k2: &TK<1>, v2: &TV<1>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mtr(rec, B, k.id, d, t) }),
            form!(MapTransform, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mtr(rec, L, k.id, d, t) }),
            mute!(MapTransmute, r, |k: &TK<1>, v: &TV<1>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); mmr::<0, 0>(rec, RR, k.id, k.h, d, t) }), st) }); (Any::MA(m), x) }
        (Kind::TMF, Any::MA(a), Any::MAB(c)) => { let (m, x) = block_on(a.transform_with_transfuted(c, red,
            form!(MapTransform, b, |k: &TK<0>, v: &TV<0>, k2: &TK<0>, v2: &TV<1>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mtr(rec, B, k.id, d, t) }),
            form!(MapTransform, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mtr(rec, L, k.id, d, t) }),
            mute!(SetTransmute, r, |k: &TK<0>, v: &TV<1>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); fuse::<0>(rec, RR, k.id, d, t) }), st)); (Any::MA(m), x) }
        (Kind::MT, Any::MA(a), Any::MB(c)) => { let (m, x) = block_on(unsafe { a.transmute_with_transformed(c, red,
            form!(MapTransform, b, |k: &TK<0>, v: &TV<0>, k2: &TK<1>, v2: &TV<1>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mtr(rec, B, k.id, d, t) }),
            mute!(MapTransmute, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mmr::<1, 1>(rec, L, k.id, k.h, d, t) }),
            form!(MapTransform, r, |k: &TK<1>, v: &TV<1>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); mtr(rec, RR, k.id, d, t) }), st) }); (Any::MB(m), x) }
        (Kind::MTF, Any::MA(a), Any::MAB(c)) => { let (m, x) = block_on(a.transfute_with_transformed(c, red,
            form!(MapTransform, b, |k: &TK<0>, v: &TV<0>, k2: &TK<0>, v2: &TV<1>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mtr(rec, B, k.id, d, t) }),
            mute!(SetTransmute, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); fuse::<1>(rec, L, k.id, d, t) }),
            form!(MapTransform, r, |k: &TK<0>, v: &TV<1>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); mtr(rec, RR, k.id, d, t) }), st)); (Any::MAB(m), x) }
        (Kind::MM, Any::MA(a), Any::MB(c)) => { let (m, x) = unsafe { a.transmute_with_transmuted(c, red,
            mute!(MapTransmute, b, |k: &TK<0>, v: &TV<0>, k2: &TK<1>, v2: &TV<1>| { let (d, t) = rec.hit(B, Some(ekv(k, v)), Some(ekv(k2, v2))); mmr::<2, 2>(rec, B, k.id, k.h, d, t) }),
            mute!(MapTransmute, l, |k: &TK<0>, v: &TV<0>| { let (d, t) = rec.hit(L, Some(ekv(k, v)), None); mmr::<2, 2>(rec, L, k.id, k.h, d, t) }),
            mute!(MapTransmute, r, |k: &TK<1>, v: &TV<1>| { let (d, t) = rec.hit(RR, None, Some(ekv(k, v))); mmr::<2, 2>(rec, RR, k.id, k.h, d, t) })) }; (Any::MC(m), x) }
        (Kind::ST, Any::SA(a), _) => { let (m, x) = block_on(a.transform(red, form!(SetTransform, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); str_(d, t) }), st)); (Any::SA(m), x) }
        (Kind::SX, Any::SA(a), _) => { let (m, x) = unsafe { a.transmute(red, mute!(SetTransmute, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); smr::<2>(rec, L, k.id, k.h, d, t) })) }; (Any::SC(m), x) }
        (Kind::STT, Any::SA(a), Any::SA(c)) => { let (m, x) = block_on(a.transform_with_transformed(c, red,
            joint!(SetJointTransform, b, |k: &TK<0>, k2: &TK<0>| { let (d, t) = rec.hit(B, Some(ek(k)), Some(ek(k2))); sjr(d, t) }),
            form!(SetTransform, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); str_(d, t) }),
            form!(SetTransform, r, |k: &TK<0>| { let (d, t) = rec.hit(RR, None, Some(ek(k))); str_(d, t) }), st)); (Any::SA(m), x) }
        (Kind::STM, Any::SA(a), Any::SB(c)) => { let (m, x) = block_on(unsafe { a.transform_with_transmuted(c, red,
            form!(SetTransform, b, |k: &TK<0>, k2: &TK<1>| { let (d, t) = rec.hit(B, Some(ek(k)), Some(ek(k2))); str_(d, t) }),
            form!(SetTransform, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); str_(d, t) }),
            mute!(SetTransmute, r, |k: &TK<1>| { let (d, t) = rec.hit(RR, None, Some(ek(k))); smr::<0>(rec, RR, k.id, k.h, d, t) }), st) }); (Any::SA(m), x) }
        (Kind::SMT, Any::SA(a), Any::SB(c)) => { let (m, x) = block_on(unsafe { a.transmute_with_transformed(c, red,
            form!(SetTransform, b, |k: &TK<0>, k2: &TK<1>| { let (d, t) = rec.hit(B, Some(ek(k)), Some(ek(k2))); str_(d, t) }),
            mute!(SetTransmute, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); smr::<1>(rec, L, k.id, k.h, d, t) }),
            form!(SetTransform, r, |k: &TK<1>| { let (d, t) = rec.hit(RR, None, Some(ek(k))); str_(d, t) }), st) }); (Any::SB(m), x) }
        (Kind::SMM, Any::SA(a), Any::SB(c)) => { let (m, x) = unsafe { a.transmute_with_transmuted(c, red,
            mute!(SetTransmute, b, |k: &TK<0>, k2: &TK<1>| { let (d, t) = rec.hit(B, Some(ek(k)), Some(ek(k2))); smr::<2>(rec, B, k.id, k.h, d, t) }),
            mute!(SetTransmute, l, |k: &TK<0>| { let (d, t) = rec.hit(L, Some(ek(k)), None); smr::<2>(rec, L, k.id, k.h, d, t) }),
            mute!(SetTransmute, r, |k: &TK<1>| { let (d, t) = rec.hit(RR, None, Some(ek(k))); smr::<2>(rec, RR, k.id, k.h, d, t) })) }; (Any::SC(m), x) }
        _ => return None,
    })
}
