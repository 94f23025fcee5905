//! Configuration-independent description of bulk operations, and the oracle that predicts their outcome.
use crate::support::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Ent { pub id: u32, pub ktag: u64, pub val: u32, pub vtag: u64, pub ka: usize, pub va: usize }
impl Ent {
    pub fn same_content(&self, o: &Ent) -> bool { self.id == o.id && self.ktag == o.ktag && self.val == o.val && self.vtag == o.vtag }
    pub fn same_place(&self, o: &Ent) -> bool { self.ka == o.ka && self.va == o.va }
    pub fn brief(&self) -> String { format!("{}(k{:x}={}v{:x})", self.id, self.ktag & 0xffff, self.val, self.vtag & 0xffff) }
}
pub fn brief(v: &[Ent]) -> String { format!("{{{}}}", v.iter().map(|e| e.brief()).collect::<Vec<_>>().join(" ")) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty { MA, MB, MC, MAB, SA, SB, SC }
impl Ty { pub fn is_set(self) -> bool { matches!(self, Ty::SA | Ty::SB | Ty::SC) } }
pub const TYS: [Ty; 7] = [Ty::MA, Ty::MB, Ty::MC, Ty::MAB, Ty::SA, Ty::SB, Ty::SC];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { T, X, TT, TM, TMF, MT, MTF, MM, ST, SX, STT, STM, SMT, SMM }
pub const KINDS: [Kind; 14] = [Kind::T, Kind::X, Kind::TT, Kind::TM, Kind::TMF, Kind::MT, Kind::MTF, Kind::MM, Kind::ST, Kind::SX, Kind::STT, Kind::STM, Kind::SMT, Kind::SMM];
impl Kind {
    pub fn name(self) -> &'static str { match self {
        Kind::T => "map.transform", Kind::X => "map.transmute", Kind::TT => "map.transform_with_transformed", Kind::TM => "map.transform_with_transmuted", Kind::TMF => "map.transform_with_transfuted", Kind::MT => "map.transmute_with_transformed", Kind::MTF => "map.transfute_with_transformed", Kind::MM => "map.transmute_with_transmuted",
        Kind::ST => "set.transform", Kind::SX => "set.transmute", Kind::STT => "set.transform_with_transformed", Kind::STM => "set.transform_with_transmuted", Kind::SMT => "set.transmute_with_transformed", Kind::SMM => "set.transmute_with_transmuted" } }
    pub fn is_set(self) -> bool { matches!(self, Kind::ST | Kind::SX | Kind::STT | Kind::STM | Kind::SMT | Kind::SMM) }
    pub fn joint(self) -> bool { !matches!(self, Kind::T | Kind::X | Kind::ST | Kind::SX) }
    pub fn has_strat(self) -> bool { !matches!(self, Kind::X | Kind::SX | Kind::MM | Kind::SMM) }
    pub fn left_ty(self) -> Ty { if self.is_set() { Ty::SA } else { Ty::MA } }
    pub fn right_ty(self) -> Ty { match self { Kind::TT | Kind::T | Kind::X => Ty::MA, Kind::TMF | Kind::MTF => Ty::MAB, Kind::TM | Kind::MT | Kind::MM => Ty::MB, Kind::STT | Kind::ST | Kind::SX => Ty::SA, _ => Ty::SB } }
    pub fn out_ty(self) -> Ty { match self { Kind::T | Kind::TT | Kind::TM | Kind::TMF => Ty::MA, Kind::X | Kind::MM => Ty::MC, Kind::MT => Ty::MB, Kind::MTF => Ty::MAB, Kind::ST | Kind::STT | Kind::STM => Ty::SA, Kind::SX | Kind::SMM => Ty::SC, Kind::SMT => Ty::SB } }
    /// How each role (both, left, right) answers: j(oint), l/r = transform keeping that side, m = transmute.
    pub fn style(self, role: usize) -> char {
        match (self, role) {
            (Kind::T | Kind::ST, _) => 'l',
            (Kind::X | Kind::SX, _) => 'm',
            (Kind::TT | Kind::STT, 0) => 'j', (Kind::TT | Kind::STT, 1) => 'l', (Kind::TT | Kind::STT, _) => 'r',
            (Kind::TM | Kind::TMF | Kind::STM, 0 | 1) => 'l', (Kind::TM | Kind::STM, _) => 'm', (Kind::TMF, _) => 'f',
            (Kind::MT | Kind::MTF | Kind::SMT, 0 | 2) => 'r', (Kind::MT | Kind::SMT, _) => 'm', (Kind::MTF, _) => 'f',
            (Kind::MM | Kind::SMM, _) => 'm',
        }
    }
    pub fn content_prop(self) -> &'static str { match self { Kind::T | Kind::ST => "C04", Kind::X | Kind::SX => "C05", Kind::TT | Kind::STT => "C06", Kind::TM | Kind::TMF | Kind::STM => "C07", Kind::MT | Kind::MTF | Kind::SMT => "C08", Kind::MM | Kind::SMM => "C09" } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Side { L, R, LR }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dec { Keep(Side), New, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role { Gen, Const(Dec) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strat { Seq, Mid, Def, Par }

pub struct Call { pub role: usize, pub l: Option<Ent>, pub r: Option<Ent> }

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind, pub seed: u64, pub both: Role, pub left: Role, pub right: Role, pub strat: Strat,
    /// Weights of [KeepL, KeepR, KeepLR, New, Rem] per role.
    pub w: [[u8; 5]; 3],
    /// A per-entry role that imitates a constant: fixed decision, identity token.
    pub fixed: [Option<Dec>; 3],
    /// Keys (sorted) answered by other weights: one place of the collection that differs from everything around it.
    pub odd: Vec<u32>, pub w2: [[u8; 5]; 3],
    pub record: bool,
}
impl Spec {
    /// Now and then: everything agrees with one side but the keys of one slot or of one hash.
    pub fn focus(&mut self, rng: &mut Rng, u: &Uni, l: &[u32], r: &[u32]) {
        if !rng.chance(2, 5) || l.is_empty() && r.is_empty() { return; }
        let pick = if !l.is_empty() && (r.is_empty() || rng.chance(1, 2)) { *rng.pick(l) } else { *rng.pick(r) };
        let slot = u.slots.iter().find(|s| s.iter().any(|g| g.contains(&pick)));
        let mut odd: Vec<u32> = match slot {
            Some(s) if rng.chance(3, 4) => s.iter().flatten().copied().collect(),
            _ => { let e = u.eff(pick); (0..u.n() as u32).filter(|i| u.eff(*i) == e).collect() }
        };
        odd.sort();
        let one = |i: usize| { let mut w = [0u8; 5]; w[i] = 1; w };
        // all else: keep the left, keep the right, or what both sides hold
        let side = rng.below(2);
        self.w = [one(if rng.chance(1, 5) { 2 } else { side }), one(if side == 0 { 0 } else { 4 }), one(if side == 1 { 1 } else { 4 })];
        if rng.chance(1, 4) { let x = rng.below(3); self.w[x] = one(rng.below(5)); }
        for x in 0..3 { self.w2[x] = if rng.chance(3, 4) { one([0, 1, 2, 3, 4, 4][rng.below(6)]) } else { [1, 1, 1, 1, 2] }; }
        self.odd = odd;
        if rng.chance(2, 3) { self.both = Role::Gen; self.left = Role::Gen; self.right = Role::Gen; }
    }
    pub fn role(&self, i: usize) -> Role { [self.both, self.left, self.right][i] }
    pub fn gen(rng: &mut Rng, kind: Kind, const_num: usize, const_den: usize) -> Spec {
        let mut w = [[0u8; 5]; 3];
        // (nearly) unanimous answers: the result is one of the sides but for a slot or a key
        let unanimous = rng.chance(1, 3);
        if unanimous {
            let side = rng.below(2);
            w[0][if rng.chance(1, 5) { 2 } else { side }] = 1;
            w[1][if side == 0 { 0 } else { 4 }] = 1;
            w[2][if side == 1 { 1 } else { 4 }] = 1;
            if rng.chance(1, 2) { let r = rng.below(3); w[r] = [0; 5]; w[r][rng.below(5)] = 1; }
            if rng.chance(1, 3) { let r = rng.below(3); for x in w[r].iter_mut() { *x *= 6; } w[r][rng.below(5)] += 1; }
        } else { for r in w.iter_mut() {
            match rng.below(4) {
                0 => { r[rng.below(5)] = 1; }                                    // uniform answer
                1 => { r[rng.below(5)] = 3; r[rng.below(5)] += 1; }              // mostly one answer
                _ => { for x in r.iter_mut() { *x = rng.below(4) as u8; } if r.iter().all(|x| *x == 0) { r[4] = 1; } }
            }
        } }
        let mut s = Spec { kind, seed: rng.next(), both: Role::Gen, left: Role::Gen, right: Role::Gen, strat: *rng.pick(&[Strat::Seq, Strat::Mid, Strat::Def, Strat::Par]), w, fixed: [None; 3], odd: Vec::new(), w2: [[0; 5]; 3], record: true };
        for i in 0..3 { if rng.chance(const_num, const_den) {
            let d = s.decide(i, 0);
            let d = if unanimous && rng.chance(3, 4) && d != Dec::New { d } else { s.random_const(rng, i) }; match i { 0 => s.both = Role::Const(d), 1 => s.left = Role::Const(d), _ => s.right = Role::Const(d) } } }
        s
    }
    pub fn random_const(&self, rng: &mut Rng, role: usize) -> Dec {
        match self.kind.style(role) {
            'j' => *rng.pick(&[Dec::Keep(Side::L), Dec::Keep(Side::R), Dec::Keep(Side::LR), Dec::Rem]),
            'l' => *rng.pick(&[Dec::Keep(Side::L), Dec::Rem]),
            'r' => *rng.pick(&[Dec::Keep(Side::R), Dec::Rem]),
            _ => Dec::Rem,
        }
    }
    /// What the role answers for a key, constant or not.
    pub fn decide(&self, role: usize, id: u32) -> Dec {
        if let Role::Const(d) = self.role(role) { return d; }
        if let Some(d) = self.fixed[role] { return d; }
        let w = if !self.odd.is_empty() && self.odd.binary_search(&id).is_ok() { &self.w2[role] } else { &self.w[role] };
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut p = mix3(self.seed, 1 + role as u64, id as u64) % tot.max(1);
        let mut i = 0;
        while i < 4 && p >= w[i] as u64 { p -= w[i] as u64; i += 1; }
        let d = [Dec::Keep(Side::L), Dec::Keep(Side::R), Dec::Keep(Side::LR), Dec::New, Dec::Rem][i];
        let st = self.kind.style(role);
        match (st, d) {
            ('j', Dec::New) if self.kind.is_set() => Dec::Keep(Side::LR),
            ('j', d) => d,
            ('m' | 'f', Dec::Rem) => Dec::Rem,
            ('m' | 'f', _) => Dec::New,
            (_, Dec::Rem) => Dec::Rem,
            (_, Dec::New) if !self.kind.is_set() => Dec::New,
            ('l', _) => Dec::Keep(Side::L),
            _ => Dec::Keep(Side::R),
        }
    }
    pub fn token(&self, role: usize, id: u32) -> R {
        if self.fixed[role].is_some() { return R::default(); }
        R::one(mix3(self.seed ^ 0x70, role as u64, id as u64))
    }
    pub fn new_val(&self, role: usize, id: u32) -> u32 { (mix3(self.seed ^ 0x76, role as u64, id as u64) & 0xffff) as u32 }
    pub fn new_vtag(&self, role: usize, id: u32) -> u64 { mix3(self.seed ^ 0x77, role as u64, id as u64) }
    pub fn new_ktag(&self, role: usize, id: u32) -> u64 { mix3(self.seed ^ 0x78, role as u64, id as u64) }

    pub fn brief(&self) -> String {
        let f = |i: usize| match self.role(i) { Role::Gen => match self.fixed[i] { Some(d) => format!("fn:{:?}", d), None => format!("fn{:?}", self.w[i]) }, Role::Const(d) => format!("const:{:?}", d) };
        format!("{} [both={} left={} right={}] {:?} opseed={:#x}{}", self.kind.name(), f(0), f(1), f(2), self.strat, self.seed, if self.odd.is_empty() { String::new() } else { format!(" but keys {:?} by {:?}", self.odd, self.w2) })
    }

    /// Predicts the result from the two input contents (sorted by id).
    pub fn expect(&self, l: &[Ent], r: &[Ent]) -> Expect {
        let joint = self.kind.joint();
        let set = self.kind.is_set();
        let mut out = Expect { ents: Vec::new(), red: R::default(), calls: Vec::new(), decs: 0 };
        let (mut i, mut j) = (0, 0);
        let none: &[Ent] = &[];
        let r = if joint { r } else { none };
        while i < l.len() || j < r.len() {
            let (a, b) = if i < l.len() && (j >= r.len() || l[i].id < r[j].id) { i += 1; (Some(&l[i - 1]), None) }
                else if j < r.len() && (i >= l.len() || r[j].id < l[i].id) { j += 1; (None, Some(&r[j - 1])) }
                else { i += 1; j += 1; (Some(&l[i - 1]), Some(&r[j - 1])) };
            let role = match (a, b) { (Some(_), Some(_)) => 0, (Some(_), None) => 1, _ => 2 };
            let id = a.or(b).unwrap().id;
            let d = self.decide(role, id);
            out.decs = mix3(out.decs, role as u64, match d { Dec::Keep(Side::L) => 1, Dec::Keep(Side::R) => 2, Dec::Keep(Side::LR) => 3, Dec::New => 4, Dec::Rem => 5 });
            if self.role(role) == Role::Gen { out.calls.push((role, a.cloned(), b.cloned())); out.red = out.red.add(&self.token(role, id)); }
            let st = self.kind.style(role);
            let e = match d {
                Dec::Rem => continue,
                Dec::New => {
                    let (val, vtag) = if set { (0, 0) } else { (self.new_val(role, id), self.new_vtag(role, id)) };
                    let ktags = match st {
                        'm' => vec![self.new_ktag(role, id)],
                        'j' => vec![a.unwrap().ktag, b.unwrap().ktag],
                        'l' => vec![a.unwrap().ktag],
                        'r' => vec![b.unwrap().ktag],
                        _ => vec![a.or(b).unwrap().ktag],
                    };
                    ExpEnt { id, ktags, vals: vec![(val, vtag)], places: vec![] }
                }
                Dec::Keep(s) => {
                    let src: Vec<&Ent> = match (s, a, b) {
                        (Side::LR, Some(a), Some(b)) => vec![a, b],
                        (Side::L, Some(a), _) | (_, Some(a), None) => vec![a],
                        (_, _, Some(b)) => vec![b],
                        _ => unreachable!(),
                    };
                    ExpEnt { id, ktags: src.iter().map(|e| e.ktag).collect(), vals: src.iter().map(|e| (e.val, e.vtag)).collect(), places: src.iter().map(|e| (e.ka, e.va)).collect() }
                }
            };
            out.ents.push(e);
        }
        out
    }
}

pub struct ExpEnt { pub id: u32, pub ktags: Vec<u64>, pub vals: Vec<(u32, u64)>, /* acceptable addresses when kept */ pub places: Vec<(usize, usize)> }
pub struct Expect { pub ents: Vec<ExpEnt>, pub red: R, pub calls: Vec<(usize, Option<Ent>, Option<Ent>)>, pub decs: u64 }

impl Expect {
    /// Entry-by-entry comparison with an observed content (any order).
    pub fn check_contents(&self, got: &[Ent]) -> Result<(), String> {
        let mut g: Vec<&Ent> = got.iter().collect();
        g.sort_by_key(|e| e.id);
        for w in g.windows(2) { if w[0].id == w[1].id { return Err(format!("key {} occurs more than once in the result", w[0].id)); } }
        let mut j = 0;
        for e in &self.ents {
            while j < g.len() && g[j].id < e.id { return Err(format!("key {} should not be in the result", g[j].id)); }
            if j >= g.len() || g[j].id != e.id { return Err(format!("key {} is missing from the result", e.id)); }
            let x = g[j]; j += 1;
            if !e.vals.contains(&(x.val, x.vtag)) { return Err(format!("key {} is bound to value {}(tag {:x}), expected one of {:x?}", e.id, x.val, x.vtag, e.vals)); }
            if !e.ktags.contains(&x.ktag) { return Err(format!("key {} is represented by key object {:x}, expected one of {:x?}", e.id, x.ktag, e.ktags)); }
            // value and key of a kept entry come from the same side
            if e.places.len() == 2 {
                let a = x.ktag == e.ktags[0] && (x.val, x.vtag) == e.vals[0];
                let b = x.ktag == e.ktags[1] && (x.val, x.vtag) == e.vals[1];
                if !a && !b { return Err(format!("key {} mixes the key of one side with the value of the other", e.id)); }
            }
        }
        if j < g.len() { return Err(format!("key {} should not be in the result", g[j].id)); }
        Ok(())
    }
    pub fn check_calls(&self, got: &[Call]) -> Result<(), String> {
        let names = ["both-operation", "left-operation", "right-operation"];
        let key = |c: (usize, &Option<Ent>, &Option<Ent>)| (c.0, c.1.as_ref().or(c.2.as_ref()).map(|e| e.id).unwrap_or(0));
        let mut exp: Vec<_> = self.calls.iter().map(|c| (c.0, &c.1, &c.2)).collect();
        let mut obs: Vec<_> = got.iter().map(|c| (c.role, &c.l, &c.r)).collect();
        exp.sort_by_key(|c| key(*c)); obs.sort_by_key(|c| key(*c));
        let (mut i, mut j) = (0, 0);
        while i < exp.len() || j < obs.len() {
            if j >= obs.len() || (i < exp.len() && key(exp[i]) < key(obs[j])) { let k = key(exp[i]); return Err(format!("{} was not called for key {}", names[k.0], k.1)); }
            if i >= exp.len() || key(obs[j]) < key(exp[i]) { let k = key(obs[j]); return Err(format!("{} was called for key {} once too often or without cause", names[k.0], k.1)); }
            let k = key(exp[i]);
            for (side, e, o) in [("left", exp[i].1, obs[j].1), ("right", exp[i].2, obs[j].2)] {
                match (e, o) { (Some(e), Some(o)) => if !e.same_content(o) { return Err(format!("{} for key {}: {} arguments were {}, expected {}", names[k.0], k.1, side, o.brief(), e.brief())); },
                    (None, None) => {}, _ => return Err(format!("{} for key {}: wrong number of arguments", names[k.0], k.1)) }
            }
            i += 1; j += 1;
        }
        Ok(())
    }
    /// Kept entries whose hash is unique must stay where they were. Returns how many were checked.
    pub fn check_places(&self, got: &[Ent], collided: &dyn Fn(u32) -> bool) -> Result<usize, String> {
        let mut n = 0;
        for e in &self.ents {
            if e.places.is_empty() || collided(e.id) { continue; }
            if let Some(x) = got.iter().find(|x| x.id == e.id) {
                n += 1;
                if !e.places.contains(&(x.ka, x.va)) { return Err(format!("entry {} was to be left unchanged but was moved or copied", e.id)); }
            }
        }
        Ok(n)
    }
}
impl Spec {
    pub fn both_code(&self, i: usize) -> u64 { match self.role(i) { Role::Gen => 0, Role::Const(Dec::Keep(Side::L)) => 1, Role::Const(Dec::Keep(Side::R)) => 2, Role::Const(Dec::Keep(Side::LR)) => 3, Role::Const(Dec::New) => 4, Role::Const(Dec::Rem) => 5 } }
}
