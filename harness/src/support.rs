//! Tracked keys/values, counters, fault injection, PRNG, executor, hash-universe generation.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

// ---------------------------------------------------------------- counters
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BORN: AtomicI64 = AtomicI64::new(0);
pub static KCLONES: AtomicU64 = AtomicU64::new(0);
pub static VCLONES: AtomicU64 = AtomicU64::new(0);
pub static KCONVS: AtomicU64 = AtomicU64::new(0);
pub static VCONVS: AtomicU64 = AtomicU64::new(0);
pub static EQS: AtomicU64 = AtomicU64::new(0);
pub static HASHES: AtomicU64 = AtomicU64::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
pub static REDUCES: AtomicU64 = AtomicU64::new(0);
pub static FMTS: AtomicU64 = AtomicU64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static FUSE: AtomicI64 = AtomicI64::new(i64::MAX);
pub static BAD: AtomicBool = AtomicBool::new(false);
pub static BAD_MSG: Mutex<String> = Mutex::new(String::new());

pub struct Injected;
pub struct OverBudget;

pub fn bad(msg: String) {
    if !BAD.swap(true, Relaxed) {
        if let Ok(mut m) = BAD_MSG.lock() { *m = msg; }
    }
}
pub fn take_bad() -> Option<String> {
    if BAD.swap(false, Relaxed) { Some(std::mem::take(&mut *BAD_MSG.lock().unwrap_or_else(|e| e.into_inner()))) } else { None }
}

/// Every entry into user-supplied code passes here: logical step budget and fault injection.
#[inline]
pub fn tick(c: &AtomicU64) {
    c.fetch_add(1, Relaxed);
    let s = STEPS.fetch_add(1, Relaxed);
    if s >= STEP_LIMIT.load(Relaxed) && !std::thread::panicking() { std::panic::panic_any(OverBudget); }
    if CHAOS.load(Relaxed) != 0 { chaos(); }
    if NEST_ON.load(Relaxed) { nest(); }
    if FUSE.load(Relaxed) != i64::MAX && FUSE.fetch_sub(1, Relaxed) == 1 && !std::thread::panicking() {
        std::panic::panic_any(Injected);
    }
}

/// Injected delays: one entry into user code in CHAOS yields or spins.
pub static CHAOS: AtomicU64 = AtomicU64::new(0);
thread_local! { static CRNG: std::cell::Cell<u64> = std::cell::Cell::new(0x1234); }
pub fn chaos_seed(s: u64) { CRNG.with(|c| c.set(s)); }
#[cold]
fn chaos() {
    let x = CRNG.with(|c| { let x = mix(c.get()); c.set(x); x });
    let n = CHAOS.load(Relaxed);
    if n == 0 || x % n != 0 { return; }
    match (x >> 32) % 4 { 0 | 1 => std::thread::yield_now(), 2 => for _ in 0..(x >> 40) % 400 { std::hint::spin_loop(); }, _ => if !cfg!(miri) { std::thread::sleep(std::time::Duration::from_micros((x >> 40) % 60)) } }
}

/// Nested use: what the workload does from inside user code (see checks3.rs). Not nested further.
pub static NEST_ON: AtomicBool = AtomicBool::new(false);
thread_local! { pub static NEST: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) }; }
#[cold]
fn nest() {
    if std::thread::panicking() { return; }
    let f = NEST.try_with(|n| n.try_borrow_mut().ok().and_then(|mut n| n.take())).ok().flatten();
    if let Some(mut f) = f { f(); NEST.with(|n| *n.borrow_mut() = Some(f)); }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Counts { pub kclones: u64, pub vclones: u64, pub eqs: u64, pub hashes: u64, pub calls: u64, pub reduces: u64, pub steps: u64, pub allocs: u64 }
pub fn counts() -> Counts {
    Counts { kclones: KCLONES.load(Relaxed), vclones: VCLONES.load(Relaxed), eqs: EQS.load(Relaxed), hashes: HASHES.load(Relaxed), calls: CALLS.load(Relaxed), reduces: REDUCES.load(Relaxed), steps: STEPS.load(Relaxed), allocs: ALLOCS.load(Relaxed) }
}
impl Counts {
    pub fn since(self, b: Counts) -> Counts {
        Counts { kclones: self.kclones - b.kclones, vclones: self.vclones - b.vclones, eqs: self.eqs - b.eqs, hashes: self.hashes - b.hashes, calls: self.calls - b.calls, reduces: self.reduces - b.reduces, steps: self.steps - b.steps, allocs: self.allocs - b.allocs }
    }
}

// ---------------------------------------------------------------- allocator with a budget
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ALLOC_CAP: AtomicI64 = AtomicI64::new(i64::MAX);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        let b = ALLOC_BYTES.fetch_add(l.size() as i64, Relaxed);
        if b > ALLOC_CAP.load(Relaxed) { over_cap(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOC_BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let d = n as i64 - l.size() as i64;
        let b = ALLOC_BYTES.fetch_add(d, Relaxed);
        if d > 0 && b > ALLOC_CAP.load(Relaxed) { over_cap(); }
        System.realloc(p, l, n)
    }
}
/// Runaway allocation inside a monitored call: the journal (see main.rs) names the case; exit code 71.
fn over_cap() -> ! {
    ALLOC_CAP.store(i64::MAX, Relaxed);
    extern "C" { fn _exit(c: i32) -> !; }
    unsafe { _exit(71) }
}

// ---------------------------------------------------------------- tracked keys and values
const ALIVE: u64 = 0x5afe_c0de_a11f_e000;
const DEAD: u64 = 0xdead_dead_dead_0000;

pub struct TK<const T: u8> { pub id: u32, pub tag: u64, pub h: u128, canary: u64 }
pub struct TV<const T: u8> { pub val: u32, pub tag: u64, canary: u64 }

impl<const T: u8> TK<T> {
    pub fn new(id: u32, tag: u64, h: u128) -> Self {
        LIVE.fetch_add(1, Relaxed); BORN.fetch_add(1, Relaxed);
        TK { id, tag, h, canary: ALIVE ^ T as u64 }
    }
    #[inline]
    pub fn chk(&self) {
        if self.canary != ALIVE ^ T as u64 { bad(format!("a key that is not alive was read (canary {:#x})", self.canary)); }
    }
}
impl<const T: u8> TV<T> {
    pub fn new(val: u32, tag: u64) -> Self {
        LIVE.fetch_add(1, Relaxed); BORN.fetch_add(1, Relaxed);
        TV { val, tag, canary: ALIVE ^ 0x100 ^ T as u64 }
    }
    #[inline]
    pub fn chk(&self) {
        if self.canary != ALIVE ^ 0x100 ^ T as u64 { bad(format!("a value that is not alive was read (canary {:#x})", self.canary)); }
    }
}
impl<const T: u8> Drop for TK<T> {
    fn drop(&mut self) {
        if self.canary != ALIVE ^ T as u64 { bad(format!("a key was dropped twice or never initialised (canary {:#x})", self.canary)); }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD); }
        LIVE.fetch_sub(1, Relaxed);
        if NEST_ON.load(Relaxed) { nest(); }
    }
}
impl<const T: u8> Drop for TV<T> {
    fn drop(&mut self) {
        if self.canary != ALIVE ^ 0x100 ^ T as u64 { bad(format!("a value was dropped twice or never initialised (canary {:#x})", self.canary)); }
        unsafe { std::ptr::write_volatile(&mut self.canary, DEAD); }
        LIVE.fetch_sub(1, Relaxed);
        if NEST_ON.load(Relaxed) { nest(); }
    }
}
impl<const T: u8> Clone for TK<T> { fn clone(&self) -> Self { self.chk(); tick(&KCLONES); TK::new(self.id, self.tag, self.h) } }
impl<const T: u8> Clone for TV<T> { fn clone(&self) -> Self { self.chk(); tick(&VCLONES); TV::new(self.val, self.tag) } }
impl<const T: u8> std::fmt::Debug for TK<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.chk(); tick(&FMTS); write!(f, "K{}:{:x};", self.id, self.tag) } }
impl<const T: u8> std::fmt::Debug for TV<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.chk(); tick(&FMTS); write!(f, "V{}:{:x};", self.val, self.tag) } }
impl<const A: u8, const B: u8> PartialEq<TK<B>> for TK<A> {
    fn eq(&self, o: &TK<B>) -> bool { self.chk(); o.chk(); tick(&EQS); self.id == o.id }
}
impl<const A: u8> Eq for TK<A> {}
impl<const A: u8> std::hash::Hash for TK<A> { fn hash<S: std::hash::Hasher>(&self, s: &mut S) { self.chk(); tick(&HASHES); s.write_u64(self.h as u64) } }
macro_rules! look_alike { ($($a:literal $b:literal),*) => { $(
    impl hash_trie::traits::HashLike<TK<$a>> for TK<$b> {}
    impl hash_trie::traits::HashLike<TK<$b>> for TK<$a> {}
)* } }
look_alike!(0 1, 0 2, 1 2, 0 3, 1 3, 2 3);
macro_rules! conv { ($($a:literal)*) => { $( impl From<TK<3>> for TK<$a> { fn from(o: TK<3>) -> Self { o.chk(); KCONVS.fetch_add(1, Relaxed); TK::new(o.id, o.tag, o.h) } }
    impl From<TV<3>> for TV<$a> { fn from(o: TV<3>) -> Self { o.chk(); VCONVS.fetch_add(1, Relaxed); TV::new(o.val, o.tag) } } )* } }
conv!(0 1 2);

/// A hasher returning the hash word chosen by the workload.
#[derive(Clone, Debug, Default)]
pub struct Hx;
macro_rules! hx { ($($t:ty)*) => { $( impl<const A: u8> hash_trie::traits::HasherBv<$t, TK<A>> for Hx { fn hash(&self, k: &TK<A>) -> $t { k.chk(); tick(&HASHES); k.h as $t } } )* } }
hx!(u8 u16 u32 u64 u128 usize);

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.rotate_left(17)) }
pub fn mix3(a: u64, b: u64, c: u64) -> u64 { mix2(mix2(a, b), c) }
impl Rng {
    pub fn new(s: u64) -> Self { Rng(mix(s)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

// ---------------------------------------------------------------- hash universes
/// Hash word of every key id of one case.
#[derive(Clone)]
pub struct Uni { pub h: Vec<u128>, pub mode: usize, pub bits: usize, pub logb: usize, /* slots sharing a prefix, each of groups of equal hashes, each of ids */ pub slots: Vec<Vec<Vec<u32>>> }
pub fn maskw(bits: usize) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }
impl Uni {
    pub fn gen(rng: &mut Rng, n: usize, bits: usize, logb: usize) -> Uni {
        let mode = [0, 1, 2, 3, 4, 5, 6, 6, 6, 6, 7, 8, 9, 9, 9, 9][rng.below(16)];
        Self::gen_mode(rng, n, bits, logb, mode)
    }
    /// Slots sharing a prefix: two collections drawing different groups of one slot meet there with different hashes.
    fn gen_slots(rng: &mut Rng, n: usize, bits: usize, logb: usize) -> Uni {
        let levels = (bits + logb - 1) / logb;
        let mut h = vec![0u128; n];
        let mut slots: Vec<Vec<Vec<u32>>> = Vec::new();
        let mut next = 0usize;
        let mut last = rng.u128() & maskw(bits);
        while next < n {
            // a prefix of d levels: fresh or sharing a shorter one with the previous slot
            let d = match rng.below(4) { 0 | 1 => 1, 2 => rng.range(1, 3.min(levels - 1).max(1)), _ => rng.range(1, (levels - 1).max(1)) };
            let low = maskw((d * logb).min(bits));
            let keep = if rng.chance(1, 3) { maskw((rng.below(d) * logb).min(bits)) } else { 0 };
            let pre = ((last & keep) | (rng.u128() & !keep)) & low;
            last = pre;
            let mut slot = Vec::new();
            let style = rng.below(3);
            let rest = rng.u128();
            for _ in 0..rng.range(1, 3) {
                if next >= n { break; }
                // the groups differ anywhere above, in the very next level, or only in the last level
                let up = match style { 0 => rng.u128(), 1 => rest ^ ((rng.u128() & maskw(logb)) << (d * logb).min(127)), _ => { let sh = ((levels - 1) * logb).min(127); rest ^ (rng.u128() >> sh << sh) } };
                let x = (pre | (up & !low)) & maskw(bits);
                let k = [1, 1, 2, 2, 2, 3, 4][rng.below(7)].min(n - next);
                let mut g = Vec::new();
                for _ in 0..k { h[next] = x; g.push(next as u32); next += 1; }
                slot.push(g);
            }
            slots.push(slot);
        }
        Uni { h, mode: 9, bits, logb, slots }
    }
    /// The same ids, but other groups in one slot (or two).
    pub fn swap_group(&self, rng: &mut Rng, ids: &[u32]) -> Vec<u32> {
        let mut out: Vec<u32> = ids.to_vec();
        for _ in 0..rng.range(1, 2) {
            let s = rng.pick(&self.slots);
            let g = rng.pick(s);
            let part: Vec<u32> = if rng.chance(3, 4) { g.clone() } else { vec![*rng.pick(g)] };
            out.retain(|x| !s.iter().any(|g| g.contains(x)));
            out.extend(part);
        }
        out.sort(); out
    }
    /// Which ids a collection holds. Groups of equal hashes are taken whole, in part or not at all.
    pub fn choose(&self, rng: &mut Rng) -> Vec<u32> {
        let part = |rng: &mut Rng, g: &[u32]| -> Vec<u32> { match rng.below(4) { 0 => vec![*rng.pick(g)], 1 => g.iter().copied().filter(|_| rng.chance(1, 2)).collect(), _ => g.to_vec() } };
        let mut out = Vec::new();
        if !self.slots.is_empty() {
            for s in &self.slots { match rng.below(8) { 0 => {}, 1 => for g in s { let p = part(rng, g); out.extend(p); }, 2 => { let v: Vec<u32> = s.iter().flatten().copied().filter(|_| rng.chance(1, 2)).collect(); out.extend(v); } _ => { let g = rng.below(s.len()); let p = part(rng, &s[g]); out.extend(p); } } }
        } else {
            let mut g: std::collections::BTreeMap<u128, Vec<u32>> = Default::default();
            for i in 0..self.n() as u32 { g.entry(self.eff(i)).or_default().push(i); }
            for v in g.values() { if rng.chance(1, 2) { let p = part(rng, v); out.extend(p); } }
        }
        out.sort(); out
    }
    /// A random word, now and then one of the extremes.
    fn word(rng: &mut Rng, bits: usize) -> u128 {
        if !rng.chance(1, 12) { return rng.u128(); }
        [0, !0, 1, 1 << (bits - 1), maskw(bits / 2), !maskw(bits / 2), !0 << 1, !(1 << (bits - 1))][rng.below(8)]
    }
    pub fn gen_mode(rng: &mut Rng, n: usize, bits: usize, logb: usize, mode: usize) -> Uni {
        if mode == 9 { return Self::gen_slots(rng, n, bits, logb); }
        let levels = (bits + logb - 1) / logb;
        let slice = |l: usize| -> u128 { (maskw(logb) << (l * logb)) & maskw(bits) };
        let base = Self::word(rng, bits);
        let groups: Vec<u128> = (0..rng.range(1, 4)).map(|_| Self::word(rng, bits)).collect();
        let lvl = if mode == 10 { [0, 0, 1, levels - 1, levels.saturating_sub(2)][rng.below(5)].min(levels - 1) } else { rng.below(levels) };
        let (mul, off) = (rng.u128() | 1, rng.u128());
        let mut h: Vec<u128> = Vec::with_capacity(n);
        for i in 0..n {
            let x = match mode {
                0 => Self::word(rng, bits),
                1 => base,
                2 => groups[rng.below(groups.len())],
                // same everywhere but one level
                3 => base ^ (rng.u128() & slice(lvl)),
                // same everywhere but the last (possibly partial) level
                4 => base ^ (rng.u128() & slice(levels - 1)),
                5 => i as u128,
                // tree-like: copy an earlier hash, possibly altered at one level, or fresh
                6 => if h.is_empty() || rng.chance(1, 6) { Self::word(rng, bits) } else {
                    let p = h[rng.below(h.len())];
                    if rng.chance(2, 5) { p } else { p ^ (rng.u128() & slice(if rng.chance(1, 3) { levels - 1 } else if rng.chance(1, 2) { rng.below(2.min(levels)) } else { rng.below(levels) })) }
                },
                // two neighbouring children at one level, with collisions
                7 => base ^ ((rng.next() as u128 & 1) << (lvl * logb)),
                // nearly every child of one branch
                10 => { let i = (i as u128).wrapping_mul(mul).wrapping_add(off); (base & !slice(lvl)) ^ ((i << (lvl * logb)) & slice(lvl)) ^ (if rng.chance(1, 6) { slice(rng.below(levels)) & rng.u128() & !slice(lvl) } else { 0 }) }
                // few distinct slices at each of the first levels
                _ => { let mut v = base; for l in 0..levels.min(3) { if rng.chance(1, 3) { v ^= (1u128 << (l * logb)) & maskw(bits); } } v }
            };
            h.push(x & maskw(bits));
        }
        Uni { h, mode, bits, logb, slots: Vec::new() }
    }
    pub fn n(&self) -> usize { self.h.len() }
    pub fn key<const T: u8>(&self, id: u32, tag: u64) -> TK<T> { TK::new(id, tag, self.h[id as usize]) }
    pub fn eff(&self, id: u32) -> u128 { self.h[id as usize] & maskw(self.bits) }
    pub fn group(&self, id: u32, among: impl Iterator<Item = u32>) -> usize { let e = self.eff(id); among.filter(|x| self.eff(*x) == e).count() }
    /// Where a key meets a (canonical) trie over `ids`: kind of node at the end of its path, depth and group size.
    pub fn situation(&self, ids: impl Iterator<Item = u32>, id: u32) -> (char, usize, usize) {
        let e = self.eff(id);
        let mut cur: Vec<u128> = ids.map(|i| self.eff(i)).collect();
        let mut depth = 0;
        loop {
            if cur.is_empty() { return ('-', depth, 0); }
            if depth > 0 && cur.iter().all(|x| *x == cur[0]) { return (if cur[0] != e { if cur.len() == 1 { 's' } else { 'l' } } else if cur.len() == 1 { 'S' } else { 'L' }, depth, cur.len()); }
            if depth * self.logb >= self.bits { return ('?', depth, cur.len()); }
            let sl = |x: u128| (x >> (depth * self.logb)) & maskw(self.logb);
            cur.retain(|x| sl(*x) == sl(e));
            depth += 1;
        }
    }
    pub fn desc(&self) -> String { format!("hashes[{}]", self.h.iter().enumerate().map(|(i, h)| format!("{}:{:#x}", i, h)).collect::<Vec<_>>().join(" ")) }

    /// Structural signature of the pair of canonical tries over the given ids; also the set of node-kind pairs met.
    pub fn pair_sig(&self, l: &[u32], r: &[u32], pairs: &mut std::collections::BTreeMap<String, u64>) -> u64 {
        let lh: Vec<u128> = l.iter().map(|i| self.eff(*i)).collect();
        let rh: Vec<u128> = r.iter().map(|i| self.eff(*i)).collect();
        self.sig_rec(&lh, &rh, 0, pairs)
    }
    fn kind(v: &[u128], root: bool) -> char {
        if root { return 'C'; }
        match v.len() { 0 => '-', 1 => 'S', _ => if v.iter().all(|x| *x == v[0]) { 'L' } else { 'C' } }
    }
    fn sig_rec(&self, l: &[u128], r: &[u128], depth: usize, pairs: &mut std::collections::BTreeMap<String, u64>) -> u64 {
        let (kl, kr) = (Self::kind(l, depth == 0), Self::kind(r, depth == 0));
        if kl == '-' && kr == '-' { return 0; }
        *pairs.entry(format!("{}{}", kl, kr)).or_insert(0) += 1;
        let same = match (l.first(), r.first()) { (Some(a), Some(b)) if kl != 'C' && kr != 'C' => 1 + (a == b) as u64, _ => 0 };
        let mut s = mix3(kl as u64, kr as u64, same);
        s = mix3(s, l.len().min(6) as u64 * if kl == 'C' { 0 } else { 1 }, r.len().min(6) as u64 * if kr == 'C' { 0 } else { 1 });
        if depth * self.logb < self.bits && (kl == 'C' || kr == 'C') {
            let f = |v: &[u128], b: u128| v.iter().copied().filter(|x| (x >> (depth * self.logb)) & maskw(self.logb) == b).collect::<Vec<_>>();
            let mut bs: Vec<u128> = l.iter().chain(r.iter()).map(|x| (x >> (depth * self.logb)) & maskw(self.logb)).collect();
            bs.sort(); bs.dedup();
            for b in bs { let c = self.sig_rec(&f(l, b), &f(r, b), depth + 1, pairs); s = mix2(s, c); }
        }
        s
    }
}

// ---------------------------------------------------------------- executor
/// How the next futures are driven (see checks3.rs). 0: to completion; 1: dropped unpolled; 2: dropped when first pending;
/// 3: `BETWEEN` runs before every poll; 4: another waker for every poll.
pub static POLL: AtomicU64 = AtomicU64::new(0);
pub static PENDINGS: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static BETWEEN: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) }; }
thread_local! { pub static AT_CREATION: std::cell::Cell<Counts> = const { std::cell::Cell::new(Counts { kclones: 0, vclones: 0, eqs: 0, hashes: 0, calls: 0, reduces: 0, steps: 0, allocs: 0 }) }; }
pub struct Abandoned;
fn between() {
    let f = BETWEEN.with(|n| n.borrow_mut().take());
    if let Some(mut f) = f { let p = POLL.swap(0, Relaxed); f(); POLL.store(p, Relaxed); BETWEEN.with(|n| *n.borrow_mut() = Some(f)); }
}
/// Polls to completion; a pending future is re-polled only after a wake-up.
pub fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    struct W(Mutex<bool>);
    impl Wake for W { fn wake(self: Arc<Self>) { *self.0.lock().unwrap() = true; } }
    let mode = POLL.load(Relaxed);
    if mode != 0 { AT_CREATION.with(|c| c.set(counts())); }
    if mode == 1 { drop(f); std::panic::panic_any(Abandoned); }
    let mut w = Arc::new(W(Mutex::new(false)));
    let mut f = Box::pin(f);
    loop {
        if mode == 3 { between(); }
        if mode == 4 { w = Arc::new(W(Mutex::new(false))); }
        let waker: Waker = w.clone().into();
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(v) => return v,
            Poll::Pending if mode == 2 => { PENDINGS.fetch_add(1, Relaxed); drop(f); std::panic::panic_any(Abandoned); }
            // Nothing but this thread could wake the future: without a wake-up it never completes.
            Poll::Pending => { PENDINGS.fetch_add(1, Relaxed); let mut g = w.0.lock().unwrap(); if !*g { drop(g); panic!("the returned future is pending and nothing will wake it"); } *g = false; }
        }
    }
}

// ---------------------------------------------------------------- reduction monoid
/// Commutative monoid with identity `default`: wrapping sum of unique random tokens plus their number.
/// `shape` is beside it: a digest of the expression that was evaluated, for the check of repeatability alone.
#[derive(Clone, Debug, Default)]
pub struct R { pub sum: u64, pub sq: u64, pub n: u64, pub shape: u64 }
impl PartialEq for R { fn eq(&self, o: &R) -> bool { (self.sum, self.sq, self.n) == (o.sum, o.sq, o.n) } }
impl R {
    pub fn one(tok: u64) -> R { R { sum: tok, sq: mix(tok), n: 1, shape: tok } }
    pub fn add(&self, o: &R) -> R { R { sum: self.sum.wrapping_add(o.sum), sq: self.sq.wrapping_add(o.sq), n: self.n.wrapping_add(o.n), shape: mix3(self.shape, 77, o.shape) } }
}
