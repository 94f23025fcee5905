// Script runner of one (hash width, branching width) configuration (C23).
use hmon::{spec, support};
#[allow(dead_code)]
pub mod m { pub use super::{F, H}; include!("engine.rs"); include!("script.rs");
    pub fn run(w: &hmon::wide::WideCase, say: &mut dyn FnMut(String)) -> Vec<u64> {
        let base: Vec<Any> = [Ty::MA, Ty::MB, Ty::MAB, Ty::SA, Ty::SB].iter().map(|t| Any::empty(*t)).collect();
        script(&w.uni, w.seed, w.len, &base, w.ktags, say)
    }
}
fn main() { hmon::wide::wide_main(&format!("{}x{}", m::bits(), <F as hash_trie::traits::MaxOnes>::max_ones()), m::run) }
