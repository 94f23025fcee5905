// Program of one (hash width, branching width) configuration; `H` and `F` are defined by the includer in src/bin.
use hmon::{cx, spec, support};
use cx::*;
#[allow(dead_code)]
pub mod m { pub use super::{F, H}; include!("engine.rs"); include!("checks.rs"); include!("checks2.rs"); include!("script.rs"); include!("threads.rs"); include!("stack.rs"); include!("scale.rs"); include!("checks3.rs"); }

fn one_case(cx: &mut Cx) -> Res {
    use spec::Kind::*;
    use spec::Ty;
    let p = cx.prop.clone();
    m::disperse();
    let ty = *cx.rng.pick(&[Ty::MA, Ty::MA, Ty::MA, Ty::MAB, Ty::MB]);
    if cx.case < 8 && !cfg!(miri) && !cfg!(feature = "san") && (cx.case >= 4 || m::bits() > 8) && matches!(p.as_str(), "C01" | "C03" | "C17") { return m::huge(cx, if p == "C17" { Ty::SA } else { ty }); }
    match p.as_str() {
        "C01" => m::dictionary(cx, ty, false),
        "C02" => m::forest(cx, 'i'),
        "C03" => m::forest(cx, 's'),
        "C04" => m::bulk_contents(cx, &[T, T, ST]),
        "C05" => m::bulk_contents(cx, &[X, X, SX]),
        "C06" => m::bulk_contents(cx, &[TT, TT, STT]),
        "C07" => m::bulk_contents(cx, &[TM, TM, TMF, STM]),
        "C08" => m::bulk_contents(cx, &[MT, MT, MTF, SMT]),
        "C09" => m::bulk_contents(cx, &[MM, MM, SMM]),
        "C10" => m::bulk_reduction(cx),
        "C11" => m::bulk_strategies(cx),
        "C12" => m::forest(cx, 'd'),
        "C13" => m::threads(cx),
        "C14" => m::pointers(cx),
        "C15" => if cx.case % 2 == 0 { m::sharing_single(cx) } else { m::sharing_bulk(cx) },
        "C16" => m::forest(cx, 'e'),
        "C17" => if cx.case % 2 == 0 { m::dictionary(cx, Ty::SA, false) } else { m::bulk_contents(cx, &[ST, SX, STT, STT, STM, SMT, SMM]) },
        "C19" => m::faults(cx),
        "C20" => { let t = if cx.case % 2 == 0 { Ty::MA } else { Ty::SA }; m::dictionary(cx, t, true) }
        "C21" => m::bulk_calls(cx),
        "C22" => m::work(cx),
        "C24" => m::bulk_constants(cx),
        "C26" => m::futures(cx),
        "C27" => m::nested(cx),
        "C28" => m::formatting(cx),
        "C29" => m::memory(cx),
        "C30" => m::cheap(cx),
        "C31" => m::repeat(cx),
        _ => panic!("unknown property"),
    }
}

fn main() { let a: Vec<String> = std::env::args().collect(); if a.iter().any(|x| x == "--stack") { m::stack_main(&a) } if a.iter().any(|x| x == "--scale") { m::scale_main(&a) } hmon::drive::main_loop(one_case) }
