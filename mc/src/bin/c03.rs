//! C03: FOLLOW sets of the real analysis vs. the least solution, all small grammars x all orders.
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/huge.rs"] mod huge;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::json;

fn run(cx: &mut Ctx, unit: usize) -> Res {
    if unit < huge::units(cx.tier) { return huge::run(cx, 3, unit); }
    let unit = unit - huge::units(cx.tier);
    adapt::run_analysis(cx, unit, &mut |cx, g, s, x| {
        let (r, _) = guarded(|| { let (first, _) = x.first_set(); x.follow_set(&first) });
        let inp = || json!({"productions": g.describe(), "numbering": adapt::numbering(), "iteration_order": x.productions.iter().map(|p| adapt::unprod(p).show()).collect::<Vec<_>>()});
        let follow = match r { Ok(v) => v, Err(p) => return cx.fail(format!("{:?}", g.prods), inp(), format!("panic: {p}")) };
        let mut bad = None;
        if follow.len() != g.nts.len() { bad = Some(format!("{} follow sets for {} rules", follow.len(), g.nts.len())); }
        for (i, nt) in g.nts.iter().enumerate() {
            match follow.get(&adapt::num_n(*nt)) {
                None => bad = Some(format!("no follow set for rule {nt}")),
                Some(c) => if adapt::mask_t(c.iter()) != s.follow[i] { bad = Some(format!("rule {nt}: follow {:?} expected {:?}", c, bits(s.follow[i]).collect::<Vec<_>>())); }
            }
        }
        cx.outcome(&format!("end marker follows {} rules", s.follow.iter().filter(|m| **m >> STOP & 1 == 1).count()));
        if g.prods.len() == 3 && s.follow.len() > 1 && s.follow[1].count_ones() > 1 {
            cx.sample("3 productions", || json!({"productions": g.describe(), "numbering": adapt::numbering(), "follow": s.follow.iter().map(|m| bits(*m).collect::<Vec<_>>()).collect::<Vec<_>>()}));
        }
        match bad { Some(b) => cx.fail(format!("{:?}", g.prods), inp(), b), None => Ok(()) }
    })
}

static DEF: CheckDef = CheckDef {
    id: "C03",
    rule: "Every grammar that is a k-subset of all productions over a small symbol set, in every iteration order of the production set, plus size-swept structured grammars; real first_set then follow_set compared with the least solution of the FOLLOW equations.",
    bounds: |t| { let mut b = adapt::analysis_bounds(t); b["hundreds_of_symbols"] = huge::bounds(t); b },
    assumptions: &["larger grammars outside the swept shapes are not covered"],
    units: |t| huge::units(t) + adapt::analysis_units(t),
    run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
