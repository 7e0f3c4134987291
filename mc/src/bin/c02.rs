//! C02: FIRST sets and nullability of the real analysis vs. the least solution, all small grammars x all orders.
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/huge.rs"] mod huge;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::json;

fn run(cx: &mut Ctx, unit: usize) -> Res {
    if unit < huge::units(cx.tier) { return huge::run(cx, 2, unit); }
    let unit = unit - huge::units(cx.tier);
    adapt::run_analysis(cx, unit, &mut |cx, g, s, x| {
        let (r, _) = guarded(|| x.first_set());
        let inp = || json!({"productions": g.describe(), "numbering": adapt::numbering(), "iteration_order": x.productions.iter().map(|p| adapt::unprod(p).show()).collect::<Vec<_>>()});
        let (first, pfirst) = match r { Ok(v) => v, Err(p) => return cx.fail(format!("{:?}", g.prods), inp(), format!("panic: {p}")) };
        let mut bad = None;
        if first.len() != g.nts.len() { bad = Some(format!("{} first sets for {} rules", first.len(), g.nts.len())); }
        for (i, nt) in g.nts.iter().enumerate() {
            match first.get(&adapt::num_n(*nt)) {
                None => bad = Some(format!("no first set for rule {nt}")),
                Some(c) => {
                    if c.allow_epsilon != s.nullable[i] { bad = Some(format!("rule {nt}: epsilon {} expected {}", c.allow_epsilon, s.nullable[i])); }
                    if adapt::mask_t(c.set.iter()) != s.first[i] { bad = Some(format!("rule {nt}: first {:?} expected {:?}", c.set, bits(s.first[i]).collect::<Vec<_>>())); }
                }
            }
        }
        if pfirst.len() != g.prods.len() { bad = Some(format!("{} production first sets for {} productions", pfirst.len(), g.prods.len())); }
        for (k, p) in g.prods.iter().enumerate() {
            match pfirst.get(&adapt::prod(p)) {
                None => bad = Some(format!("no first set for production {}", p.show())),
                Some(c) => {
                    if c.allow_epsilon != s.p_nullable[k] { bad = Some(format!("production {}: epsilon {} expected {}", p.show(), c.allow_epsilon, s.p_nullable[k])); }
                    if adapt::mask_t(c.set.iter()) != s.p_first[k] { bad = Some(format!("production {}: first {:?} expected {:?}", p.show(), c.set, bits(s.p_first[k]).collect::<Vec<_>>())); }
                }
            }
        }
        cx.outcome(&format!("nullable rules={}", s.nullable.iter().filter(|b| **b).count()));
        if g.prods.len() == 3 { cx.sample("3 productions", || json!({"productions": g.describe(), "numbering": adapt::numbering(), "first": s.first.iter().map(|m| bits(*m).collect::<Vec<_>>()).collect::<Vec<_>>(), "nullable": s.nullable})); }
        match bad { Some(b) => cx.fail(format!("{:?}", g.prods), inp(), b), None => Ok(()) }
    })
}

static DEF: CheckDef = CheckDef {
    id: "C02",
    rule: "Every grammar that is a k-subset of all productions over a small symbol set (rules and terminals sharing numbers), in every iteration order of the production set (provoked by interposed hash keys until all k! orders were seen), plus size-swept structured grammars; real first_set compared with the least solution of the FIRST equations.",
    bounds: |t| { let mut b = adapt::analysis_bounds(t); b["hundreds_of_symbols"] = huge::bounds(t); b },
    assumptions: &["larger grammars outside the swept shapes are not covered"],
    units: |t| huge::units(t) + adapt::analysis_units(t),
    run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
