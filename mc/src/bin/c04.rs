//! C04: LL(1) table and conflict diagnostics vs. the definition, all small grammars x all orders.
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/huge.rs"] mod huge;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;

fn run(cx: &mut Ctx, unit: usize) -> Res {
    if unit < huge::units(cx.tier) { return huge::run(cx, 4, unit); }
    let unit = unit - huge::units(cx.tier);
    adapt::run_analysis(cx, unit, &mut |cx, g, s, x| {
        let (want, conflict) = g.table(s);
        let (sets, _) = guarded(|| { let (first, pf) = x.first_set(); let fo = x.follow_set(&first); (pf, fo) });
        let inp = || json!({"productions": g.describe(), "numbering": adapt::numbering(), "iteration_order": x.productions.iter().map(|p| adapt::unprod(p).show()).collect::<Vec<_>>()});
        let (pf, fo) = match sets { Ok(v) => v, Err(p) => return cx.fail(format!("{:?}", g.prods), inp(), format!("panic: {p}")) };
        let (r, out) = guarded(|| x.ll1_table(&pf, &fo));
        let table = match r { Ok(v) => v, Err(p) => return cx.fail(format!("{:?}", g.prods), inp(), format!("panic: {p}")) };
        let mut bad = None;
        for ((nt, t), claims) in &want {
            match table.get(&(adapt::num_n(*nt), adapt::num_t(*t))) {
                None => bad = Some(format!("no entry for (rule {nt}, terminal {t}), expected one of {:?}", claims.iter().map(|k| g.prods[*k].show()).collect::<Vec<_>>())),
                Some(p) => { let q = adapt::unprod(p); if !claims.iter().any(|k| g.prods[*k] == q) { bad = Some(format!("entry (rule {nt}, terminal {t}) is {}, expected one of {:?}", q.show(), claims.iter().map(|k| g.prods[*k].show()).collect::<Vec<_>>())); } }
            }
        }
        if table.len() != want.len() { bad = Some(format!("{} entries, expected {}: {:?}", table.len(), want.len(), table.keys().filter(|k| !want.contains_key(&(adapt::mod_n(k.0), adapt::mod_t(k.1)))).collect::<Vec<_>>())); }
        let printed = !out.iter().all(|b| b.is_ascii_whitespace());
        if printed != conflict { bad = Some(format!("diagnostic printed: {printed}, conflict present: {conflict}")); }
        cx.outcome(if conflict { "conflict reported" } else { "LL(1)" });
        if g.prods.len() >= 3 { cx.sample(if conflict { "conflict" } else { "LL(1)" }, || json!({"productions": g.describe(), "entries": want.len()})); }
        match bad { Some(b) => cx.fail(format!("{:?}", g.prods), inp(), b), None => Ok(()) }
    })
}

static DEF: CheckDef = CheckDef {
    id: "C04",
    rule: "Every grammar that is a k-subset of all productions over a small symbol set, in every iteration order of the production set, plus size-swept structured grammars; real first_set/follow_set/ll1_table compared cell by cell with the definition, and captured output with the presence of a conflict.",
    bounds: |t| { let mut b = adapt::analysis_bounds(t); b["hundreds_of_symbols"] = huge::bounds(t); b },
    assumptions: &["any non-blank output of ll1_table counts as its diagnostic"],
    units: |t| huge::units(t) + adapt::analysis_units(t),
    run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
