//! C17: the printed form of a grammar, read back.
#[path = "../adapt/grammar.rs"] mod adapt;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::json;
use syntaxis::tool::grammar::Grammar;

/// Namings: plain; names that are prefixes of each other; names equal for both kinds; long names differing at the end only; punctuation; the digits of another symbol's number; words with a meaning elsewhere.
const NAMINGS: usize = 7;
fn name(scheme: usize, s: Sym) -> String { match (scheme, s) {
    (0, Sym::N(n)) => format!("r{n}"), (0, Sym::T(t)) => format!("T{t}"),
    (1, Sym::N(n)) => "r".repeat(n % 7 + 1) + &format!("_{n}"), (1, Sym::T(t)) => "T".repeat(t % 7 + 1) + &format!("_{t}"),
    (3, Sym::N(n)) => format!("{}{n}", "r".repeat(300)), (3, Sym::T(t)) => format!("{}{t}", "T".repeat(300)),
    (4, Sym::N(n)) => ["{}", "%s", "'r'", "\\n", "ε", "|", "_", "(r)"][n % 8].to_string() + &n.to_string(), (4, Sym::T(t)) => ["\"", "'+'", "{0}", "\\t", "$", "|", "A.B", "/*"][t % 8].to_string() + &t.to_string(),
    (5, Sym::N(n)) => if n < 2 { 1 - n } else { n + 1 }.to_string(), (5, Sym::T(t)) => (t - 1).to_string(),
    (6, s) => { let (w, i): (&[&str], usize) = match s { Sym::N(n) => (&["epsilon", "start", "_STOP", "error", "None", "empty", "rule", "Ε", "eps", "_START"], n), Sym::T(t) => (&["x", "y", "epsilon", "ε", "EPSILON", "$", "#", "λ", "end", "\u{3b5}\u{301}"], t) }; if i < 10 { w[i].into() } else { format!("{}{i}", w[i % 10]) } }
    (_, Sym::N(n)) => format!("字_{n}"), (_, Sym::T(t)) => format!("字_{t}"),
} }
/// terminals 0 and 1 come with the vocabulary
fn tname(scheme: usize, t: usize) -> String { match t { 0 => "_START".into(), 1 => "_STOP".into(), _ => name(scheme, Sym::T(t)) } }
fn build(g: &Cfg, anon: u32, scheme: usize) -> Grammar {
    let mut x = Grammar::new("g");
    for &t in &g.ts { if t > 1 { x.vocabulary.add_terminal(adapt::num_t(t), &name(scheme, Sym::T(t))); } }
    for (i, &n) in g.nts.iter().enumerate() { if anon >> (i % 32) & 1 == 1 { x.vocabulary.add_unnamed_nonterminal(adapt::num_n(n)); } else { x.vocabulary.add_named_nonterminal(adapt::num_n(n), &name(scheme, Sym::N(n))); } }
    adapt::fill(&mut x, g);
    x
}
/// (left, right) of each line
fn read_back(s: &str) -> Result<Vec<(String, Vec<String>)>, String> {
    let mut v = vec![];
    for line in s.lines() {
        let Some((l, r)) = line.split_once("->") else { return Err(format!("line {line:?} has no arrow")) };
        let Some(r) = r.trim_end().strip_suffix(';') else { return Err(format!("line {line:?} has no end")) };
        v.push((l.trim().to_string(), r.split_whitespace().map(String::from).collect()));
    }
    v.sort();
    Ok(v)
}
fn check(cx: &mut Ctx, g: &Cfg, anon: u32, scheme: usize) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1; cx.transitions += g.prods.iter().map(|p| 1 + p.r.len() as u64).sum::<u64>();
    let nm = |s: &Sym| match *s { Sym::T(t) => tname(scheme, t), Sym::N(n) => if anon >> (g.ix(n) % 32) & 1 == 1 { adapt::num_n(n).to_string() } else { name(scheme, Sym::N(n)) } };
    let mut want: Vec<(String, Vec<String>)> = g.prods.iter().map(|p| (nm(&Sym::N(p.l)), p.r.iter().map(nm).collect())).collect();
    want.sort();
    let x = build(g, anon, scheme);
    let (r, _) = guarded(|| (x.to_string(), format!("{x}")));
    let inp = json!({"productions": g.describe(), "anonymous_rules_mask": anon, "naming": scheme, "numbering": adapt::numbering()});
    let key = format!("{:?} {anon} {scheme}", g.prods);
    match r {
        Err(p) => cx.fail(key, inp, format!("panic: {p}")),
        Ok((a, b)) if a != b => cx.fail(key, inp, "printing the same grammar twice gives different texts"),
        Ok((a, _)) => match read_back(&a) {
            Ok(v) if v == want => { cx.outcome(&format!("{} productions", g.prods.len().min(5))); if g.prods.len() == 2 { cx.sample("printed", || json!(a)); } Ok(()) }
            Ok(v) => { let none = (String::new(), vec![]); let d = want.iter().zip(v.iter().chain(std::iter::repeat(&none))).find(|(w, g)| w != g); cx.fail(key, inp, format!("printed as {a:?}: {} lines for {} productions, first difference (expected, read back) {d:?}", v.len(), want.len())) }
            Err(e) => cx.fail(key, inp, e),
        },
    }
}
fn fams(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for k in 1..=2 { v.push(Family::new("rules 0,1,11; terminals 1,2,11", &[0, 1, 11], &[1, 2, 11], 2, k)); }
    v.push(Family::new("rules 1,11; terminals 0,1,2", &[1, 11], &[0, 1, 2], t.pick(4, 5), 1));
    v.push(Family::new("rules 0,1; terminals 2,3, pairs", &[0, 1], &[2, 3], 3, 2));
    v.push(Family::new("rules 0,1; terminals 2,3, triples", &[0, 1], &[2, 3], t.pick(1, 2), 3));
    if t.thorough() { v.push(Family::new("rules 0,1,11; terminals 1,2", &[0, 1, 11], &[1, 2], 2, 3)); }
    v
}
fn units(t: Tier) -> usize { fams(t).iter().map(|f| f.units()).sum::<usize>() + adapt::scaled(t).len() + 1 }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    for f in fams(cx.tier) {
        if u < f.units() { return f.for_unit(u, &mut |g| { for anon in 0..1u32 << g.nts.len() { for s in 0..NAMINGS { check(cx, g, anon, s)?; } for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || check(cx, g, anon, 0))?; } } Ok(()) }); }
        u -= f.units();
    }
    let sc = adapt::scaled(cx.tier);
    if u == sc.len() { return check(cx, &Cfg { nts: vec![0], ts: vec![2], prods: vec![] }, 0, 0); }
    for anon in [0, u32::MAX, 0x55555555, 0xAAAAAAAA, 0xF0F0F0F0] { for s in 0..NAMINGS { check(cx, &sc[u], anon, s)?; } for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || check(cx, &sc[u], anon, 0))?; } }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C17",
    rule: "Every grammar that is a k-subset of all productions over small symbol sets whose numbers overlap, with every subset of its rules anonymous and seven ways of naming symbols (equal names for a rule and a token, long names differing only at the end, punctuation, digits of another number), plus size-swept larger grammars; the printed form is read back and compared as a multiset of productions.",
    bounds: |t| json!({"families": fams(t).iter().map(|f| format!("{}: all {}-subsets of {} productions, every anonymity mask, {NAMINGS} namings", f.name, f.k, f.prods.len())).collect::<Vec<_>>(), "scaled": adapt::scaled(t).len()}),
    assumptions: &["names contain no white space, arrow or semicolon"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
