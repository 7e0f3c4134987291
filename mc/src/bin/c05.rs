//! C05: every sentence parses to its unique derivation tree (both parsers).
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/parse.rs"] mod parse;
use mc::engine::*;
use mc::gram::*;
use parse::*;
use serde_json::json;

fn fams(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for k in 1..=4 { v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, k)); }
    for k in 1..=3 { v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, k)); }
    for k in 1..=2 { v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, k)); }
    for k in 4..=5 { v.push(Family::new("4 rules, 1 terminal, rhs<=1", &[0, 1, 2, 3], &[2], 1, k)); }
    // the end marker inside productions
    for k in 1..=3 { v.push(Family::new("2 rules, the end marker and a terminal, rhs<=2", &[0, 1], &[1, 2], 2, k)); }
    for k in 1..=2 { v.push(Family::new("2 rules, both markers, rhs<=2", &[0, 1], &[0, 1], 2, k)); }
    if t.thorough() {
        v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, 3));
        v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, 4));
        v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, 5));
    }
    v
}
fn extra(t: Tier) -> Vec<(String, Cfg, usize)> {
    let mut v: Vec<(String, Cfg, usize)> = realistic().into_iter().map(|(n, g)| (n.to_string(), g, t.pick(8, 11))).collect();
    for g in adapt::scaled(t) { if g.nts.len() <= 30 && g.is_ll1() { let n = g.longest(); v.push((format!("scaled, {} rules, {} productions", g.nts.len(), g.prods.len()), g, t.pick(6, 9).max((n + 1).min(28)))); } }
    v
}
fn units(t: Tier) -> usize { fams(t).iter().map(|f| f.units()).sum::<usize>() + extra(t).len() + LISTS.len() + 1 + adapt::inflated(t).iter().map(|f| f.units()).sum::<usize>() }
/// One production of many symbols: 0 -> (t 1)^n ; 1 -> u | eps, with u in some places.
const FLAT: [usize; 14] = [1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 300];
fn flat(cx: &mut Ctx) -> Res {
    for n in FLAT {
        let g = Cfg { nts: vec![0, 1], ts: vec![2, 3], prods: vec![Prod { l: 0, r: (0..n).flat_map(|_| [Sym::T(2), Sym::N(1)]).collect() }, Prod { l: 1, r: vec![Sym::T(3)] }, Prod { l: 1, r: vec![] }] };
        let table = match real_table(&adapt::real(&g, &|_| false)) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": format!("0 -> (2 1)^{n}")}), e) };
        cx.states += 1;
        for pat in 0..5usize {
            let (mut w, mut ch) = (vec![], vec![]);
            for i in 0..n {
                ch.push(Tree::Leaf(w.len())); w.push(2);
                if [false, true, i % 2 == 0, i + 1 == n, i == 0][pat] { ch.push(Tree::Node(1, vec![Tree::Leaf(w.len())])); w.push(3); } else { ch.push(Tree::Node(1, vec![])); }
            }
            w.push(STOP);
            let full = Tree::Node(0, ch);
            let toks = tokens(&w);
            for anon in [0u32, 2] {
                let is_anon = |n: usize| anon >> n & 1 == 1;
                let name = |n: usize| if is_anon(n) { n.to_string() } else { adapt::rule_name(n) };
                let want = flatten(&full, &is_anon);
                for which in [Which::Generic, Which::V1] {
                    cx.begin()?;
                    cx.transitions += 1; cx.traces += 1;
                    let (got, printed) = run_parser(which, &g, anon, &table, toks.clone());
                    let bad = match &got {
                        Got::Panic(p) => Some(format!("panic: {p}")),
                        Got::Tree(_) if printed => Some("diagnostic printed".to_string()),
                        Got::Tree(r) => tree_diff(r, &want, &toks, &name),
                    };
                    if let Some(b) = bad { return cx.fail(format!("flat {n} {pat} {anon}"), json!({"productions": format!("0 -> (2 1)^{n}"), "pattern": pat, "anonymous": anon, "parser": format!("{which:?}")}), b); }
                }
            }
        }
    }
    Ok(())
}
const LISTS: [usize; 8] = [1, 2, 5, 29, 200, 600, 1500, 5000];

fn check(cx: &mut Ctx, g: &Cfg, maxlen: usize, cap: usize, anons: &[u32]) -> Res {
    let x = adapt::real(g, &|_| false);
    let table = match real_table(&x) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
    let (sents, complete) = sentences(g, maxlen, cap);
    if !complete { cx.count("sentence_enumeration_capped", 1); }
    cx.states += 1;
    for w in &sents {
        let ch = Chart::new(g, w);
        let Some(full) = ch.tree(0, 0, w.len()) else { panic!("sentence without derivation {w:?} {:?}", g.describe()) };
        for &anon in anons {
            let is_anon = |n: usize| anon >> g.ix(n) & 1 == 1;
            let want = flatten(&full, &is_anon);
            let mut tw = w.clone(); tw.push(STOP);
            let toks = tokens(&tw);
            let name = |n: usize| if is_anon(n) { n.to_string() } else { adapt::rule_name(n) };
            for which in [Which::Generic, Which::V1] {
                cx.begin()?;
                cx.transitions += 1; cx.traces += 1;
                let (gots, printed) = run_parser_twice(which, g, anon, &table, toks.clone());
                for got in &gots {
                let bad = match got {
                    Got::Panic(p) => Some(format!("panic on a sentence: {p}")),
                    Got::Tree(_) if printed => Some("diagnostic printed for a sentence".to_string()),
                    Got::Tree(r) => tree_diff(r, &want, &toks, &name).map(|d| format!("{d}; got {}, expected {}", show_real(r), show_tree(&want, &name))),
                };
                if let Some(b) = bad { return cx.fail(format!("{:?} {anon} {w:?}", g.prods), input_json(g, anon, which, &tw), b); }
                }
            }
            cx.max("sentence_length", w.len() as u64);
            if w.len() >= 3 { cx.sample(if anon == 0 { "named" } else { "spliced" }, || json!({"productions": g.describe(), "word": w, "tree": show_tree(&want, &name)})); }
        }
    }
    cx.outcome(match sents.len() { 0 => "grammars with no sentence in bound", 1 => "grammars with one sentence in bound", _ => "grammars with several sentences in bound" });
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    let t = cx.tier;
    for f in fams(t) {
        if u < f.units() {
            let n = f.nts.len();
            let anons: Vec<u32> = (0..1u32 << n).collect();
            let maxlen = if n == 2 { t.pick(5, 6) } else { t.pick(4, 5) };
            return f.for_unit(u, &mut |g| {
                if !g.prods.iter().any(|p| p.l == 0) { return Ok(()); }
                cx.count("grammars", 1);
                if !g.is_ll1() { return Ok(()); }
                cx.count("ll1_grammars", 1);
                check(cx, g, maxlen, 100_000, &anons)?;
                for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || check(cx, g, maxlen - 1, 100_000, &[0, (1 << n) - 2]))?; }
                for m in 1..adapt::NAMINGS { adapt::with_naming(m, || check(cx, g, maxlen - 2, 100_000, &[0, (1 << n) - 2, 2]))?; }
                for m in 1..STYLES.len() { with_style(m, || check(cx, g, maxlen - 2, 100_000, &[0, (1 << n) - 2]))?; }
                Ok(())
            });
        }
        u -= f.units();
    }
    let e = extra(t);
    if u < e.len() {
        let (_, g, maxlen) = &e[u];
        let n = g.nts.len();
        let anons: Vec<u32> = if n <= 6 { (0..1u32 << n).collect() } else { let all = (1u32 << n) - 1; let mut v = vec![0, all, all & 0x5555_5555, all & 0xAAAA_AAAA]; v.extend((0..n).map(|i| 1u32 << i)); v };
        check(cx, g, *maxlen, t.pick(300, 3000), &anons)?;
        for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || check(cx, g, *maxlen, t.pick(100, 1000), &anons[..anons.len().min(4)]))?; }
        for m in 1..adapt::NAMINGS { adapt::with_naming(m, || check(cx, g, *maxlen, t.pick(40, 400), &anons[..anons.len().min(4)]))?; }
        return Ok(());
    }
    if u > e.len() + LISTS.len() {
        let mut u = u - e.len() - LISTS.len() - 1;
        for f in adapt::inflated(t) {
            if u < f.units() {
                return f.for_unit(u, &mut |small| {
                    if !small.prods.iter().any(|p| p.l == 0) || !small.is_ll1() { return Ok(()); }
                    for how in 0..INFLATIONS.len() {
                        let g = small.inflate(how);
                        if !g.is_ll1() { continue; }
                        cx.count("ll1_grammars[inflated]", 1);
                        check(cx, &g, if how == 5 { 27 } else { 4 }, t.pick(30, 200), &[0, u32::MAX - 1])?;
                    }
                    Ok(())
                });
            }
            u -= f.units();
        }
        unreachable!()
    }
    // long lists through anonymous and named recursion: 0 -> 1 ; 1 -> t 2 1 | eps ; 2 -> u | eps
    if u - e.len() == LISTS.len() { return flat(cx); }
    let n = LISTS[u - e.len()];
    let g = Cfg { nts: vec![0, 1, 2], ts: vec![2, 3], prods: vec![
        Prod { l: 0, r: vec![Sym::N(1)] }, Prod { l: 1, r: vec![Sym::T(2), Sym::N(2), Sym::N(1)] }, Prod { l: 1, r: vec![] }, Prod { l: 2, r: vec![Sym::T(3)] }, Prod { l: 2, r: vec![] }] };
    let x = adapt::real(&g, &|_| false);
    let table = match real_table(&x) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
    cx.states += 1;
    for pat in 0..3usize {
        let mut w = vec![]; let mut items = vec![];
        for i in 0..n {
            let p = w.len(); w.push(2);
            if (i + pat) % 3 == 0 { w.push(3); items.push((p, Some(p + 1))); } else { items.push((p, None)); }
        }
        let mut list = Tree::Node(1, vec![]);
        for (a, b) in items.iter().rev() {
            list = Tree::Node(1, vec![Tree::Leaf(*a), Tree::Node(2, b.map(Tree::Leaf).into_iter().collect()), list]);
        }
        let full = Tree::Node(0, vec![list]);
        w.push(STOP);
        let toks = tokens(&w);
        for anon in 0..8u32 {
            let is_anon = |n: usize| anon >> n & 1 == 1;
            let want = flatten(&full, &is_anon);
            let name = |n: usize| if is_anon(n) { n.to_string() } else { adapt::rule_name(n) };
            for which in [Which::Generic, Which::V1] {
                cx.begin()?;
                cx.transitions += 1; cx.traces += 1;
                let (got, printed) = run_parser(which, &g, anon, &table, toks.clone());
                let bad = match &got {
                    Got::Panic(p) => Some(format!("panic: {p}")),
                    Got::Tree(_) if printed => Some("diagnostic printed".to_string()),
                    Got::Tree(r) => tree_diff(r, &want, &toks, &name),
                };
                if let Some(b) = bad { return cx.fail(format!("list {n} {anon}"), input_json(&g, anon, which, &w[..w.len().min(20)]), b); }
                cx.max("sentence_length", w.len() as u64);
            }
        }
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C05",
    rule: "Every LL(1) grammar among all k-subsets of all productions over a small symbol set, every choice of anonymous rules, every sentence up to a length; real analysis builds the table, both real parsers parse sentence+end marker twice; result compared node by node and token field by field with the reference derivation tree.",
    bounds: |t| json!({"rule_namings": adapt::NAMINGS, "tokens": STYLES, "inflations": INFLATIONS, "lists": LISTS, "flat_right_sides": FLAT, "families": fams(t).iter().map(|f| format!("{}, k={}", f.name, f.k)).collect::<Vec<_>>(), "sentence_length": t.pick("<=5 (2 rules), <=4 (3-4 rules)", "<=6 (2 rules), <=5 (3-4 rules)"), "larger_grammars": extra(t).iter().map(|e| e.0.clone()).collect::<std::collections::BTreeSet<_>>(), "list_lengths": LISTS, "numberings": "every grammar also with symbols renumbered far apart and in reverse, sentences one shorter"}),
    assumptions: &["grammars of the larger set cap the number of sentences at 300 (quick) / 3000 (thorough), counted in sentence_enumeration_capped"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
