//! C18: the whole way from description to trees, repeated under other hash seeds and after other work.
#[path = "../adapt/desc.rs"] mod desc;
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/parse.rs"] mod parse;
use desc::*;
use mc::ebnf::*;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::{guarded, seed_thread};
use parse::show_real;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syntaxis::tool::serde_ast;

/// Everything observable, with containers put into a fixed order.
#[derive(PartialEq, Eq, Clone, Debug, Default)]
struct Snap {
    failed: bool,
    terminals: BTreeMap<usize, Option<String>>, rules: BTreeMap<usize, Option<String>>,
    counts: (usize, usize, usize),
    data: Vec<(usize, String, String)>,
    reported: Vec<String>,
    prods: BTreeSet<Prod>,
    printed: BTreeSet<String>,
    first: BTreeMap<usize, (bool, BTreeSet<usize>)>, pfirst: BTreeMap<Prod, (bool, BTreeSet<usize>)>, follow: BTreeMap<usize, BTreeSet<usize>>,
    conflict: bool,
    table: BTreeMap<(usize, usize), Option<Prod>>,
    trees: Vec<String>,
}
/// One complete run. `ws`: token strings to parse (as real token numbers without the end marker).
fn run_all(json_text: &str, ws: &[Vec<usize>]) -> Snap {
    let mut s = Snap::default();
    let (a, _) = guarded(|| serde_ast::from_str(json_text));
    let Ok(Ok(ast)) = a else { s.failed = true; return s };
    let (p, out) = pipeline(&ast);
    let mut rep: Vec<String> = String::from_utf8_lossy(&out).lines().map(String::from).collect(); rep.sort();
    s.reported = rep;
    let Ok(p) = p else { s.failed = true; return s };
    let g = p.grammar;
    s.terminals = g.vocabulary.get_all_terminals().iter().map(|t| (*t, g.vocabulary.get_terminal_name_by_id(*t))).collect();
    s.rules = g.vocabulary.get_all_nonterminals().iter().map(|t| (*t, g.vocabulary.get_nonterminal_name_by_id(*t))).collect();
    s.counts = (p.token_cnt, p.rule_cnt, p.next_rule);
    s.data = p.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect();
    s.prods = g.productions.iter().map(adapt::unprod).collect();
    s.printed = g.to_string().lines().map(String::from).collect();
    let (r, out) = guarded(|| { let (f, pf) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&pf, &fo); (f, pf, fo, t) });
    s.conflict = !out.iter().all(|b| b.is_ascii_whitespace());
    let Ok((f, pf, fo, t)) = r else { s.failed = true; return s };
    macro_rules! col { ($c:expr) => { ($c.allow_epsilon, $c.set.iter().copied().collect::<BTreeSet<usize>>()) }; }
    s.first = f.iter().map(|(k, c)| (*k, col!(c))).collect();
    s.pfirst = pf.iter().map(|(k, c)| (adapt::unprod(k), col!(c))).collect();
    s.follow = fo.iter().map(|(k, c)| (*k, c.iter().copied().collect())).collect();
    // a contested entry may hold any of its claims
    let claim = |l: usize, x: usize| s.prods.iter().filter(|q| q.l == l && s.pfirst.get(*q).is_some_and(|(e, fs)| fs.contains(&x) || (*e && s.follow.get(&l).is_some_and(|c| c.contains(&x))))).count();
    s.table = t.iter().map(|((l, x), q)| ((*l, *x), if claim(*l, *x) > 1 { None } else { Some(adapt::unprod(q)) })).collect();
    if !s.conflict {
        let mut hold = Some((g, t));
        for w in ws {
            let (g, t) = hold.take().unwrap();
            let mut tw = w.clone(); tw.push(STOP);
            let mut parser = syntaxis::tool::parser::ll1_parser::LL1Parser::new(parse::tokens(&tw), t, g);
            let (r, out) = guarded(|| parser.parse());
            let ok = out.iter().all(|b| b.is_ascii_whitespace());
            s.trees.push(match r { Ok(x) if ok => show_real(&x), Ok(_) => "reported".into(), Err(_) => "panic".into() });
            hold = Some((std::mem::replace(&mut parser.grammar, syntaxis::tool::grammar::Grammar::new("")), std::mem::take(&mut parser.table)));
        }
    }
    s
}
/// On a thread of its own, i.e. with hash keys of its own, after `before`.
fn on_thread(seed: u64, before: &[&str], text: &str, ws: &[Vec<usize>], reps: usize) -> Vec<Snap> {
    std::thread::scope(|sc| sc.spawn(|| {
        seed_thread(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xABCDEF);
        for b in before { run_all(b, &[vec![2], vec![]]); }
        (0..reps).map(|_| run_all(text, ws)).collect()
    }).join().expect("harness thread"))
}
/// Descriptions processed beforehand: same names with other meanings, conflicts, failures.
fn histories() -> Vec<String> {
    let e = |a: Atom, suf: Suf| Elem { atom: a, suf, lazy: false };
    let ds = [
        Desc { tokens: 2, rules: 1, defs: vec![(0, vec![vec![e(Atom::Tok(0), Suf::Star), e(Atom::Tok(1), Suf::Quest)]])] },
        Desc { tokens: 4, rules: 3, defs: vec![(2, vec![vec![e(Atom::Rule(1), Suf::Plus)]]), (1, vec![vec![e(Atom::Tok(3), Suf::None)], vec![]]), (0, vec![vec![e(Atom::Block(vec![vec![e(Atom::Tok(0), Suf::None)], vec![e(Atom::Tok(1), Suf::None)]]), Suf::Star)]])] },
        Desc { tokens: 1, rules: 1, defs: vec![(0, vec![vec![e(Atom::Rule(0), Suf::None)], vec![e(Atom::Tok(0), Suf::None)], vec![e(Atom::Tok(0), Suf::Star)]])] },
        // refers to a token that is not defined
        Desc { tokens: 1, rules: 1, defs: vec![(0, vec![vec![e(Atom::Tok(0), Suf::Star), e(Atom::Tok(3), Suf::Star)]])] },
    ];
    ds.iter().map(|d| ast_json(&desc_ast(d)).to_string()).chain(["{".to_string()]).collect()
}
/// Descriptions much like this one, processed beforehand: the same shape with other symbols, suffixes, orders, counts.
fn variants(d: &Desc) -> Vec<Desc> {
    fn map(b: &Block, f: &dyn Fn(&Elem) -> Elem) -> Block { b.iter().map(|a| a.iter().map(|e| { let mut x = f(e); if let Atom::Block(y) = &e.atom { x.atom = Atom::Block(map(y, f)); } x }).collect()).collect() }
    let with = |f: &dyn Fn(&Elem) -> Elem| Desc { defs: d.defs.iter().map(|(n, b)| (*n, map(b, f))).collect(), ..d.clone() };
    let bodies = |f: &dyn Fn(&Block) -> Block| Desc { defs: d.defs.iter().map(|(n, b)| (*n, f(b))).collect(), ..d.clone() };
    let mut v = vec![
        with(&|e| { let mut x = e.clone(); if let Atom::Tok(t) = x.atom { x.atom = Atom::Tok(if d.tokens > 1 { (t + 1) % d.tokens } else { t }); } x }),
        with(&|e| { let mut x = e.clone(); x.suf = match x.suf { Suf::None => Suf::Star, Suf::Star => Suf::Plus, Suf::Plus => Suf::Quest, Suf::Quest => Suf::None }; x }),
        with(&|e| { let mut x = e.clone(); if x.suf == Suf::Star { x.suf = Suf::Plus } else if x.suf == Suf::Plus { x.suf = Suf::Star } x }),
        with(&|e| { let mut x = e.clone(); if x.suf != Suf::None { x.lazy = !x.lazy } x }),
        with(&|e| { let mut x = e.clone(); if let Atom::Rule(r) = x.atom { x.atom = if r < d.tokens { Atom::Tok(r) } else { Atom::Rule(0) }; } x }),
        bodies(&|b| b.iter().rev().cloned().collect()),
        bodies(&|b| b.iter().map(|a| a.iter().rev().cloned().collect()).collect()),
        bodies(&|b| if b.len() > 1 { b[..b.len() - 1].to_vec() } else { vec![b[0][..b[0].len().saturating_sub(1)].to_vec()] }),
        bodies(&|b| { let mut x = b.clone(); x.push(vec![]); x }),
        Desc { tokens: (d.tokens + 1).min(TOKENS.len()), ..d.clone() },
        Desc { defs: d.defs.iter().rev().cloned().collect(), ..d.clone() },
    ];
    if d.tokens > 1 { v.push(Desc { tokens: d.tokens - 1, ..d.clone() }); }
    if d.defs.len() > 1 { v.push(Desc { defs: d.defs[..d.defs.len() - 1].to_vec(), ..d.clone() }); v.push(Desc { defs: d.defs[1..].to_vec(), ..d.clone() }); }
    v.retain(|x| x.describe() != d.describe() || x.tokens != d.tokens);
    v
}
fn diff(a: &Snap, b: &Snap) -> String {
    macro_rules! f { ($($n:ident),*) => { $( if a.$n != b.$n { return format!("{} differ: {:?} / {:?}", stringify!($n), a.$n, b.$n); } )* }; }
    f!(failed, terminals, rules, counts, data, reported, prods, printed, first, pfirst, follow, conflict, table, trees);
    String::new()
}
fn digest(s: &Snap) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); h.write(format!("{s:?}").as_bytes()); h.finish() }
fn check(cx: &mut Ctx, name: serde_json::Value, text: &str, ws: &[Vec<usize>], seeds: usize, near: &[String], fresh: &[Option<u64>]) -> Res {
    cx.begin()?;
    cx.states += 1;
    let h = histories();
    let base = on_thread(0, &[], text, ws, 7);
    let mut runs: Vec<(String, Snap)> = base[1..].iter().map(|s| ("repeated in the same thread".to_string(), s.clone())).collect();
    for k in 1..=seeds as u64 { for (i, s) in on_thread(k, &[], text, ws, 2).into_iter().enumerate() { runs.push((format!("hash seed {k}, run {i}"), s)); } }
    for (i, b) in h.iter().enumerate() { for s in on_thread(100 + i as u64, &[b], text, ws, 1) { runs.push((format!("after other work {i}"), s)); } }
    let all: Vec<&str> = h.iter().map(|s| s.as_str()).chain([text]).collect();
    for s in on_thread(200, &all, text, ws, 1) { runs.push(("after all other work".into(), s)); }
    for (i, b) in near.iter().enumerate() { for s in on_thread(300 + i as u64, &[b], text, ws, 1) { runs.push((format!("after a description like it ({i})"), s)); } }
    if near.len() > 1 { let all: Vec<&str> = near.iter().map(|s| s.as_str()).collect(); for s in on_thread(400, &all, text, ws, 1) { runs.push(("after all descriptions like it".into(), s)); } }
    for (i, f) in fresh.iter().enumerate() {
        let how = format!("in another process, {}", ["same order", "reverse order"][i]);
        match f { Some(x) if *x == digest(&base[0]) => {} x => return cx.fail(format!("{name} {how}"), json!({"description": name, "how": how}), if x.is_some() { format!("{how}: another result than here, where it is {:?}", base[0]) } else { format!("{how}: no result") }) }
        cx.traces += 1;
    }
    cx.traces += runs.len() as u64 + 1; cx.transitions += runs.len() as u64;
    cx.outcome(if base[0].failed { "fails" } else if base[0].conflict { "not LL(1)" } else { "LL(1)" });
    for (how, s) in &runs { if *s != base[0] { return cx.fail(format!("{name} {how}"), json!({"description": name, "how": how}), format!("{how}: {}", diff(&base[0], s))); } }
    Ok(())
}
fn fams(t: Tier) -> Vec<Fam> { match t { Tier::Quick => vec![Fam::One { max: 5, lazy: false }, Fam::Two { total: 4 }, Fam::Pairs { esize: 2 }, Fam::Repeat { total: 4 }, Fam::Many { max: 6 }], Tier::Thorough => vec![Fam::One { max: 6, lazy: false }, Fam::One { max: 5, lazy: true }, Fam::Two { total: 5 }, Fam::Pairs { esize: 3 }, Fam::Repeat { total: 5 }, Fam::Many { max: 14 }] } }
fn seeds(t: Tier) -> usize { t.pick(6, 12) }
const SIZES: [usize; 4] = [12, 20, 33, 40];
const SIZE_SLICES: usize = 4;
fn sizes(t: Tier) -> Vec<usize> { let mut v = SIZES.to_vec(); if t == Tier::Thorough { v.extend([65, 100]); } v }
fn units(t: Tier) -> usize { fams(t).len() * Fam::SLICES + 1 + sizes(t).len() * SIZE_SLICES }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let f = fams(cx.tier);
    let n = seeds(cx.tier);
    if unit == f.len() * Fam::SLICES {
        let h = histories();
        // the shipped descriptions, and descriptions that must fail the same way every time
        for p in ["/repo/src/tool/syntaxis/syntaxis2.json"] {
            let Ok(t) = std::fs::read_to_string(p) else { cx.begin()?; return cx.fail(p, json!({"file": p}), "the shipped description is missing") };
            check(cx, json!(p), &t, &[vec![2, 4, 7, 5], vec![3, 4, 14, 5, 2, 4, 3, 8, 6, 2, 5], vec![], vec![2, 4, 3, 10, 10, 5]], 64, &h, &[])?;
        }
        for h in &h { check(cx, json!(h), h, &[vec![2], vec![2, 3]], n, &[], &[])?; }
        return Ok(());
    }
    let fresh: Vec<std::collections::HashMap<usize, u64>> = ["forward", "reverse"].iter().map(|o| fresh_process(cx, unit, o)).collect();
    let cs = cases(cx.tier, unit);
    let mixed = unit > f.len() * Fam::SLICES;
    for (i, c) in cs.iter().enumerate() {
        if !mixed && c.d.size() > 4 { cx.sample("description", || c.d.describe()); }
        // among small and large ones: after its neighbours, the other kind's last, all of them
        let near: Vec<String> = if mixed { [i + 1, i + cs.len() - 1, i + cs.len() / 2].iter().map(|k| cs[k % cs.len()].text.clone()).collect() } else { variants(&c.d).iter().map(|v| ast_json(&desc_ast_in(v, c.layout)).to_string()).collect() };
        cx.count("preceding descriptions like it", near.len() as u64);
        check(cx, c.d.describe(), &c.text, &c.ws, n, &near, &fresh.iter().map(|f| f.get(&i).copied()).collect::<Vec<_>>())?;
    }
    Ok(())
}
struct Case { d: Desc, layout: usize, text: String, ws: Vec<Vec<usize>> }
fn cases(t: Tier, unit: usize) -> Vec<Case> {
    let f = fams(t);
    let mut v = vec![];
    let mut layout = 0;
    if unit > f.len() * Fam::SLICES {
        // small descriptions, then large ones (in the other process the other way round)
        let u = unit - f.len() * Fam::SLICES - 1;
        let (n, sl) = (sizes(t)[u / SIZE_SLICES], u % SIZE_SLICES);
        let mut add = |d: Desc, ws: Vec<Vec<usize>>| { layout = (layout + 1) % LAYOUTS; v.push(Case { text: ast_json(&desc_ast_in(&d, layout)).to_string(), d, layout, ws }) };
        let mut small = vec![];
        for (k, fam) in [Fam::Two { total: 3 }, Fam::Pairs { esize: 2 }, Fam::Many { max: 3 }].iter().enumerate() { let _: Result<(), ()> = fam.run((7 * sl + k) % Fam::SLICES, &mut |d| { small.push(d.clone()); Ok(()) }); }
        let step = small.len() / 24 + 1;
        for d in small.into_iter().step_by(step) { let w = words(&(2..2 + d.tokens).collect::<Vec<_>>(), 1); add(d, w); }
        for (i, d) in desc::big(n).into_iter().enumerate() { if i % SIZE_SLICES == sl { add(d, desc::big_words(n).into_iter().take(3).map(|w| w.into_iter().map(|x| x + 2).collect()).collect()); } }
        return v;
    }
    let _: Result<(), ()> = f[unit / Fam::SLICES].run(unit % Fam::SLICES, &mut |d| {
        layout = (layout + 1) % LAYOUTS;
        v.push(Case { d: d.clone(), layout, text: ast_json(&desc_ast_in(d, layout)).to_string(), ws: words(&(2..2 + d.tokens).collect::<Vec<_>>(), if d.tokens <= 2 { 3 } else if d.tokens <= 5 { 2 } else { 1 }) });
        Ok(())
    });
    v
}
/// All descriptions of the unit in a process that has done nothing else before.
fn fresh_process(cx: &mut Ctx, unit: usize, order: &str) -> std::collections::HashMap<usize, u64> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--snap", &unit.to_string(), order, cx.tier.name()]).stderr(std::process::Stdio::null()).output().expect("spawn");
    String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| { let (a, b) = l.strip_prefix("SNAP ")?.split_once(' ')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect()
}
fn snap(args: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(50)); std::process::exit(3) });
    let t = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let cs = cases(t, args[0].parse().unwrap());
    let mut ix: Vec<usize> = (0..cs.len()).collect();
    if args[1] == "reverse" { ix.reverse(); }
    // printed only at the end: the code under test prints too, and a captured standard output would lose lines
    let mut out = String::new();
    for i in ix { let s = on_thread(0, &[], &cs[i].text, &cs[i].ws, 1); out += &format!("\nSNAP {i} {}", digest(&s[0])); }
    println!("{out}");
    std::process::exit(0);
}
static DEF: CheckDef = CheckDef {
    id: "C18",
    rule: "Every description of the families, taken from JSON to numbers, productions, printed form, FIRST, FOLLOW, table and parse trees: seven times on one thread and twice on each of several more, with interposed hash keys, in two fresh processes that take all descriptions in opposite orders, small and large ones mixed, after each of its near variants (other symbols, suffixes, orders, counts) and all of them, after each of five other pieces of work (other meanings for the same names, conflicts, failures, broken JSON) and after all of them; all results compared.",
    bounds: |t| json!({"families": fams(t).iter().map(|f| f.name()).collect::<Vec<_>>(), "hash_seeds": seeds(t), "histories": histories().len() + 1, "near_variants": "up to 14 per description", "sizes": sizes(t), "strings": "all <= 3 over 2 tokens, <= 2 over 4 tokens"}),
    assumptions: &["hash seeds are enumerated up to the bound, not all of them", "order of printed diagnostics is not part of the result"],
    units, run, stall_s: 60, workers: 64,
};
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--snap") { snap(&args[2..]); }
    mc::engine::main(&DEF)
}
