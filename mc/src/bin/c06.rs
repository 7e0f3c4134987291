//! C06: a token sequence is never accepted silently unless the tree's leaves are a prefix that is a sentence with that tree.
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/parse.rs"] mod parse;
use mc::engine::*;
use mc::gram::*;
use parse::*;
use serde_json::json;
use std::collections::BTreeSet;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};

const ALIEN: usize = 9;
const START: usize = 0;
fn fams(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for k in 1..=4 { v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, k)); }
    for k in 1..=3 { v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, k)); }
    for k in 1..=2 { v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, k)); }
    for k in 4..=5 { v.push(Family::new("4 rules, 1 terminal, rhs<=1", &[0, 1, 2, 3], &[2], 1, k)); }
    // the end marker inside productions
    for k in 1..=t.pick(2, 3) { v.push(Family::new("2 rules, the end marker and a terminal, rhs<=2", &[0, 1], &[1, 2], 2, k)); }
    for k in 1..=2 { v.push(Family::new("2 rules, both markers, rhs<=2", &[0, 1], &[0, 1], 2, k)); }
    if t.thorough() {
        v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, 3));
        v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, 4));
        v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, 5));
    }
    v
}
fn extra(t: Tier) -> Vec<(Cfg, usize)> {
    let mut v: Vec<(Cfg, usize)> = realistic().into_iter().map(|(_, g)| (g, t.pick(6, 8))).collect();
    for g in adapt::scaled(t) { if g.nts.len() <= 30 && g.is_ll1() { let n = g.longest(); v.push((g, t.pick(5, 6).max((n + 1).min(24)))); } }
    v
}
fn units(t: Tier) -> usize { fams(t).iter().map(|f| f.units()).sum::<usize>() + extra(t).len() + 2 * LISTS.len() + FLAT.len() + adapt::inflated(t).iter().map(|f| f.units()).sum::<usize>() }

fn leaves<'a>(r: &'a RuleContext, out: &mut Vec<&'a syntaxis::runtime::token::Token>) {
    for c in &r.children { match c { ASTContext::Rule(x) => leaves(x, out), ASTContext::Terminal(x) => out.push(&x.symbol), ASTContext::Error(x) => out.push(&x.symbol) } }
}

fn check_word(cx: &mut Ctx, g: &Cfg, anons: &[u32], table: &Table, w: &[usize]) -> Res {
    let ch = Chart::new(g, w);
    check_with(cx, g, anons, table, w, &|n| ch.tree(0, 0, n))
}
/// `tree(n)`: the derivation tree of the first n tokens, if they are a sentence
fn check_with(cx: &mut Ctx, g: &Cfg, anons: &[u32], table: &Table, w: &[usize], tree: &dyn Fn(usize) -> Option<Tree>) -> Res {
    let toks = tokens(w);
    for &anon in anons {
        let is_anon = |n: usize| anon >> g.ix(n) & 1 == 1;
        let name = |n: usize| if is_anon(n) { n.to_string() } else { adapt::rule_name(n) };
        for which in [Which::Generic, Which::V1] {
            cx.begin()?;
            cx.transitions += 1; cx.traces += 1;
            let (got, printed) = run_parser(which, g, anon, table, toks.clone());
            match got {
                Got::Panic(_) => cx.outcome("panic (not silent)"),
                Got::Tree(_) if printed => cx.outcome("mismatch printed"),
                Got::Tree(r) => {
                    let mut l = vec![]; leaves(&r, &mut l);
                    let n = l.len();
                    let bad = if n > w.len() || l.iter().zip(&toks).any(|(a, b)| !same_token(a, b)) { Some(format!("silent parse whose leaves are not a prefix of the input: {}", show_real(&r))) }
                        else { match tree(n) {
                            None => Some(format!("silent parse of a non-sentence: {}", show_real(&r))),
                            Some(full) => { let want = flatten(&full, &is_anon); tree_diff(&r, &want, &toks, &name).map(|d| format!("{d}: got {}", show_real(&r))) }
                        } };
                    if let Some(b) = bad { return cx.fail(format!("{:?} {anon} {w:?}", g.prods), input_json(g, anon, which, w), b.chars().take(2000).collect::<String>()); }
                    cx.outcome(if n + 1 == w.len() && w[n] == STOP { "silent, complete" } else { "silent, prefix" });
                    if n + 1 < w.len() && n > 0 { cx.sample("prefix", || json!({"productions": g.describe(), "tokens": w, "consumed": n})); }
                }
            }
        }
    }
    Ok(())
}

/// Long lists, 0 -> 1 ; 1 -> t 2 1 | eps ; 2 -> u | eps, and their trees by hand.
const LISTS: [usize; 9] = [5, 16, 33, 64, 100, 257, 600, 1500, 4500];
/// `closed`: every item ends in a third token.
fn list_grammar(closed: bool) -> Cfg {
    let mut item = vec![Sym::T(2), Sym::N(2)]; if closed { item.push(Sym::T(4)); } item.push(Sym::N(1));
    Cfg { nts: vec![0, 1, 2], ts: vec![2, 3, 4], prods: vec![Prod { l: 0, r: vec![Sym::N(1)] }, Prod { l: 1, r: item }, Prod { l: 1, r: vec![] }, Prod { l: 2, r: vec![Sym::T(3)] }, Prod { l: 2, r: vec![] }] }
}
fn list_tree(w: &[usize], closed: bool) -> Option<Tree> {
    let mut items = vec![];
    let mut i = 0;
    while i < w.len() {
        if w[i] != 2 { return None; }
        let a = i; i += 1;
        let b = if i < w.len() && w[i] == 3 { i += 1; Some(i - 1) } else { None };
        let c = if closed { if i >= w.len() || w[i] != 4 { return None; } i += 1; Some(i - 1) } else { None };
        items.push((a, b, c));
    }
    let mut t = Tree::Node(1, vec![]);
    for (a, b, c) in items.into_iter().rev() { let mut ch = vec![Tree::Leaf(a), Tree::Node(2, b.map(Tree::Leaf).into_iter().collect())]; ch.extend(c.map(Tree::Leaf)); ch.push(t); t = Tree::Node(1, ch); }
    Some(Tree::Node(0, vec![t]))
}
fn long_lists(cx: &mut Ctx, n: usize, closed: bool) -> Res {
    let g = list_grammar(closed);
    let table = match real_table(&adapt::real(&g, &|_| false)) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
    cx.states += 1;
    for pat in 0..3 {
        let mut w: Vec<usize> = (0..n).flat_map(|i| { let mut x = if (i + pat) % 3 == 0 { vec![2, 3] } else { vec![2] }; if closed { x.push(4); } x }).collect();
        w.push(STOP);
        let l = w.len();
        if n > 600 && pat > 0 { break; }
        let mut at: BTreeSet<usize> = if l <= 50 { (0..=l).collect() } else { [0, 1, 2, l / 2, l - 3, l - 2, l - 1, l].into() };
        for p in 2..12 { for d in [-1i64, 0, 1] { let x = (1i64 << p) + d; if x < l as i64 { at.insert(x as usize); } } }
        for i in at {
            let mut ws = vec![w[..i].to_vec()];
            for t in [2, 3, 4, STOP, 120, START] {
                let mut x = w.clone(); x.insert(i, t); ws.push(x);
                if i < l { let mut x = w.clone(); x[i] = t; ws.push(x); }
                let mut x = w.clone(); x.truncate(i); x.push(t); ws.push(x);
            }
            if i < l { let mut x = w.clone(); x.remove(i); ws.push(x); }
            for x in ws { check_with(cx, &g, if n <= if closed { 20 } else { 64 } { &[0, 6, 2] } else { &[0] }, &table, &x, &|k| list_tree(&x[..k], closed))?; }
        }
        cx.max("word_length", l as u64);
    }
    Ok(())
}

/// One production of many symbols, 0 -> t^n and 0 -> (t 1)^n ; 1 -> u | eps, with one wrong token in every place.
const FLAT: [usize; 9] = [3, 9, 17, 33, 65, 100, 129, 257, 300];
fn flat(cx: &mut Ctx, n: usize) -> Res {
    for mixed in [false, true] {
        let mut g = Cfg { nts: vec![0], ts: vec![2, 3], prods: vec![Prod { l: 0, r: vec![Sym::T(2); n] }] };
        if mixed { g.nts.push(1); g.prods = vec![Prod { l: 0, r: (0..n).flat_map(|_| [Sym::T(2), Sym::N(1)]).collect() }, Prod { l: 1, r: vec![Sym::T(3)] }, Prod { l: 1, r: vec![] }]; }
        let table = match real_table(&adapt::real(&g, &|_| false)) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
        cx.states += 1;
        let tree = |w: &[usize]| -> Option<Tree> {
            let (mut ch, mut i) = (vec![], 0);
            for _ in 0..n {
                if i >= w.len() || w[i] != 2 { return None; }
                ch.push(Tree::Leaf(i)); i += 1;
                if mixed { if i < w.len() && w[i] == 3 { ch.push(Tree::Node(1, vec![Tree::Leaf(i)])); i += 1; } else { ch.push(Tree::Node(1, vec![])); } }
            }
            if i == w.len() { Some(Tree::Node(0, ch)) } else { None }
        };
        let w: Vec<usize> = (0..n).flat_map(|i| if mixed && i % 3 == 1 { vec![2, 3] } else { vec![2] }).chain([STOP]).collect();
        let anons: &[u32] = if mixed && n <= 33 { &[0, 2] } else { &[0] };
        for i in 0..=w.len() {
            let mut ws = vec![w[..i].to_vec()];
            for t in [2, 3, STOP, 120, START] {
                let mut x = w.clone(); x.insert(i, t); ws.push(x);
                if i < w.len() { let mut x = w.clone(); x[i] = t; ws.push(x); }
            }
            if i < w.len() { let mut x = w.clone(); x.remove(i); ws.push(x); }
            for x in ws { check_with(cx, &g, anons, &table, &x, &|k| tree(&x[..k]))?; }
        }
    }
    Ok(())
}

/// Every single deletion, insertion and replacement of one token.
fn edits(w: &[usize], ts: &[usize]) -> Vec<Vec<usize>> {
    let mut v = BTreeSet::new();
    for i in 0..w.len() {
        let mut x = w.to_vec(); x.remove(i); v.insert(x);
        for &t in ts { let mut x = w.to_vec(); x[i] = t; v.insert(x); }
        v.insert(w[..i].to_vec());
    }
    for i in 0..=w.len() { for &t in ts { let mut x = w.to_vec(); x.insert(i, t); v.insert(x); } }
    v.into_iter().collect()
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    let t = cx.tier;
    for f in fams(t) {
        if u < f.units() {
            let n = f.nts.len();
            let anons: Vec<u32> = if t.thorough() { (0..1u32 << n).collect() } else { vec![0, (1 << n) - 2] };
            let mut al: Vec<usize> = f.ts.clone(); al.extend([STOP, ALIEN]);
            let mut ws = words(&al, t.pick(3, 4));
            let mut al0 = f.ts.clone(); al0.push(START);
            for mut w in words(&al0, t.pick(2, 3)) { if w.contains(&START) { w.push(STOP); ws.push(w); } }
            let plain = words(&f.ts, t.pick(4, 6));
            for w in plain { if w.len() > t.pick(3, 4) { ws.push(w.clone()); } if w.len() + 1 > t.pick(3, 4) { let mut x = w; x.push(STOP); ws.push(x); } }
            return f.for_unit(u, &mut |g| {
                if !g.prods.iter().any(|p| p.l == 0) { return Ok(()); }
                cx.count("grammars", 1);
                if !g.is_ll1() { return Ok(()); }
                cx.count("ll1_grammars", 1);
                cx.states += 1;
                let x = adapt::real(g, &|_| false);
                let table = match real_table(&x) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
                if table.is_empty() { cx.count("ll1_grammars_without_sentence", 1); return check_word(cx, g, &[0], &table, &[2, STOP]); }
                for w in &ws { let a = if t.thorough() || w.len() <= 2 { &anons[..] } else { &anons[..1] }; check_word(cx, g, a, &table, w)?; }
                for m in 1..STYLES.len() { with_style(m, || { for w in &ws { if w.len() <= t.pick(1, 3) { check_word(cx, g, &anons[..1], &table, w)?; } } Ok(()) })?; }
                for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || {
                    let table = match real_table(&adapt::real(g, &|_| false)) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe(), "numbering": m}), e) };
                    for w in &ws { if w.len() <= t.pick(2, 3) { check_word(cx, g, &anons[..1], &table, w)?; } }
                    Ok(())
                })?; }
                Ok(())
            });
        }
        u -= f.units();
    }
    let e = extra(t);
    if u >= e.len() + 2 * LISTS.len() + FLAT.len() {
        let mut u = u - e.len() - 2 * LISTS.len() - FLAT.len();
        for f in adapt::inflated(t) {
            if u < f.units() {
                return f.for_unit(u, &mut |small| {
                    if !small.prods.iter().any(|p| p.l == 0) || !small.is_ll1() { return Ok(()); }
                    for how in 0..INFLATIONS.len() {
                        let g = small.inflate(how);
                        if g.is_ll1() { around(cx, &g, if how == 5 { 27 } else { 3 }, t.pick(if how == 1 { 1 } else { 2 }, 20), t.pick(1, 4))?; }
                    }
                    Ok(())
                });
            }
            u -= f.units();
        }
        unreachable!()
    }
    if u >= e.len() + 2 * LISTS.len() { return flat(cx, FLAT[u - e.len() - 2 * LISTS.len()]); }
    if u >= e.len() { let k = u - e.len(); return long_lists(cx, LISTS[k / 2], k % 2 == 1); }
    let (g, maxlen) = &e[u];
    around(cx, g, *maxlen, if g.longest() <= 12 { t.pick(60, 400) } else { t.pick(4, 40) }, t.pick(12, 60))
}
/// Sentences (at most `cap`) and all one-token edits of them; under other numberings and tokens for the first `few`.
fn around(cx: &mut Ctx, g: &Cfg, maxlen: usize, cap: usize, few: usize) -> Res {
    let x = adapt::real(g, &|_| false);
    let table = match real_table(&x) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe()}), e) };
    let (sents, complete) = sentences(g, maxlen, cap);
    if !complete { cx.count("sentence_enumeration_capped", 1); }
    cx.states += 1;
    let mut al = g.ts.clone();
    if al.len() > 14 { al = al.iter().copied().filter(|&t| t < 8 || t + 3 > 2 + g.ts.len()).collect(); }
    al.extend([STOP, 120, START]);
    let n = g.nts.len();
    let anons = [0u32, ((1u64 << n) - 2) as u32];
    for s in &sents { let mut w = s.clone(); w.push(STOP); for x in edits(&w, &al) { if x.len() < 30 { check_word(cx, g, &anons, &table, &x)?; } } }
    for m in 1..STYLES.len() { with_style(m, || { for s in sents.iter().take(few) { let mut w = s.clone(); w.push(STOP); for x in edits(&w, &al) { if x.len() < 30 { check_word(cx, g, &anons[..1], &table, &x)?; } } } Ok(()) })?; }
    for m in 1..adapt::NUMBERINGS { adapt::with_numbering(m, || {
        let table = match real_table(&adapt::real(g, &|_| false)) { Ok(t) => t, Err(e) => return cx.fail("table", json!({"productions": g.describe(), "numbering": m}), e) };
        for s in sents.iter().take(few) { let mut w = s.clone(); w.push(STOP); for x in edits(&w, &al) { if x.len() < 30 { check_word(cx, g, &anons[..1], &table, &x)?; } } }
        Ok(())
    })?; }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C06",
    rule: "Every LL(1) grammar of the families, every token sequence up to a length over its terminals, the end marker (anywhere) and a foreign token, with and without final end marker; plus every single-token deletion, insertion, replacement and truncation of sentences of larger grammars, and such edits of long lists. A silent result of either parser must be the derivation tree of a prefix.",
    bounds: |t| json!({"tokens": STYLES, "inflations": INFLATIONS, "flat_right_sides": FLAT, "families": fams(t).iter().map(|f| format!("{}, k={}", f.name, f.k)).collect::<Vec<_>>(), "words": format!("all <= {} over terminals+end marker+foreign token; all <= {} over terminals with/without end marker", t.pick(3, 4), t.pick(4, 6)), "anonymous_rules": t.pick("none; all but rule 0 for words <= 2", "every subset"), "edited sentences of larger grammars": extra(t).len(), "long_lists": format!("{:?} items, edits at the ends, in the middle and around powers of two", LISTS), "numberings": "also with symbols renumbered far apart and in reverse, shorter words"}),
    assumptions: &["any non-blank output counts as the diagnostic"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
