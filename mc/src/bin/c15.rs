//! C15: walker, listener dispatch, visitor dispatch, child folding and early stop.
#[path = "../adapt/trees.rs"] mod trees;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use std::any::Any;
use std::collections::HashMap;
use syntaxis::runtime::ast::{error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use trees::*;

/// Event: what was called, and the document-order number of the node it was called with.
type Ev = (String, usize);

mod hand {
    use super::*;
    use syntaxis::tool::syntaxis::syntaxis_context::*;
    use syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener;
    use syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor;
    use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker;
    pub struct W; impl SyntaxisWalker for W {}
    pub struct Log<'a> { pub ix: &'a HashMap<usize, usize>, pub ev: Vec<Ev> }
    impl Log<'_> { fn put(&mut self, s: &str, a: usize) { let n = self.ix.get(&a).copied().unwrap_or(usize::MAX); self.ev.push((s.into(), n)); } }
    macro_rules! lis { ($($e:ident $x:ident $n:expr, $c:ident;)*) => { $( fn $e(&mut self, c: &dyn $c) { self.put(concat!("enter ", $n), addr(c.as_rule())) } fn $x(&mut self, c: &dyn $c) { self.put(concat!("exit ", $n), addr(c.as_rule())) } )* }; }
    impl SyntaxisListener for Log<'_> {
        lis! { enter_rule_list exit_rule_list 0, RuleListContext; enter_parser_rule exit_parser_rule 1, ParserRuleContext; enter_block exit_block 2, BlockContext; enter_alternative exit_alternative 3, AlternativeContext; enter_epsilon exit_epsilon 4, EpsilonContext; enter_element exit_element 5, ElementContext; enter_ebnf_suffix exit_ebnf_suffix 6, EbnfSuffixContext; enter_lexer_rule exit_lexer_rule 7, LexerRuleContext; enter_regular exit_regular 8, RegularContext; }
        fn enter_every_rule(&mut self, c: &RuleContext) { self.put("enter every", addr(c)) }
        fn exit_every_rule(&mut self, c: &RuleContext) { self.put("exit every", addr(c)) }
        fn enter_terminal(&mut self, c: &TerminalContext) { self.put("enter t", addr(c)) }
        fn exit_terminal(&mut self, c: &TerminalContext) { self.put("exit t", addr(c)) }
        fn enter_errornode(&mut self, c: &ErrorContext) { self.put("enter e", addr(c)) }
        fn exit_errornode(&mut self, c: &ErrorContext) { self.put("exit e", addr(c)) }
    }
    /// A listener with nothing overridden but one leaf callback: the default callbacks do nothing and do not disturb the walk.
    pub struct Leaves<'a> { pub ix: &'a HashMap<usize, usize>, pub ev: Vec<Ev> }
    impl SyntaxisListener for Leaves<'_> { fn exit_terminal(&mut self, c: &TerminalContext) { self.ev.push(("t".into(), self.ix[&addr(c)])) } }
    /// enter/exit of context k on a node
    pub fn double_dispatch(r: &RuleContext, k: usize, l: &mut dyn SyntaxisListener) {
        macro_rules! d { ($c:ident) => {{ <RuleContext as $c>::enter(r, l); <RuleContext as $c>::exit(r, l); }}; }
        match k { 0 => d!(RuleListContext), 1 => d!(ParserRuleContext), 2 => d!(BlockContext), 3 => d!(AlternativeContext), 4 => d!(EpsilonContext), 5 => d!(ElementContext), 6 => d!(EbnfSuffixContext), 7 => d!(LexerRuleContext), _ => d!(RegularContext) }
    }
    include!("../adapt/visitors.in");
}
mod shipped {
    use super::*;
    use syntaxis::tool::v1::syntaxis_context::*;
    use syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor;
    include!("../adapt/visitors.in");
}

fn listener_model(n: usize, ch: &[MT], id: &mut usize, ev: &mut Vec<Ev>) {
    let me = *id; *id += 1;
    ev.push(("enter every".into(), me));
    if n < 9 { ev.push((format!("enter {n}"), me)); }
    for c in ch { match c {
        MT::Rule(k, x) => listener_model(*k, x, id, ev),
        MT::Term(_) => { ev.push(("enter t".into(), *id)); ev.push(("exit t".into(), *id)); *id += 1; }
        MT::Err(_) => { ev.push(("enter e".into(), *id)); ev.push(("exit e".into(), *id)); *id += 1; }
    } }
    if n < 9 { ev.push((format!("exit {n}"), me)); }
    ev.push(("exit every".into(), me));
}
fn visitor_model(n: usize, ch: &[MT], id: &mut usize, ev: &mut Vec<Ev>) {
    if n < 9 { ev.push((format!("visit {n}"), *id)); }
    *id += 1;
    for c in ch { match c { MT::Rule(k, x) => visitor_model(*k, x, id, ev), MT::Term(_) => { ev.push(("t".into(), *id)); *id += 1; } MT::Err(_) => { ev.push(("e".into(), *id)); *id += 1; } } }
}
/// Overriding only kind k, without descending there.
fn only_model(k: usize, n: usize, ch: &[MT], id: &mut usize, ev: &mut Vec<Ev>) {
    if n == k { ev.push((format!("visit {n}"), *id)); *id += 1 + size(ch); return; }
    *id += 1;
    for c in ch { match c { MT::Rule(m, x) => only_model(k, *m, x, id, ev), MT::Term(_) => { ev.push(("t".into(), *id)); *id += 1; } MT::Err(_) => { ev.push(("e".into(), *id)); *id += 1; } } }
}
/// Default folding: the last child's result; () for a rule without children; leaves give their number.
fn last_model(ch: &[MT], id: &mut usize) -> Option<usize> {
    *id += 1;
    let mut r = None;
    for c in ch { r = match c { MT::Rule(_, x) => last_model(x, id), _ => { let v = *id; *id += 1; Some(v) } } }
    r
}
/// Combining over the default () result, keeping the first number; leaves are numbers (or, `unit`, nothing), error leaves nothing.
fn pairs_model(ch: &[MT], id: &mut usize, unit: bool, log: &mut Vec<(Option<usize>, Option<usize>)>) -> Option<usize> {
    *id += 1;
    let mut r = None;
    for c in ch {
        let v = match c { MT::Rule(_, x) => pairs_model(x, id, unit, log), MT::Term(_) => { let v = *id; *id += 1; if unit { None } else { Some(v) } } MT::Err(_) => { *id += 1; None } };
        log.push((r, v));
        if r.is_none() { r = v; }
    }
    r
}
/// Collecting fold; `refuse`: the number of the should-visit question answered no. Returns the folded list; logs the questions.
fn fold_model(ch: &[MT], id: &mut usize, q: &mut usize, refuse: usize, ev: &mut Vec<(usize, Vec<usize>)>) -> Vec<usize> {
    let me = *id; *id += 1;
    let mut r: Vec<usize> = vec![1000];
    let mut go = true;
    for c in ch {
        if go {
            let k = *q; *q += 1; ev.push((me, r.clone()));
            if k == refuse { go = false; }
        }
        match c {
            MT::Rule(_, x) => { if go { let v = fold_model(x, id, q, refuse, ev); r.push(2000); r.extend(v); } else { *id += 1 + size(x); } }
            _ => { if go { r.push(2000); r.push(*id); } *id += 1; }
        }
    }
    r
}

fn check(cx: &mut Ctx, n: usize, ch: &[MT], refusals: bool) -> Res {
    cx.begin()?;
    cx.states += 1;
    let root = Builder::new().rule(n, ch);
    let ix = index(&root);
    let inp = || json!({"tree": show(n, ch)});
    let nodes = 1 + size(ch);
    cx.transitions += nodes as u64;
    let (r, _) = guarded(|| { let mut l = hand::Log { ix: &ix, ev: vec![] }; use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker; hand::W.walk(&mut l, &root); let mut d = hand::Leaves { ix: &ix, ev: vec![] }; hand::W.walk(&mut d, &root); (l.ev, d.ev) });
    let mut want = vec![]; listener_model(n, ch, &mut 0, &mut want);
    let wl: Vec<Ev> = want.iter().filter(|e| e.0 == "exit t").map(|e| ("t".to_string(), e.1)).collect();
    match r { Ok((e, d)) if e == want && d == wl => {} Ok((e, d)) => return cx.fail(show(n, ch), inp(), format!("walk fired {e:?} (leaves only: {d:?}), expected {want:?}")), Err(p) => return cx.fail(show(n, ch), inp(), format!("panic in walk: {p}")) }
    cx.traces += 1;
    macro_rules! family { ($m:ident) => {{
        let who = stringify!($m);
        let mut want = vec![]; visitor_model(n, ch, &mut 0, &mut want);
        let (r, _) = guarded(|| $m::full(&ix, &root));
        match r { Ok(e) if e == want => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} visitor called {x:?}, expected {want:?}")) }
        let wl: Vec<Ev> = want.iter().filter(|e| e.0.len() == 1).cloned().collect();
        let (r, _) = guarded(|| $m::leaves(&ix, &root));
        match r { Ok(e) if e == wl => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} default visitor reached leaves {x:?}, expected {wl:?}")) }
        for k in 0..9 {
            let mut want = vec![]; only_model(k, n, ch, &mut 0, &mut want);
            let (r, _) = guarded(|| $m::only(k, &ix, &root));
            match r { Ok(e) if e == want => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} visitor overriding only kind {k} saw {x:?}, expected {want:?}")) }
        }
        let want = last_model(ch, &mut 0);
        let (r, _) = guarded(|| $m::last(&ix, &root));
        match r { Ok(Ok(v)) if v == want => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} default result is {x:?}, expected {want:?}")) }
        for unit in [false, true] {
            let mut log = vec![]; let res = pairs_model(ch, &mut 0, unit, &mut log);
            let (r, _) = guarded(|| $m::pairs(&ix, &root, unit));
            match r { Ok(x) if x == (log.clone(), res) => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} combined results {x:?}, expected {log:?} giving {res:?}")) }
            cx.traces += 1;
        }
        let mut total = 0; fold_model(ch, &mut 0, &mut total, usize::MAX, &mut vec![]);
        for refuse in (if refusals { 0..total } else { 0..0 }).chain([usize::MAX]) {
            let mut ev = vec![];
            let want = fold_model(ch, &mut 0, &mut 0, refuse, &mut ev);
            let (r, _) = guarded(|| $m::fold(&ix, &root, refuse));
            match r { Ok((v, q)) if v == want && q == ev => {} x => return cx.fail(format!("{who} {}", show(n, ch)), inp(), format!("{who} folding (question {refuse} refused) gave {x:?}, expected {want:?} after questions {ev:?}")) }
            cx.traces += 1;
        }
        cx.traces += 12;
    }}; }
    family!(hand); family!(shipped);
    cx.outcome(match nodes { 1 => "root only", 2 | 3 => "small", _ => "larger" });
    if nodes > 4 { cx.sample("tree", || json!(show(n, ch))); }
    Ok(())
}

/// accept / enter / exit of every context kind on a node of every number
fn double(cx: &mut Ctx) -> Res {
    for n in (0..11).chain(UNKNOWN) { for ch in [vec![], vec![MT::Term(2), MT::Rule(5, vec![MT::Err(1)])]] {
        let root = Builder::new().rule(n, &ch);
        let ix = index(&root);
        for k in 0..9 {
            cx.begin()?; cx.states += 1; cx.traces += 3;
            let inp = || json!({"tree": show(n, &ch), "context": NAMES[k]});
            let (r, _) = guarded(|| { let mut l = hand::Log { ix: &ix, ev: vec![] }; hand::double_dispatch(&root, k, &mut l); l.ev });
            let want = vec![(format!("enter {k}"), 0), (format!("exit {k}"), 0)];
            match r { Ok(e) if e == want => {} x => return cx.fail(format!("dispatch {k} {n}"), inp(), format!("enter/exit fired {x:?}, expected {want:?}")) }
            for (who, r) in [("hand", guarded(|| hand::accept(k, &ix, &root)).0), ("shipped", guarded(|| shipped::accept(k, &ix, &root)).0)] {
                let want = vec![(format!("visit {k}"), 0)];
                match r { Ok(e) if e == want => {} x => return cx.fail(format!("{who} accept {k} {n}"), inp(), format!("{who}: accept called {x:?}, expected {want:?}")) }
            }
        }
    } }
    Ok(())
}

fn spaces(t: Tier) -> Vec<(Space, Vec<usize>, usize, bool)> {
    let all: Vec<usize> = (0..10).collect();
    let lv = [MT::Term(2), MT::Err(2)];
    vec![
        (Space::new(&all, &lv, 5), all.clone(), 3, true),
        (Space::new(&all, &lv, 5), t.pick(vec![5], vec![0, 5, 9]), 4, false),
        (Space::new(&[0, 5], &lv, 8), vec![0], t.pick(6, 7), true),
        (Space::new(&[3, 9], &[MT::Term(0)], 9), vec![2], t.pick(7, 8), true),
    ]
}
/// numbers no kind has, most of them equal to a kind's number in their low bits
const UNKNOWN: [usize; 12] = [9, 10, 128 + 5, 255, 256, 256 + 5, 32768 + 5, 65536, 65536 + 5, (1 << 31) + 5, (1 << 32) + 5, usize::MAX];
const CHUNK: usize = 512;
fn sp_units(s: &(Space, Vec<usize>, usize, bool)) -> usize { (s.0.upto(s.2) * s.1.len() + CHUNK - 1) / CHUNK }
fn units(t: Tier) -> usize { spaces(t).iter().map(sp_units).sum::<usize>() + 1 }

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    for s in spaces(cx.tier) {
        if u < sp_units(&s) {
            let per = s.0.upto(s.2);
            for i in u * CHUNK..((u + 1) * CHUNK).min(per * s.1.len()) { check(cx, s.1[i / per], &s.0.nth_upto(i % per), s.3)?; }
            return Ok(());
        }
        u -= sp_units(&s);
    }
    double(cx)?;
    for n in UNKNOWN {
        let t = vec![MT::Rule(n, vec![MT::Term(n), MT::Rule(5, vec![MT::Err(n), MT::Rule(n, vec![])])]), MT::Term(2)];
        for root in [0, 5, n] { check(cx, root, &t, true)?; }
    }
    for (n, ch) in numbered() { check(cx, n, &ch, false)?; }
    for ch in large(&[0, 1, 2, 3, 4, 5, 6, 7, 8], &MT::Term(3)) { if size(&ch) <= 5002 { check(cx, 0, &ch, false)?; } }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C15",
    rule: "Every tree up to a size over all nine node kinds, an unknown kind and both leaf kinds (and deeper over fewer kinds), walked and visited with the real traits: recorded callbacks compared with the document-order model, for a full listener, a visitor overriding everything, nothing, or each single kind, default and collecting folds, and a refusal at every point; plus every accept/enter/exit on every node number.",
    bounds: |t| json!({"spaces": spaces(t).iter().map(|s| json!({"kinds": s.0.rules, "leaf_kinds": s.0.leaves.len(), "roots": s.1, "nodes_below_root": s.2, "refusals": s.3})).collect::<Vec<_>>(), "unknown_numbers": UNKNOWN, "large": LARGE}),
    assumptions: &["a node with an unknown number has no kind of its own; its children are still covered"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
