//! C26: trees and grammars may be changed and copied at any time, descriptions may be given in pieces.
#[path = "../adapt/desc.rs"] mod desc;
#[path = "../adapt/grammar.rs"] mod adapt;
use desc::*;
use mc::ebnf::*;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::json;
use std::collections::BTreeMap;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext, to_rule::ToRule};
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser as P;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, SymbolVisitor};
use mc::lexref::{nth_seq, seq_count};
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as L;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};

// ---------- trees
#[derive(Clone, Debug, PartialEq)]
enum M { Rule(usize, Vec<M>), Leaf { err: bool, kind: usize, id: usize, a: usize, b: usize } }
const SOURCE: &str = "ab é; 字 x\nyz →..";
const OPS: [&str; 15] = ["add a terminal", "add an error leaf", "add an empty rule", "add a terminal in the first rule", "remove the last child", "remove the first child", "renumber and rename the node", "renumber the first leaf",
    "move the end of the last leaf", "copy to the other place", "exchange places", "add a copy of the other tree", "continue with the first rule alone", "remove all children", "add a terminal in front"];
fn rule(ix: usize) -> RuleContext { RuleContext { rule_index: ix, rule_name: format!("r{ix}"), children: vec![] } }
fn cuts() -> Vec<usize> { SOURCE.char_indices().map(|x| x.0).collect() }
fn token(kind: usize, id: usize) -> (Token, usize, usize) {
    let c = cuts();
    let (a, b) = (c[(2 * id) % (c.len() - 2)], c[(2 * id) % (c.len() - 2) + 1]);
    let mut t = Token::new(kind, &format!("K{kind}"), &SOURCE[a..b]);
    t.token_index = id; t.char_start_index = a; t.char_stop_index = b;
    (t, a, b)
}
fn leaf(kind: usize, id: usize, err: bool) -> (ASTContext, M) {
    let (t, a, b) = token(kind, id);
    (if err { ASTContext::Error(ErrorContext { symbol: t }) } else { ASTContext::Terminal(TerminalContext { symbol: t }) }, M::Leaf { err, kind, id, a, b })
}
struct Regs { real: [RuleContext; 2], model: [(usize, Vec<M>); 2], next: usize }
fn apply(s: &mut Regs, op: usize) {
    let id = s.next; s.next += 1;
    let (r, m) = (&mut s.real[0], &mut s.model[0]);
    match op {
        0 | 1 => { let (x, y) = leaf(2, id, op == 1); r.as_mut_rule().children.push(x); m.1.push(y); }
        2 => { r.children.push(ASTContext::Rule(rule(1))); m.1.push(M::Rule(1, vec![])); }
        3 => {
            let (x, y) = leaf(3, id, false);
            if let Some(c) = r.as_mut_rule().children.iter_mut().find_map(|c| if let ASTContext::Rule(c) = c { Some(c) } else { None }) { c.children.push(x); }
            if let Some(c) = m.1.iter_mut().find_map(|c| if let M::Rule(_, c) = c { Some(c) } else { None }) { c.push(y); }
        }
        4 => { r.children.pop(); m.1.pop(); }
        5 => { if !r.children.is_empty() { r.children.remove(0); m.1.remove(0); } }
        6 => { let n = 1 - m.0; m.0 = n; r.rule_index = n; r.rule_name = format!("r{n}"); }
        7 => {
            for c in r.children.iter_mut() { let t = match c { ASTContext::Terminal(x) => &mut x.symbol, ASTContext::Error(x) => &mut x.symbol, ASTContext::Rule(_) => continue }; t.token_type = 5 - t.token_type; t.token_name = format!("K{}", t.token_type); break; }
            for c in m.1.iter_mut() { if let M::Leaf { kind, .. } = c { *kind = 5 - *kind; break; } }
        }
        8 => {
            let c = cuts();
            for x in r.children.iter_mut().rev() { let t = match x { ASTContext::Terminal(x) => &mut x.symbol, ASTContext::Error(x) => &mut x.symbol, ASTContext::Rule(_) => continue }; t.char_stop_index = *c.iter().find(|&&k| k > t.char_stop_index).unwrap_or(&SOURCE.len()); break; }
            for x in m.1.iter_mut().rev() { if let M::Leaf { b, .. } = x { *b = *c.iter().find(|&&k| k > *b).unwrap_or(&SOURCE.len()); break; } }
        }
        9 => { s.real[1] = s.real[0].clone(); s.model[1] = s.model[0].clone(); }
        10 => { s.real.swap(0, 1); s.model.swap(0, 1); }
        11 => { let c = ASTContext::Rule(s.real[1].clone()); s.real[0].children.push(c); let c = s.model[1].clone(); s.model[0].1.push(M::Rule(c.0, c.1)); }
        12 => {
            if let Some(c) = r.children.iter().find_map(|c| if let ASTContext::Rule(c) = c { Some(c.clone()) } else { None }) { *r = c; }
            if let Some((k, c)) = m.1.iter().find_map(|c| if let M::Rule(k, c) = c { Some((*k, c.clone())) } else { None }) { *m = (k, c); }
        }
        13 => { r.children.clear(); m.1.clear(); }
        _ => { let (x, y) = leaf(3, id, false); r.children.insert(0, x); m.1.insert(0, y); }
    }
}
fn show(ix: usize, ch: &[M]) -> String { format!("r{ix}({})", ch.iter().map(|c| match c { M::Rule(i, c) => show(*i, c), M::Leaf { kind, .. } => format!("K{kind}") }).collect::<Vec<_>>().join(" ")) }
fn flat(ch: &[M], out: &mut Vec<(bool, usize, usize, usize)>) { for c in ch { match c { M::Rule(_, c) => flat(c, out), M::Leaf { err, id, a, b, .. } => out.push((*err, *id, *a, *b)) } } }
fn judge(r: &RuleContext, ix: usize, ch: &[M], below: bool) -> Result<(), String> {
    if r.get_rule_index() != ix || r.as_rule().rule_index != ix { return Err("the node's own number".into()); }
    if r.get_child_count() != ch.len() || r.get_children().len() != ch.len() { return Err(format!("{} children, expected {}", r.get_child_count(), ch.len())); }
    for k in 1..4usize {
        let w = |e: bool| -> Vec<usize> { ch.iter().filter_map(|c| match c { M::Leaf { err, kind, id, .. } if *err == e && *kind == k => Some(*id), _ => None }).collect() };
        let (t, e) = (w(false), w(true));
        if r.get_terminals(k).iter().map(|x| x.symbol.token_index).collect::<Vec<_>>() != t { return Err(format!("terminals of kind {k}")); }
        if r.get_errornodes(k).iter().map(|x| x.symbol.token_index).collect::<Vec<_>>() != e { return Err(format!("error leaves of kind {k}")); }
        for i in [0, 1] { if r.get_terminal(k, i).map(|x| x.symbol.token_index) != t.get(i).copied() || r.get_errornode(k, i).map(|x| x.symbol.token_index) != e.get(i).copied() { return Err(format!("leaf {i} of kind {k}")); } }
    }
    for k in 0..2 {
        let w: Vec<String> = ch.iter().filter_map(|c| match c { M::Rule(i, c) if *i == k => Some(show(*i, c)), _ => None }).collect();
        let g: Vec<String> = r.get_rule_contexts(k).iter().map(|x| plain(&x.to_string())).collect();
        if g != w.iter().map(|s| plain(s)).collect::<Vec<_>>() { return Err(format!("sub-rules with number {k}: {g:?}, expected {w:?}")); }
        if r.get_rule_context(k, 0).is_some() == w.is_empty() || r.get_rule_context(k, w.len()).is_some() { return Err(format!("sub-rule of number {k} by place")); }
    }
    let mut l = vec![]; flat(ch, &mut l);
    if r.get_start_token().map(|t| t.token_index) != l.first().map(|x| x.1) { return Err("the start token".into()); }
    if r.get_stop_token().map(|t| t.token_index) != l.last().map(|x| x.1) { return Err("the stop token".into()); }
    if l.iter().all(|x| !x.0) && (r.get_first_terminal().map(|t| t.symbol.token_index) != l.first().map(|x| x.1) || r.get_last_terminal().map(|t| t.symbol.token_index) != l.last().map(|x| x.1)) { return Err("the first or last terminal".into()); }
    let (a, b) = (l.first().map_or(0, |x| x.2), l.last().map_or(0, |x| x.3));
    if a <= b && r.get_text(SOURCE) != &SOURCE[a..b] { return Err(format!("the covered text is {:?}, expected {:?}", r.get_text(SOURCE), &SOURCE[a..b])); }
    if plain(&r.to_string()) != plain(&show(ix, ch)) { return Err(format!("printed as {}, expected {}", r, show(ix, ch))); }
    if below { for (c, m) in r.children.iter().zip(ch) { match (c, m) { (ASTContext::Rule(c), M::Rule(i, m)) => judge(c, *i, m, true)?, (ASTContext::Rule(_), _) | (_, M::Rule(..)) => return Err("a rule and a leaf are confused".into()), _ => {} } } }
    Ok(())
}
/// printed trees up to spacing
fn plain(s: &str) -> String { s.split(|c: char| c == ' ').collect::<Vec<_>>().concat() }
fn trees(cx: &mut Ctx, first: usize, depth: usize) -> Res {
    // every history that starts with this operation pair, each run from the beginning
    let n = OPS.len();
    for tail in 0..n.pow(depth as u32 - 2) {
        let mut ops = vec![first / n, first % n];
        let mut x = tail; for _ in 2..depth { ops.push(x % n); x /= n; }
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += depth as u64;
        let inp = || json!({"operations": ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>()});
        let key = format!("tree {ops:?}");
        // what is asked between the operations: everything of both trees, or the one node only
        for wide in [true, false] {
        let (r, _) = guarded(|| {
            let mut s = Regs { real: [rule(0), rule(1)], model: [(0, vec![]), (1, vec![])], next: 0 };
            for (k, op) in ops.iter().enumerate() {
                apply(&mut s, *op);
                for i in 0..if wide { 2 } else { 1 } { judge(&s.real[i], s.model[i].0, &s.model[i].1, wide).map_err(|e| format!("after operation {}, {} tree: {e}", k + 1, ["the", "the other"][i]))?; }
            }
            Ok::<(), String>(())
        });
        match r { Err(p) => return cx.fail(key.clone(), inp(), format!("panic: {p}")), Ok(Err(e)) => return cx.fail(key.clone(), inp(), e), Ok(Ok(())) => {} }
        }
    }
    cx.outcome("histories of a tree");
    Ok(())
}

// ---------- grammars
fn prods() -> Vec<Prod> {
    use Sym::{N, T};
    [(0, vec![N(1), T(2)]), (0, vec![]), (1, vec![T(3)]), (1, vec![]), (1, vec![N(0), T(3)]), (0, vec![T(2), N(0)]), (1, vec![N(1), T(2)]), (1, vec![N(2)]), (2, vec![T(3), N(2)])].into_iter().map(|(l, r)| Prod { l, r }).collect()
}
const GOPS: usize = 11;
fn gop(o: usize) -> String { match o { 9 => "exchange the two grammars".into(), 10 => "start a new grammar".into(), o => format!("add or remove {}", prods()[o].show()) } }
fn fresh() -> (Grammar, Cfg) { let g = Cfg { nts: vec![0, 1], ts: vec![2, 3], prods: vec![] }; (adapt::real(&g, &|_| false), g) }
fn gjudge(x: &Grammar, g: &Cfg) -> Result<(), String> {
    let s = g.sets();
    let (want, conflict) = g.table(&s);
    let (r, out) = guarded(|| { let (f, pf) = x.first_set(); let fo = x.follow_set(&f); let t = x.ll1_table(&pf, &fo); (f, pf, fo, t) });
    let (f, pf, fo, t) = r.map_err(|p| format!("panic: {p}"))?;
    if f.len() != g.nts.len() || fo.len() != g.nts.len() || pf.len() != g.prods.len() { return Err(format!("{} FIRST, {} FOLLOW and {} production sets", f.len(), fo.len(), pf.len())); }
    for (i, n) in g.nts.iter().enumerate() {
        if !f.get(n).is_some_and(|c| c.allow_epsilon == s.nullable[i] && adapt::mask_t(&c.set) == s.first[i]) { return Err(format!("FIRST of rule {n}")); }
        if !fo.get(n).is_some_and(|c| adapt::mask_t(c) == s.follow[i]) { return Err(format!("FOLLOW of rule {n}")); }
    }
    for (i, p) in g.prods.iter().enumerate() { if !pf.get(&adapt::prod(p)).is_some_and(|c| c.allow_epsilon == s.p_nullable[i] && adapt::mask_t(&c.set) == s.p_first[i]) { return Err(format!("FIRST of {}", p.show())); } }
    if t.len() != want.len() { return Err(format!("{} table entries, expected {}", t.len(), want.len())); }
    for (k, c) in &want { if !t.get(k).is_some_and(|p| c.iter().any(|i| g.prods[*i] == adapt::unprod(p))) { return Err(format!("table entry {k:?}")); } }
    if conflict == out.iter().all(|b| b.is_ascii_whitespace()) { return Err(format!("conflict: {conflict}, printed {:?}", String::from_utf8_lossy(&out))); }
    if x.to_string().lines().filter(|l| !l.trim().is_empty()).count() != g.prods.len() { return Err(format!("printed {:?}", x.to_string())); }
    Ok(())
}
fn grammars(cx: &mut Ctx, first: usize, depth: usize) -> Res {
    let all = prods();
    for tail in 0..GOPS.pow(depth as u32 - 2) {
        let mut ops = vec![first / GOPS, first % GOPS];
        let mut x = tail; for _ in 2..depth { ops.push(x % GOPS); x /= GOPS; }
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += depth as u64;
        let (mut a, mut b) = (fresh(), fresh());
        for (k, &op) in ops.iter().enumerate() {
            match op {
                9 => std::mem::swap(&mut a, &mut b),
                10 => a = fresh(),
                o => {
                    let p = &all[o];
                    if p.l == 2 || p.r.contains(&Sym::N(2)) { if !a.1.nts.contains(&2) { a.0.vocabulary.add_unnamed_nonterminal(2); a.1.nts.push(2); } }
                    if let Some(i) = a.1.prods.iter().position(|q| q == p) { a.1.prods.remove(i); a.0.productions.remove(&adapt::prod(p)); } else { a.1.prods.push(p.clone()); a.0.productions.insert(adapt::prod(p)); }
                }
            }
            if let Err(e) = gjudge(&a.0, &a.1) { return cx.fail(format!("grammar {ops:?}"), json!({"operations": ops.iter().map(|o| gop(*o)).collect::<Vec<_>>()}), format!("after operation {}: {e}", k + 1)); }
        }
    }
    cx.outcome("histories of a grammar");
    Ok(())
}

// ---------- descriptions in pieces
fn pieces(whole: &RuleContext, cut: &[usize]) -> Vec<RuleContext> {
    let mut v = vec![]; let mut a = 0;
    for &b in cut.iter().chain([&whole.children.len()]) { v.push(RuleContext { rule_index: P::RULE_LIST, rule_name: "rule_list".into(), children: whole.children[a..b].to_vec() }); a = b; }
    v
}
/// 0: each piece has a visitor that continues with the numbers of the one before; 1: one visitor takes all pieces;
/// 2, 3: each piece goes all the way to its productions before the next one is read (in 3, patterns are collected piece by piece).
const WAYS: usize = 4;
fn in_pieces(ps: &[RuleContext], way: usize) -> Result<Pipe, String> {
    let again = way == 1;
    guarded(|| {
        let mut grammar = Grammar::new("g");
        let (mut token_cnt, mut rule_cnt, mut data) = (2, 0, vec![]);
        if way >= 2 {
            let mut all = vec![];
            for p in ps {
                let before = if way == 2 { std::mem::take(&mut data) } else { vec![] };
                let mut v = SymbolVisitor::new(&mut grammar, token_cnt, rule_cnt, before); p.accept(&mut v); (token_cnt, rule_cnt, data) = (v.next_token_id, v.next_rule_id, v.data);
                let mut v = ProductionVisitor::new(&mut grammar, rule_cnt); p.accept(&mut v); rule_cnt = v.next_rule_id;
                if way == 3 { all.append(&mut data); }
            }
            return Pipe { grammar, data: if way == 2 { data } else { all }, token_cnt, rule_cnt, next_rule: rule_cnt };
        }
        if again {
            let mut v = SymbolVisitor::new(&mut grammar, 2, 0, vec![]);
            for p in ps { p.accept(&mut v); }
            (token_cnt, rule_cnt, data) = (v.next_token_id, v.next_rule_id, v.data);
        } else { for p in ps { let mut v = SymbolVisitor::new(&mut grammar, token_cnt, rule_cnt, data); p.accept(&mut v); (token_cnt, rule_cnt, data) = (v.next_token_id, v.next_rule_id, v.data); } }
        let mut next_rule = rule_cnt;
        if again { let mut v = ProductionVisitor::new(&mut grammar, rule_cnt); for p in ps { p.accept(&mut v); } next_rule = v.next_rule_id; }
        else { for p in ps { let mut v = ProductionVisitor::new(&mut grammar, next_rule); p.accept(&mut v); next_rule = v.next_rule_id; } }
        Pipe { grammar, data, token_cnt, rule_cnt, next_rule }
    }).0
}
fn words_for(d: &Desc) -> WordSpace { if d.tokens <= 2 { WordSpace::new(d.tokens.max(1), 5) } else { WordSpace::wide(d.tokens) } }
fn described(cx: &mut Ctx, d: &Desc, s: &WordSpace) -> Res {
    let want = desc_langs(d, s);
    for layout in 0..LAYOUTS {
        let whole = desc_ast_in(d, layout);
        let n = whole.children.len();
        let one = match pipeline(&whole).0 { Ok(p) => p, Err(e) => return cx.fail(format!("{:?}", d.defs), json!({"description": d.describe()}), format!("panic: {e}")) };
        let cuts: Vec<Vec<usize>> = if n <= 6 { (1u32..1 << (n - 1)).map(|m| bits(m as u128).map(|b| b + 1).collect()).collect() } else { (1..n).map(|k| vec![k]).chain([(1..n).collect()]).collect() };
        for cut in cuts { for way in 0..WAYS {
            cx.begin()?;
            let again = way == 1;
            cx.states += 1; cx.traces += 1; cx.transitions += cut.len() as u64 + 1;
            let ps = pieces(&whole, &cut);
            let inp = || json!({"description": d.describe(), "layout": layout, "pieces_end_after": cut, "one_visitor": again, "piece_by_piece_to_productions": way >= 2});
            let key = format!("pieces {:?} {layout} {cut:?} {way}", d.defs);
            let p = match in_pieces(&ps, way) { Ok(p) => p,
                // a piece may refer to what a later one defines
                Err(_) if way >= 2 => { cx.outcome("refers to a later piece"); continue; }
                Err(e) => return cx.fail(key, inp(), format!("panic: {e}")) };
            let data = |p: &Pipe| p.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect::<Vec<_>>();
            let helpers = way >= 2 && one.rule_cnt != one.next_rule; // their numbers come between those of the rules
            if data(&p) != data(&one) || p.token_cnt != one.token_cnt || p.rule_cnt != one.rule_cnt && !helpers { return cx.fail(key, inp(), format!("tokens {:?}, in one piece {:?}", data(&p), data(&one))); }
            let names = |p: &Pipe| (p.grammar.vocabulary.get_all_terminals().iter().map(|t| (*t, p.grammar.vocabulary.get_terminal_name_by_id(*t))).collect::<BTreeMap<_, _>>(), p.grammar.vocabulary.get_all_nonterminals().iter().filter_map(|t| p.grammar.vocabulary.get_nonterminal_name_by_id(*t).map(|n| (*t, n))).collect::<BTreeMap<_, _>>());
            if helpers { if names(&p).0 != names(&one).0 { return cx.fail(key, inp(), format!("tokens {:?}, in one piece {:?}", names(&p).0, names(&one).0)); } }
            else if names(&p) != names(&one) { return cx.fail(key, inp(), format!("symbols {:?}, in one piece {:?}", names(&p), names(&one))); }
            let g = match to_cfg(&p.grammar) { Ok(g) => g, Err(e) => return cx.fail(key, inp(), e) };
            let v = &p.grammar.vocabulary;
            let letter: Vec<Option<usize>> = (0..d.tokens).map(|t| v.get_terminal_id_by_name(TOKENS[t])).collect();
            let got = cfg_langs(&g, s, &|t| letter.iter().position(|&x| x == Some(t)));
            for r in 0..d.rules {
                let Some(id) = v.get_nonterminal_id_by_name(RULES[r]) else { return cx.fail(key, inp(), format!("rule {} has no number", RULES[r])) };
                let gl = got[g.ix(id)];
                if gl != want[r] { return cx.fail(key, inp(), format!("rule {}: derives but should not {:?}; should derive but does not {:?}; productions {}", RULES[r], s.list(gl & !want[r]), s.list(want[r] & !gl), g.describe())); }
            }
            if way >= 2 { continue; }
            // the lexer's own visitor
            let lex = guarded(|| {
                let one = { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&whole, &mut v); v };
                let mut v = LexerRuleVisitor::new(vec![], 2);
                for p in &ps { if !again { v = LexerRuleVisitor::new(v.data, v.next_token_type); } RuleListContext::accept(p, &mut v); }
                let l = |v: &LexerRuleVisitor| (v.next_token_type, v.data.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect::<Vec<_>>());
                (l(&one), l(&v))
            }).0;
            match lex { Err(e) => return cx.fail(key, inp(), format!("panic: {e}")), Ok((a, b)) => if a != b { return cx.fail(key, inp(), format!("token patterns {b:?}, in one piece {a:?}")); } }
        } }
        cx.outcome("descriptions in pieces");
    }
    Ok(())
}
/// Literals in pieces: every sequence over a few spellings, cut in every way, all given to one visitor; then token rules continue with the numbers reached.
const LITS: [&str; 4] = ["'x'", "'\\n'", "'a.b'", "'X'"];
const LIT_UNITS: usize = 16;
fn ldepth(t: Tier) -> usize { t.pick(6, 8) }
fn literals(cx: &mut Ctx, unit: usize) -> Res {
    let leaf = |k: usize, s: &str| ASTContext::Terminal(TerminalContext { symbol: Token::new(k, "t", s) });
    let node = |k: usize, c: Vec<ASTContext>| ASTContext::Rule(RuleContext { rule_index: k, rule_name: "n".into(), children: c });
    let lits = |v: &[&str]| -> RuleContext { let e = v.iter().map(|s| node(P::ELEMENT, vec![leaf(L::STRING_LITERAL, s)])).collect(); RuleContext { rule_index: P::RULE_LIST, rule_name: "rule_list".into(), children: vec![node(P::PARSER_RULE, vec![leaf(L::RULE_REF, "ra"), leaf(L::COLON, ":"), node(P::BLOCK, vec![node(P::ALTERNATIVE, e)]), leaf(L::SEMI, ";")])] } };
    let rule = |name: &str| RuleContext { rule_index: P::RULE_LIST, rule_name: "rule_list".into(), children: vec![node(P::LEXER_RULE, vec![leaf(L::TOKEN_REF, name), leaf(L::COLON, ":"), node(P::REGULAR, vec![leaf(L::REGULAR_LITERAL, "/r/")]), leaf(L::SEMI, ";")])] };
    let data = |v: &[LexerRuleData]| v.iter().map(|d| (d.token_type, d.token_name.clone(), d.regex.clone())).collect::<Vec<_>>();
    for i in (unit..seq_count(LITS.len(), ldepth(cx.tier))).step_by(LIT_UNITS) {
        let w: Vec<&str> = nth_seq(i, LITS.len()).into_iter().map(|x| LITS[x]).collect();
        if w.is_empty() { continue; }
        for mask in 0u32..1 << (w.len() - 1) {
            cx.begin()?;
            cx.states += 1; cx.traces += 1; cx.transitions += w.len() as u64;
            let inp = || json!({"literals": w, "cut_after": bits(mask as u128).collect::<Vec<_>>()});
            let key = format!("literals {w:?} {mask}");
            let r = guarded(|| {
                let one = { let mut v = StringLiteralVisitor::new(); RuleListContext::accept(&lits(&w), &mut v); v };
                let mut v = StringLiteralVisitor::new(); let mut a = 0;
                for b in 1..=w.len() { if b == w.len() || mask >> (b - 1) & 1 == 1 { RuleListContext::accept(&lits(&w[a..b]), &mut v); a = b; } }
                let (x, y) = ((one.next_token_type, data(&one.data)), (v.next_token_type, data(&v.data)));
                let mut l = LexerRuleVisitor::new(v.data, v.next_token_type);
                for n in ["AA", "BB"] { RuleListContext::accept(&rule(n), &mut l); }
                (x, y, (l.next_token_type, data(&l.data)))
            }).0;
            let (x, y, l) = match r { Ok(r) => r, Err(e) => return cx.fail(key, inp(), format!("panic: {e}")) };
            if x != y { return cx.fail(key, inp(), format!("literals {y:?}, in one piece {x:?}")); }
            let mut z = x.1.clone(); for n in ["AA", "BB"] { let k = x.0 + z.len() - x.1.len(); z.push((k, n.into(), "^(r)".into())); }
            let plain = |v: &Vec<(usize, String, String)>| v.iter().map(|d| (d.0, d.1.clone())).collect::<Vec<_>>();
            if l.0 != x.0 + 2 || l.1[..x.1.len().min(l.1.len())] != x.1[..] || plain(&l.1) != plain(&z) { return cx.fail(key, inp(), format!("with two token rules {:?}, expected {z:?}", l)); }
        }
        cx.outcome("literals in pieces");
    }
    Ok(())
}
fn fams(t: Tier) -> Vec<Fam> { match t { Tier::Quick => vec![Fam::One { max: 4, lazy: false }, Fam::Two { total: 4 }, Fam::Repeat { total: 4 }, Fam::Pairs { esize: 1 }, Fam::Many { max: 3 }], Tier::Thorough => vec![Fam::One { max: 5, lazy: true }, Fam::Two { total: 5 }, Fam::Repeat { total: 5 }, Fam::Pairs { esize: 2 }, Fam::Many { max: 6 }] } }
fn tdepth(t: Tier) -> usize { t.pick(5, 6) }
fn gdepth(t: Tier) -> usize { t.pick(5, 6) }
const TU: usize = OPS.len() * OPS.len();
const GU: usize = GOPS * GOPS;
fn units(t: Tier) -> usize { TU + GU + LIT_UNITS + fams(t).len() * Fam::SLICES }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let t = cx.tier;
    if unit < TU { return trees(cx, unit, tdepth(t)); }
    if unit < TU + GU { return grammars(cx, unit - TU, gdepth(t)); }
    if unit < TU + GU + LIT_UNITS { return literals(cx, unit - TU - GU); }
    let u = unit - TU - GU - LIT_UNITS;
    let mut ws: std::collections::HashMap<usize, WordSpace> = Default::default();
    fams(t)[u / Fam::SLICES].run(u % Fam::SLICES, &mut |d| { let s = ws.entry(d.tokens).or_insert_with(|| words_for(d)); described(cx, d, s) })
}
static DEF: CheckDef = CheckDef {
    id: "C26",
    rule: "Every history of operations up to a depth on two trees (15 operations: add, remove, renumber, move, copy, nest, exchange) and on two grammars (11 operations), each history run from the beginning on the real objects with every query compared with a plain model after every operation; every way of cutting each description of the families into pieces (all cuts up to 6 rules, else every single cut and all at once), given to one visitor, to visitors that continue each other's numbers, or taken to productions piece by piece; every sequence of literals cut in every way.",
    bounds: |t| json!({"tree_operations": OPS, "tree_depth": tdepth(t), "grammar_operations": (0..GOPS).map(gop).collect::<Vec<_>>(), "grammar_depth": gdepth(t), "literals": {"spellings": LITS, "sequence": ldepth(t), "cuts": "all"}, "ways_of_giving_pieces": WAYS, "families": fams(t).iter().map(|f| f.name()).collect::<Vec<_>>()}),
    assumptions: &["printed trees are compared up to spacing", "the covered text is asked for only while the first leaf does not start behind the end of the last"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
