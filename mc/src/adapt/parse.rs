// Driving the two real LL(1) parsers and comparing trees with reference derivation trees (included per binary).
#![allow(dead_code)]
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Grammar, Production};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser as V1Parser;

pub type Table = HashMap<(usize, usize), Rc<Production>>;

/// What the tokens handed to the parsers carry besides their number.
pub const STYLES: [&str; 5] = ["every field of every token different", "made by hand: right name, equal texts, no positions", "the name of another terminal, its text too", "no name, no text", "extreme numbers, the end marker's name and text"];
thread_local! { static STYLE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
pub fn with_style<T>(m: usize, f: impl FnOnce() -> T) -> T { STYLE.with(|c| c.set(m)); let r = f(); STYLE.with(|c| c.set(0)); r }
pub fn style() -> usize { STYLE.with(|c| c.get()) }
pub fn token(i: usize, kind: usize) -> Token {
    match style() {
        0 => {}
        1 => return Token::new(kind, &format!("T{kind}"), "x"),
        2 => { let n = format!("T{}", if kind == 2 { 3 } else { 2 }); return Token::new(kind, &n, &n) }
        3 => return Token::new(kind, "", ""),
        _ => {
            let mut t = Token::new(kind, "_STOP", "_STOP");
            (t.start.line, t.start.char_position, t.stop.line, t.stop.char_position) = (usize::MAX, usize::MAX, 0, 0);
            (t.channel, t.token_index, t.char_start_index, t.char_stop_index) = (usize::MAX, usize::MAX - i, usize::MAX, 0);
            return t;
        }
    }
    let mut t = Token::new(kind, &format!("K{kind}_{i}"), &format!("w{i}"));
    (t.start.line, t.start.char_position, t.stop.line, t.stop.char_position) = (7 * i + 1, 11 * i + 2, 7 * i + 3, 11 * i + 5);
    (t.channel, t.token_index, t.char_start_index, t.char_stop_index) = (i % 3, 100 + i, 13 * i + 4, 13 * i + 9);
    t
}
pub fn tokens(w: &[usize]) -> Vec<Token> { w.iter().enumerate().map(|(i, &k)| token(i, super::adapt::num_t(k))).collect() }
pub fn same_token(a: &Token, b: &Token) -> bool {
    a.token_type == b.token_type && a.token_name == b.token_name && a.start.line == b.start.line && a.start.char_position == b.start.char_position
        && a.stop.line == b.stop.line && a.stop.char_position == b.stop.char_position && a.channel == b.channel && a.text == b.text
        && a.token_index == b.token_index && a.char_start_index == b.char_start_index && a.char_stop_index == b.char_stop_index
}

pub fn show_real(r: &RuleContext) -> String {
    let mut s = format!("{}#{}(", r.rule_name, r.rule_index);
    for (i, c) in r.children.iter().enumerate() {
        if i > 0 { s.push(' ') }
        match c { ASTContext::Rule(r) => s += &show_real(r), ASTContext::Terminal(t) => s += &t.symbol.text, ASTContext::Error(e) => { s.push('!'); s += &e.symbol.text } }
    }
    s + ")"
}
pub fn show_tree(t: &Tree, name: &dyn Fn(usize) -> String) -> String {
    match t { Tree::Leaf(i) => format!("w{i}"), Tree::Node(n, ch) => format!("{}#{}({})", name(*n), n, ch.iter().map(|c| show_tree(c, name)).collect::<Vec<_>>().join(" ")) }
}
/// None if `r` is exactly the tree `t` over tokens `w`.
pub fn tree_diff(r: &RuleContext, t: &Tree, w: &[Token], name: &dyn Fn(usize) -> String) -> Option<String> {
    let Tree::Node(n, ch) = t else { return Some("leaf expected".into()) };
    if r.rule_index != super::adapt::num_n(*n) { return Some(format!("rule number {} where {} belongs", r.rule_index, n)); }
    if r.rule_name != name(*n) { return Some(format!("rule name {:?} where {:?} belongs", r.rule_name, name(*n))); }
    if r.children.len() != ch.len() { return Some(format!("rule {n}: {} children where {} belong", r.children.len(), ch.len())); }
    for (a, b) in r.children.iter().zip(ch) {
        match (a, b) {
            (ASTContext::Terminal(x), Tree::Leaf(i)) => if !same_token(&x.symbol, &w[*i]) { return Some(format!("leaf {} is not input token {}", x.symbol, w[*i])); },
            (ASTContext::Rule(x), Tree::Node(..)) => if let Some(d) = tree_diff(x, b, w, name) { return Some(d); },
            _ => return Some(format!("a child of rule {n} has the wrong kind")),
        }
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which { Generic, V1 }

/// Builds the table with the real analysis. Err on panic or on any printed diagnostic.
pub fn real_table(x: &Grammar) -> Result<Table, String> {
    let (r, out) = guarded(|| { let (f, pf) = x.first_set(); let fo = x.follow_set(&f); x.ll1_table(&pf, &fo) });
    let t = r.map_err(|p| format!("building the table panicked: {p}"))?;
    if !out.iter().all(|b| b.is_ascii_whitespace()) { return Err("conflict printed for an LL(1) grammar".into()); }
    Ok(t)
}

pub enum Got { Tree(RuleContext), Panic(String) }
/// Two parses by one and the same parser.
pub fn run_parser_twice(which: Which, g: &Cfg, anon: u32, table: &Table, toks: Vec<Token>) -> (Vec<Got>, bool) {
    let is_anon = |n: usize| g.nts.iter().position(|&a| a == n).map_or(false, |i| anon >> i & 1 == 1);
    let x = super::adapt::real(g, &is_anon);
    let mut v = vec![];
    let (r, out) = guarded(|| match which {
        Which::Generic => { let p = LL1Parser::new(toks, table.clone(), x); for _ in 0..2 { v.push(Got::Tree(p.parse())); } }
        Which::V1 => { let p = V1Parser::new(toks, table.clone(), x.vocabulary); for _ in 0..2 { v.push(Got::Tree(p.parse())); } }
    });
    if let Err(p) = r { v.push(Got::Panic(p)); }
    (v, !out.iter().all(|b| b.is_ascii_whitespace()))
}
pub fn run_parser(which: Which, g: &Cfg, anon: u32, table: &Table, toks: Vec<Token>) -> (Got, bool) {
    let is_anon = |n: usize| g.nts.iter().position(|&a| a == n).map_or(false, |i| anon >> i & 1 == 1);
    let x = super::adapt::real(g, &is_anon);
    let (r, out) = guarded(|| match which {
        Which::Generic => LL1Parser::new(toks, table.clone(), x).parse(),
        Which::V1 => V1Parser::new(toks, table.clone(), x.vocabulary).parse(),
    });
    let printed = !out.iter().all(|b| b.is_ascii_whitespace());
    match r { Ok(t) => (Got::Tree(t), printed), Err(p) => (Got::Panic(p), printed) }
}

/// All sentences of rule 0 up to length `max`, by enumerating leftmost derivations (needs an LL(1) grammar). Stops at `cap`.
pub fn sentences(g: &Cfg, max: usize, cap: usize) -> (Vec<Vec<usize>>, bool) {
    const INF: usize = 1 << 20;
    let mut ml = vec![INF; g.nts.len()];
    loop {
        let mut ch = false;
        for p in &g.prods {
            let s: usize = p.r.iter().map(|s| match *s { Sym::T(_) => 1, Sym::N(a) => ml[g.ix(a)] }).sum();
            let i = g.ix(p.l);
            if s < ml[i] { ml[i] = s; ch = true; }
        }
        if !ch { break; }
    }
    let mut out = vec![];
    fn rec(g: &Cfg, ml: &[usize], st: &mut Vec<Sym>, w: &mut Vec<usize>, max: usize, cap: usize, out: &mut Vec<Vec<usize>>) -> bool {
        let need: usize = st.iter().map(|s| match *s { Sym::T(_) => 1, Sym::N(a) => ml[g.ix(a)] }).sum();
        if w.len() + need > max { return true; }
        match st.pop() {
            None => { if out.len() >= cap { return false; } out.push(w.clone()); true }
            Some(Sym::T(t)) => { w.push(t); let r = rec(g, ml, st, w, max, cap, out); w.pop(); st.push(Sym::T(t)); r }
            Some(Sym::N(a)) => {
                let mut ok = true;
                for p in &g.prods { if p.l == a {
                    let n = st.len();
                    st.extend(p.r.iter().rev());
                    ok &= rec(g, ml, st, w, max, cap, out);
                    st.truncate(n);
                    if !ok { break; }
                } }
                st.push(Sym::N(a));
                ok
            }
        }
    }
    let complete = rec(g, &ml, &mut vec![Sym::N(0)], &mut vec![], max, cap, &mut out);
    (out, complete)
}

/// Realistic LL(1) grammars.
pub fn realistic() -> Vec<(&'static str, Cfg)> {
    use Sym::*;
    let p = |l: usize, r: Vec<Sym>| Prod { l, r };
    let mut v = vec![];
    // expressions: e -> t e'; e' -> + t e' | eps; t -> f t'; t' -> * f t' | eps; f -> ( e ) | id
    v.push(("expressions", Cfg { nts: (0..5).collect(), ts: (2..7).collect(), prods: vec![
        p(0, vec![N(1), N(2)]), p(2, vec![T(2), N(1), N(2)]), p(2, vec![]), p(1, vec![N(3), N(4)]), p(4, vec![T(3), N(3), N(4)]), p(4, vec![]),
        p(3, vec![T(4), N(0), T(5)]), p(3, vec![T(6)]) ] }));
    // json-like: v -> { m } | [ l ] | a ; m -> a : v m' | eps ; m' -> , a : v m' | eps ; l -> v l' | eps ; l' -> , v l' | eps
    v.push(("values", Cfg { nts: (0..5).collect(), ts: (2..9).collect(), prods: vec![
        p(0, vec![T(2), N(1), T(3)]), p(0, vec![T(4), N(3), T(5)]), p(0, vec![T(6)]),
        p(1, vec![T(6), T(7), N(0), N(2)]), p(1, vec![]), p(2, vec![T(8), T(6), T(7), N(0), N(2)]), p(2, vec![]),
        p(3, vec![N(0), N(4)]), p(3, vec![]), p(4, vec![T(8), N(0), N(4)]), p(4, vec![]) ] }));
    // declarations with three optional parts and a list
    v.push(("declarations", Cfg { nts: (0..6).collect(), ts: (2..8).collect(), prods: vec![
        p(0, vec![N(1), N(0)]), p(0, vec![]), p(1, vec![N(2), T(2), N(3), N(4), T(3)]), p(2, vec![T(4)]), p(2, vec![]),
        p(3, vec![T(5), T(2), N(5)]), p(3, vec![]), p(4, vec![T(6), T(2)]), p(4, vec![]), p(5, vec![T(7), T(2), N(5)]), p(5, vec![]) ] }));
    // rule numbers far apart, terminals and rules sharing numbers
    v.push(("sparse numbers", Cfg { nts: vec![0, 3, 7, 90], ts: vec![3, 7, 90], prods: vec![
        p(0, vec![N(90), N(3)]), p(3, vec![T(3), N(7), N(3)]), p(3, vec![]), p(7, vec![T(90), N(90)]), p(7, vec![T(7)]), p(90, vec![N(7), T(90)]), p(90, vec![]) ] }));
    v.retain(|(_, g)| g.is_ll1());
    v
}

pub fn input_json(g: &Cfg, anon: u32, which: Which, w: &[usize]) -> Value {
    json!({"productions": g.describe(), "numbering": super::adapt::numbering(), "naming": super::adapt::naming(), "tokens": STYLES[style()], "anonymous_rules": g.nts.iter().enumerate().filter(|(i, _)| anon >> i & 1 == 1).map(|(_, n)| n).collect::<Vec<_>>(), "parser": format!("{which:?}"), "token_types": w})
}
