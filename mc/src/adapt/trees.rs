// Exhaustive enumeration of syntax trees and conversion to the real types (included per binary).
#![allow(dead_code)]
use std::collections::HashMap;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MT { Rule(usize, Vec<MT>), Term(usize), Err(usize) }

/// All trees over given rule numbers and leaves, by number of nodes; supports direct access by index.
pub struct Space { pub rules: Vec<usize>, pub leaves: Vec<MT>, t: Vec<usize>, f: Vec<usize> }
impl Space {
    pub fn new(rules: &[usize], leaves: &[MT], max: usize) -> Space {
        let (r, l) = (rules.len(), leaves.len());
        let mut t = vec![0; max + 1]; let mut f = vec![0; max + 1];
        f[0] = 1;
        for n in 1..=max {
            t[n] = r * f[n - 1] + if n == 1 { l } else { 0 };
            f[n] = (1..=n).map(|s| t[s] * f[n - s]).sum();
        }
        Space { rules: rules.to_vec(), leaves: leaves.to_vec(), t, f }
    }
    /// forests with exactly n nodes
    pub fn forests(&self, n: usize) -> usize { self.f[n] }
    pub fn forest(&self, n: usize, mut i: usize) -> Vec<MT> {
        if n == 0 { return vec![]; }
        for s in 1..=n {
            let c = self.t[s] * self.f[n - s];
            if i < c { let mut v = vec![self.tree(s, i / self.f[n - s])]; v.extend(self.forest(n - s, i % self.f[n - s])); return v; }
            i -= c;
        }
        unreachable!()
    }
    fn tree(&self, n: usize, i: usize) -> MT {
        let c = self.rules.len() * self.f[n - 1];
        if i < c { MT::Rule(self.rules[i / self.f[n - 1]], self.forest(n - 1, i % self.f[n - 1])) } else { self.leaves[i - c].clone() }
    }
    /// number of trees with a given root and at most `max` nodes below it
    pub fn upto(&self, max: usize) -> usize { (0..=max).map(|n| self.f[n]).sum() }
    pub fn nth_upto(&self, mut i: usize) -> Vec<MT> { let mut n = 0; while i >= self.f[n] { i -= self.f[n]; n += 1; } self.forest(n, i) }
}

pub const NAMES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
pub fn rule_name(n: usize) -> String { NAMES.get(n).map_or_else(|| format!("rule{n}"), |s| s.to_string()) }

/// Source text used for leaf texts; leaf i covers a slice of its own, with gaps between.
pub const PIECES: [&str; 5] = ["ab", "é", ";", "字x", ""];
pub struct Builder { pub source: String, pub leaves: Vec<(usize, usize)>, n: usize, blank: Option<usize> }
impl Builder {
    pub fn new() -> Builder { Builder { source: "·".into(), leaves: vec![], n: 0, blank: None } }
    /// Every second leaf (from the given one) has an empty text of its own.
    pub fn blank(from: usize) -> Builder { Builder { blank: Some(from), ..Builder::new() } }
    fn token(&mut self, kind: usize) -> Token {
        let i = self.n; self.n += 1;
        // the end token covers nothing; a leaf's own text need not be the slice it covers (loaded trees)
        let text = if kind == 1 { "" } else { PIECES[i % PIECES.len()] };
        let a = self.source.len(); self.source += text; let b = self.source.len(); self.source += [" ", "\n", "", "→"][i % 4];
        self.leaves.push((a, b));
        let own = if self.blank.is_some_and(|b| i % 2 == b) { String::new() } else if kind == 1 { "_STOP".into() } else { format!("{}{i}", PIECES[(i + 2) % PIECES.len()]) };
        let mut t = Token::new(kind, &format!("K{kind}"), &own);
        (t.start.line, t.start.char_position, t.stop.line, t.stop.char_position) = (i, 3 * i, i, 3 * i + 1);
        (t.channel, t.token_index, t.char_start_index, t.char_stop_index) = (i % 2, i, a, b);
        t
    }
    pub fn node(&mut self, t: &MT) -> ASTContext {
        match t {
            MT::Rule(n, ch) => ASTContext::Rule(self.rule(*n, ch)),
            MT::Term(k) => ASTContext::Terminal(TerminalContext { symbol: self.token(*k) }),
            MT::Err(k) => ASTContext::Error(ErrorContext { symbol: self.token(*k) }),
        }
    }
    pub fn rule(&mut self, n: usize, ch: &[MT]) -> RuleContext { RuleContext { rule_name: rule_name(n), rule_index: n, children: ch.iter().map(|c| self.node(c)).collect() } }
}

pub fn addr<T>(x: &T) -> usize { x as *const T as usize }
/// Address of every node -> its number in document order.
pub fn index(r: &RuleContext) -> HashMap<usize, usize> {
    fn go(r: &RuleContext, m: &mut HashMap<usize, usize>) {
        let k = m.len(); m.insert(addr(r), k);
        for c in &r.children { match c { ASTContext::Rule(x) => go(x, m), ASTContext::Terminal(x) => { let k = m.len(); m.insert(addr(x), k); } ASTContext::Error(x) => { let k = m.len(); m.insert(addr(x), k); } } }
    }
    let mut m = HashMap::new();
    go(r, &mut m);
    m
}
pub fn show(n: usize, ch: &[MT]) -> String {
    format!("{n}({})", ch.iter().map(|c| match c { MT::Rule(n, ch) => show(*n, ch), MT::Term(k) => format!("t{k}"), MT::Err(k) => format!("e{k}") }).collect::<Vec<_>>().join(" "))
}
pub fn size(ch: &[MT]) -> usize { ch.iter().map(|c| match c { MT::Rule(_, ch) => 1 + size(ch), _ => 1 }).sum() }

/// Numbers of nodes and leaves taken in all pairs.
pub const NUMBERS: std::ops::Range<usize> = 0..18;
/// Small trees (with the root's number) in which every pair of numbers occurs in every combination of leaf kinds.
pub fn numbered() -> Vec<(usize, Vec<MT>)> {
    let mut v = vec![];
    for a in NUMBERS { for b in NUMBERS { for kinds in 0..4 {
        let leaf = |k: usize, e: bool| if e { MT::Err(k) } else { MT::Term(k) };
        let (la, lb) = (leaf(a, kinds & 1 == 1), leaf(b, kinds & 2 == 2));
        let r = |n: usize, c: &[&MT]| MT::Rule(n, c.iter().map(|x| (*x).clone()).collect());
        let (ea, eb, ia, ib) = (r(a, &[]), r(b, &[]), r(a, &[&lb]), r(b, &[&lb, &la]));
        let (iaa, iba) = (r(a, &[&ia]), r(b, &[&ea]));
        for c in [vec![&la, &lb], vec![&lb, &la, &lb], vec![&ia, &la], vec![&la, &ib, &lb], vec![&iaa], vec![&ea, &la, &eb], vec![&iba, &lb, &ib, &ea]] { v.push((a, c.into_iter().cloned().collect())); }
        if b == 0 { v.push((a, vec![la.clone()])); v.push((a, vec![ea.clone()])); v.push((a, vec![])); }
    } } }
    v
}
pub fn large_sizes() -> Vec<usize> { (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 520, 1000, 1023, 1024, 1025, 2049, 4097, 5000, 66_000]).collect() }
pub const DEEPEST: usize = 1025;
pub const LARGE: &str = "5 shapes (chain, padded chain, wide mixed, wide empty around a leaf, tower of wide nodes) x sizes 1..=40, 63..65, 100, 127..129, 200, 255..257, 300, 520, 1000, 1023..1025; the wide ones also 2049, 4097, 5000 and (printing and queries only) 66000";
/// Larger shapes: chains, wide nodes, empty rules around a leaf.
pub fn large(rules: &[usize], leaf: &MT) -> Vec<Vec<MT>> {
    let mut v = vec![];
    for n in large_sizes() {
        let deep = n <= DEEPEST;
        let mut c = vec![leaf.clone()];
        if deep { for k in 0..n { c = vec![MT::Rule(rules[k % rules.len()], c)]; } v.push(c.clone()); }
        let mut c = vec![leaf.clone()];
        if deep { for k in 0..n { let e = MT::Rule(rules[k % rules.len()], vec![]); c = vec![e.clone(), MT::Rule(rules[(k + 1) % rules.len()], c), e]; } v.push(c); }
        v.push((0..n).map(|k| if k % 3 == 1 { MT::Rule(rules[k % rules.len()], if k % 2 == 0 { vec![] } else { vec![leaf.clone()] }) } else { leaf.clone() }).collect());
        // every node has a leaf, a rule and another leaf
        let mut c = vec![];
        if deep { for k in 0..n { c = vec![leaf.clone(), MT::Rule(rules[k % rules.len()], c), leaf.clone()]; } v.push(c); }
        v.push((0..n).map(|k| MT::Rule(rules[k % rules.len()], vec![])).chain([leaf.clone()]).chain((0..n).map(|k| MT::Rule(rules[k % rules.len()], vec![]))).collect());
    }
    v
}
