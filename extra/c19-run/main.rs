#![allow(unused)]
use syntaxis::tool::grammar::*;
use syntaxis::tool::{serde_ast, syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P, syntaxis_context::RuleListContext}};
use syntaxis::tool::visitor::{grammar_visitor::*, lexer_rule_visitor::*};
use syntaxis::runtime::{token::Token, ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext}};
pub fn t(k: usize, s: &str) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: Token::new(k, "t", s) }) }
pub fn rc(n: usize, c: Vec<ASTContext>) -> RuleContext { RuleContext { rule_index: n, rule_name: "n".into(), children: c } }
pub fn r(n: usize, c: Vec<ASTContext>) -> ASTContext { ASTContext::Rule(rc(n, c)) }
pub fn el(a: ASTContext) -> ASTContext { r(P::ELEMENT, vec![a]) }
pub fn suf(a: ASTContext, k: &[usize]) -> ASTContext { r(P::ELEMENT, vec![a, r(P::EBNF_SUFFIX, k.iter().map(|k| t(*k, "s")).collect())]) }
pub fn tok(s: &str) -> ASTContext { t(L::TOKEN_REF, s) }
pub fn rule(s: &str) -> ASTContext { t(L::RULE_REF, s) }
pub fn alt(e: Vec<ASTContext>) -> ASTContext { if e.is_empty() { r(P::ALTERNATIVE, vec![r(P::EPSILON, vec![t(L::EPSILON, "e")])]) } else { r(P::ALTERNATIVE, e) } }
pub fn block(a: Vec<ASTContext>) -> ASTContext { let mut c = vec![]; for (i, x) in a.into_iter().enumerate() { if i > 0 { c.push(t(L::OR, "|")); } c.push(x); } r(P::BLOCK, c) }
pub fn prule(n: &str, b: ASTContext) -> ASTContext { r(P::PARSER_RULE, vec![rule(n), t(L::COLON, ":"), b, t(L::SEMI, ";")]) }
pub fn lrule(n: &str, p: &str) -> ASTContext { r(P::LEXER_RULE, vec![tok(n), t(L::COLON, ":"), r(P::REGULAR, vec![t(L::REGULAR_LITERAL, p)]), t(L::SEMI, ";")]) }
pub fn list(c: Vec<ASTContext>) -> RuleContext { rc(P::RULE_LIST, c) }
pub fn translate(ast: &RuleContext) -> (Grammar, Vec<LexerRuleData>) {
  let mut g = Grammar::new("g");
  let (rc, data) = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(ast, &mut v); (v.next_rule_id, v.data) };
  { let mut v = ProductionVisitor::new(&mut g, rc); RuleListContext::accept(ast, &mut v); }
  (g, data)
}
/// does rule n derive w?
pub fn derives(g: &Grammar, n: usize, w: &[usize]) -> bool {
  let m = w.len(); let mut d = std::collections::HashSet::new();
  loop {
    let mut add = vec![];
    for p in &g.productions { for i in 0..=m {
      let mut ends = std::collections::BTreeSet::from([i]);
      for x in &p.right { let mut nx = std::collections::BTreeSet::new(); for &e in &ends { match x { ProductionItem::Terminal(t) => if e < m && w[e] == *t { nx.insert(e + 1); }, ProductionItem::NonTerminal(k) => for j in e..=m { if d.contains(&(*k, e, j)) { nx.insert(j); } } } } ends = nx; }
      for e in ends { if !d.contains(&(p.left, i, e)) { add.push((p.left, i, e)); } }
    } }
    if add.is_empty() { return d.contains(&(n, 0, m)); }
    d.extend(add);
  }
}
fn main() {
  let mut v = StringLiteralVisitor::new();
  RuleListContext::accept(&list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, "'\\''"))])]))]), &mut v);
  let x = regex::Regex::new(&v.data[0].regex).unwrap(); assert_eq!(x.find("'").map(|m| m.end()), Some(1));
}
