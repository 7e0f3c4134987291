// The shipped front end (lexer, table of the shipped description, parser) and a reference tree of grammar texts (included per binary, next to desc).
#![allow(dead_code)]
use mc::ebnf::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::rc::Rc;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::grammar::{Grammar, Production};
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer, syntaxis_parser::SyntaxisParser};

// numbers of the notation as documented for the shipped lexer
pub const RULE_REF: usize = 2; pub const TOKEN_REF: usize = 3; pub const COLON: usize = 4; pub const SEMI: usize = 5; pub const OR: usize = 6; pub const EPSILON: usize = 7;
pub const STAR: usize = 8; pub const PLUS: usize = 9; pub const QUESTION: usize = 10; pub const LPAREN: usize = 11; pub const RPAREN: usize = 12; pub const STRING: usize = 13; pub const REGULAR: usize = 14;
pub const KIND_NAMES: [&str; 16] = ["_START", "_STOP", "RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
pub const RNAMES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];
pub fn trees_name(n: usize) -> &'static str { RNAMES[n] }

pub const ARROWS: [&str; 6] = [":", "=", ":=", "::=", "->", "=>"];
pub const RULE_NAMES: [&str; 5] = ["ra", "x9_Z", "fragment", "epsilon_", LONG_RULE];
pub const LONG_RULE: &str = "a_rule_name_that_is_longer_than_any_name_somebody_would_write_by_hand_but_still_a_name_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789";
pub const TOKEN_NAMES: [&str; 4] = ["AA", "A_1z", "ZZ__9", "EPSILON"];
pub const REGULARS: [&str; 7] = ["/a/", "/\\//", "/[^;:|]+ ;/", "/'/", "/a\nb/", "/ε\\\\n/", "/\\/\\/.*/"];
pub const STRINGS: [&str; 22] = ["'a'", "'\\''", "';'", "'\\\\'", "' /* '", "'/a/'", "''", "'\\u{1f}'", "'字'", "'ra: AA;'", "'\\n7'",
    "'\\a\\d'", "'\\f'", "'\\v'", "'\\r\\t'", "'\\u{0xab}'", "'\\u{0}\\u{00}'", "'0123456789'", "'\"`$'", "'|'", "'\\\\\\''", "'😀 é'"];

/// Reference tree of a grammar text: rule number with children, or token kind with text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PT { N(usize, Vec<PT>), L(usize, String) }
impl PT {
    pub fn leaves(&self) -> Vec<(usize, String)> { match self { PT::L(k, s) => vec![(*k, s.clone())], PT::N(_, c) => c.iter().flat_map(|x| x.leaves()).collect() } }
    /// What the typed accessors must give back, as nested JSON.
    pub fn accessors(&self) -> Value {
        let PT::N(n, ch) = self else { unreachable!() };
        let t = |k: usize| ch.iter().find_map(|c| match c { PT::L(x, s) if *x == k => Some(s.clone()), _ => None });
        let ts = |k: usize| ch.iter().filter_map(|c| match c { PT::L(x, s) if *x == k => Some(s.clone()), _ => None }).collect::<Vec<_>>();
        let r = |k: usize| ch.iter().find_map(|c| match c { PT::N(x, _) if *x == k => Some(c.accessors()), _ => None });
        let rs = |k: usize| ch.iter().filter_map(|c| match c { PT::N(x, _) if *x == k => Some(c.accessors()), _ => None }).collect::<Vec<_>>();
        match n {
            0 => json!({"parser_rules": rs(1), "lexer_rules": rs(7)}),
            1 => json!({"rule_ref": t(RULE_REF), "colon": t(COLON), "block": r(2), "semi": t(SEMI)}),
            2 => json!({"alternatives": rs(3), "ors": ts(OR)}),
            3 => json!({"elements": rs(5), "epsilon": r(4)}),
            4 => json!({"epsilon": t(EPSILON)}),
            5 => json!({"token_ref": t(TOKEN_REF), "string": t(STRING), "rule_ref": t(RULE_REF), "lparen": t(LPAREN), "rparen": t(RPAREN), "block": r(2), "suffix": r(6)}),
            6 => json!({"star": t(STAR), "plus": t(PLUS), "questions": ts(QUESTION)}),
            7 => json!({"token_ref": t(TOKEN_REF), "colon": t(COLON), "semi": t(SEMI), "regular": r(8)}),
            8 => json!({"literal": t(REGULAR)}),
            _ => unreachable!(),
        }
    }
}
fn l(k: usize, s: &str) -> PT { PT::L(k, s.to_string()) }
pub fn list(ch: Vec<PT>) -> PT { PT::N(0, ch) }
pub fn parser_rule(name: &str, arrow: &str, b: &Block) -> PT { PT::N(1, vec![l(RULE_REF, name), l(COLON, arrow), block(b), l(SEMI, ";")]) }
pub fn lexer_rule(name: &str, arrow: &str, lit: &str) -> PT { PT::N(7, vec![l(TOKEN_REF, name), l(COLON, arrow), PT::N(8, vec![l(REGULAR, lit)]), l(SEMI, ";")]) }
pub fn block(b: &Block) -> PT { let mut ch = vec![]; for (i, a) in b.iter().enumerate() { if i > 0 { ch.push(l(OR, "|")) } ch.push(alt(a)); } PT::N(2, ch) }
pub fn alt(a: &Alt) -> PT { if a.is_empty() { PT::N(3, vec![PT::N(4, vec![l(EPSILON, "ε")])]) } else { PT::N(3, a.iter().map(elem).collect()) } }
/// Token 1 is written as a string literal.
pub fn elem(e: &Elem) -> PT {
    let mut ch = match &e.atom { Atom::Tok(1) => vec![l(STRING, "'x;'")], Atom::Tok(x) => vec![l(TOKEN_REF, TOKENS[*x])], Atom::Rule(x) => vec![l(RULE_REF, RULES[*x])], Atom::Block(b) => vec![l(LPAREN, "("), block(b), l(RPAREN, ")")] };
    if e.suf != Suf::None {
        let mut s = vec![match e.suf { Suf::Star => l(STAR, "*"), Suf::Plus => l(PLUS, "+"), _ => l(QUESTION, "?") }];
        if e.lazy { s.push(l(QUESTION, "?")) }
        ch.push(PT::N(6, s));
    }
    PT::N(5, ch)
}
pub fn elem_spellings() -> Vec<PT> {
    let mut v: Vec<PT> = RULE_NAMES.iter().map(|n| PT::N(5, vec![l(RULE_REF, n)])).collect();
    v.extend(TOKEN_NAMES.iter().map(|n| PT::N(5, vec![l(TOKEN_REF, n)])));
    v.extend(STRINGS.iter().map(|n| PT::N(5, vec![l(STRING, n), PT::N(6, vec![l(PLUS, "+")])])));
    v
}

/// None if the real tree is exactly `want`.
pub fn diff(r: &RuleContext, want: &PT) -> Option<String> {
    let PT::N(n, ch) = want else { return Some("leaf expected".into()) };
    if r.rule_index != *n || r.rule_name != RNAMES[*n] { return Some(format!("node {} ({}) where {} belongs", r.rule_index, r.rule_name, RNAMES[*n])); }
    if r.children.len() != ch.len() { return Some(format!("{} has {} children, expected {}", RNAMES[*n], r.children.len(), ch.len())); }
    for (c, w) in r.children.iter().zip(ch) {
        match (c, w) {
            (ASTContext::Rule(x), PT::N(..)) => if let Some(d) = diff(x, w) { return Some(d); },
            (ASTContext::Terminal(x), PT::L(k, s)) => if x.symbol.token_type != *k || x.symbol.token_name != KIND_NAMES[*k] || x.symbol.text != *s { return Some(format!("leaf {} where {} {s:?} belongs", x.symbol, KIND_NAMES[*k])); },
            _ => return Some(format!("a child of {} has the wrong kind", RNAMES[*n])),
        }
    }
    None
}

pub struct Front { pub grammar: Grammar, pub table: HashMap<(usize, usize), Rc<Production>> }
impl Front {
    /// Loads the shipped description and builds the table, as the program does.
    pub fn load() -> Result<Front, String> {
        let (ast, _) = mc::interpose::guarded(|| syntaxis::tool::serde_ast::from_reader(std::fs::File::open("/repo/src/tool/syntaxis/syntaxis2.json").expect("shipped description")).map_err(|_| "not loadable".to_string()));
        let ast = ast.map_err(|p| format!("loading the shipped description panicked: {p}"))??;
        let (p, _) = super::desc::pipeline(&ast);
        let p = p.map_err(|e| format!("translating the shipped description panicked: {e}"))?;
        let (t, out) = mc::interpose::guarded(|| { let (f, pf) = p.grammar.first_set(); let fo = p.grammar.follow_set(&f); p.grammar.ll1_table(&pf, &fo) });
        let table = t.map_err(|e| format!("building the table panicked: {e}"))?;
        if !out.iter().all(|b| b.is_ascii_whitespace()) { return Err(format!("the shipped description is not LL(1): {}", String::from_utf8_lossy(&out))); }
        Ok(Front { grammar: p.grammar, table })
    }
    fn vocabulary(&self) -> Vocabulary {
        let v = &self.grammar.vocabulary;
        let mut n = Vocabulary::new();
        for t in v.get_all_terminals() { if *t > 1 { n.add_terminal(*t, &v.get_terminal_name_by_id(*t).unwrap()); } }
        for r in v.get_all_nonterminals() { match v.get_nonterminal_name_by_id(*r) { Some(name) => { n.add_named_nonterminal(*r, &name); } None => { n.add_unnamed_nonterminal(*r); } } }
        n
    }
    pub fn parser(&self, text: &str) -> SyntaxisParser {
        let toks = SyntaxisLexer::new(text).scan_all_on_channel_tokens(0);
        SyntaxisParser::new(toks, self.table.clone(), self.vocabulary())
    }
    pub fn parse(&self, text: &str) -> RuleContext { self.parser(text).parse() }
    /// Parses from the typed entry point of `rule`; returns the tree and what the typed accessors say.
    pub fn entry(&self, rule: usize, text: &str) -> (RuleContext, Value) {
        let p = self.parser(text);
        macro_rules! go { ($m:ident, $f:ident) => {{ let x = p.$m(); (x.as_rule().clone(), $f!(x)) }}; }
        match rule { 0 => go!(rule_list, a_list), 1 => go!(parser_rule, a_parser_rule), 2 => go!(block, a_block), 3 => go!(alternative, a_alt), 4 => go!(epsilon, a_eps), 5 => go!(element, a_elem), 6 => go!(ebnf_suffix, a_suffix), 7 => go!(lexer_rule, a_lexer_rule), 8 => go!(regular, a_regular), _ => unreachable!() }
    }
}
fn tx(t: Option<&TerminalContext>) -> Option<String> { t.map(|x| x.symbol.text.clone()) }
fn txs(t: Vec<&TerminalContext>) -> Vec<String> { t.iter().map(|x| x.symbol.text.clone()).collect() }
// Macros, so that they work on whichever family of context traits the parser hands out; blocks recurse through a trait-agnostic closure.
macro_rules! a_regular { ($x:expr) => { json!({"literal": tx($x.regular_literal())}) }; }
macro_rules! a_lexer_rule { ($x:expr) => { json!({"token_ref": tx($x.token_ref()), "colon": tx($x.colon()), "semi": tx($x.semi()), "regular": $x.regular().map(|y| a_regular!(y))}) }; }
macro_rules! a_suffix { ($x:expr) => { json!({"star": tx($x.star()), "plus": tx($x.plus()), "questions": txs($x.question_list())}) }; }
macro_rules! a_eps { ($x:expr) => { json!({"epsilon": tx($x.epsilon())}) }; }
macro_rules! a_elem { ($x:expr) => { json!({"token_ref": tx($x.token_ref()), "string": tx($x.string_literal()), "rule_ref": tx($x.rule_ref()), "lparen": tx($x.lparen()), "rparen": tx($x.rparen()), "block": $x.block().map(|b| block_value(b)), "suffix": $x.ebnf_suffix().map(|y| a_suffix!(y))}) }; }
macro_rules! a_alt { ($x:expr) => { json!({"elements": $x.element_list().into_iter().map(|e| a_elem!(e)).collect::<Vec<_>>(), "epsilon": $x.epsilon().map(|y| a_eps!(y))}) }; }
macro_rules! a_block { ($x:expr) => { json!({"alternatives": $x.alternative_list().into_iter().map(|a| a_alt!(a)).collect::<Vec<_>>(), "ors": txs($x.or_list())}) }; }
macro_rules! a_parser_rule { ($x:expr) => { json!({"rule_ref": tx($x.rule_ref()), "colon": tx($x.colon()), "block": $x.block().map(|b| a_block!(b)), "semi": tx($x.semi())}) }; }
macro_rules! a_list { ($x:expr) => { json!({"parser_rules": $x.parser_rule_list().into_iter().map(|r| a_parser_rule!(r)).collect::<Vec<_>>(), "lexer_rules": $x.lexer_rule_list().into_iter().map(|r| a_lexer_rule!(r)).collect::<Vec<_>>()}) }; }
use {a_alt, a_block, a_elem, a_eps, a_lexer_rule, a_list, a_parser_rule, a_regular, a_suffix};
trait BlockValue { fn value(&self) -> Value; }
impl BlockValue for dyn syntaxis::tool::v1::syntaxis_context::BlockContext + '_ { fn value(&self) -> Value { a_block!(self) } }
impl BlockValue for dyn syntaxis::tool::syntaxis::syntaxis_context::BlockContext + '_ { fn value(&self) -> Value { a_block!(self) } }
fn block_value(b: &(impl BlockValue + ?Sized)) -> Value { b.value() }
