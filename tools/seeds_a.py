from seed_lib import write
G="src/tool/grammar/mod.rs"; V="src/runtime/vocabulary.rs"; GV="src/tool/visitor/grammar_visitor.rs"; LV="src/tool/visitor/lexer_rule_visitor.rs"
HL="src/tool/syntaxis/syntaxis_lexer.rs"; VL="src/tool/v1/syntaxis_lexer.rs"; VP="src/tool/v1/syntaxis_parser.rs"; LP="src/tool/parser/ll1_parser.rs"
RC="src/runtime/ast/rule_context.rs"; SA="src/tool/serde_ast/mod.rs"; AD="src/tool/gui/ast_drawer.rs"; TT="src/tool/templates/target/rust/lexer.tera"
VV="src/tool/v1/syntaxis_visitor.rs"; HV="src/tool/syntaxis/syntaxis_visitor.rs"; VC="src/tool/v1/syntaxis_context.rs"; HC="src/tool/syntaxis/syntaxis_context.rs"
bugs=[]
def bug(id, prop, edits, demo, needs, breaks): bugs.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))

GPRE='''#![allow(unused)]
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};
use ProductionItem::{NonTerminal as N, Terminal as T};
fn grammar(rules: &[usize], toks: &[usize], p: &[(usize, &[ProductionItem])]) -> Grammar {
  let mut g = Grammar::new("g");
  for r in rules { g.vocabulary.add_named_nonterminal(*r, &format!("r{r}")); }
  for t in toks { g.vocabulary.add_terminal(*t, &format!("T{t}")); }
  for (l, r) in p { g.productions.insert(Production::new(*l, &r.to_vec())); }
  g
}
'''
bug("c01-adopt","C01",{V:[("if self.non_terminal_name_to_id.contains_key(name) || self.nonterminals.contains(&id) { return false; }\n    self.nonterminals.insert(id);\n    self.non_terminal_name_to_id",
 "if self.non_terminal_name_to_id.contains_key(name) || self.non_terminal_id_to_name.contains_key(&id) { return false; }\n    self.nonterminals.insert(id);\n    self.non_terminal_name_to_id")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() {
  let mut v = Vocabulary::new();
  assert!(v.add_unnamed_nonterminal(7));
  assert!(!v.add_named_nonterminal(7, "late"), "number 7 was taken");
  assert_eq!(v.get_nonterminal_name_by_id(7), None);
}
''',"an anonymous rule registered first, then a named one with the same number","a named registration silently takes over the number of an anonymous rule, which then changes parse trees")

bug("c02-leftrec","C02",{G:[("        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified","        // 左递归不会带来新的元素\n        ProductionItem::NonTerminal(rule_id) if *rule_id == production.left => break,\n        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified")]},
GPRE+'''fn main() {
  // 0 -> 0 b | eps
  let g = grammar(&[0], &[2], &[(0,&[N(0),T(2)]),(0,&[])]);
  let (f, _) = g.first_set();
  assert!(f[&0].set.contains(&2) && f[&0].allow_epsilon);
}
''',"a left-recursive rule that can vanish","what follows the recursive reference is missing from FIRST")

bug("c02-rounds","C02",{G:[("    while modified {\n      modified = false;\n      \n      for production in self.productions.iter() {\n        // 不断求","    let mut round = 0;\n    while modified && round <= self.vocabulary.get_all_nonterminals().len() {\n      modified = false;\n      round += 1;\n      \n      for production in self.productions.iter() {\n        // 不断求")]},
GPRE+'''fn main() {
  // 3 can vanish, so 2 can, so 1 can; only then does 3 start with T3, and so 2, and so 1, and so 0
  for _ in 0..5000 {
    let g = grammar(&[0,1,2,3], &[3], &[(0,&[N(1)]),(1,&[N(2)]),(2,&[N(3)]),(3,&[]),(3,&[N(1),T(3)])]);
    let (f, _) = g.first_set();
    for r in 0..4 { assert!(f[&r].allow_epsilon && f[&r].set.contains(&3), "rule {r}"); }
  }
}
''',"a long chain of dependencies met in the most unfavourable iteration order","FIRST is cut off after as many rounds as there are rules, too early for some orders")

bug("c03-selfref","C03",{G:[("            // A 的 follow 集合\n","            // 递归出现在末尾时不会带来新的元素\n            if item == production.left && first.allow_epsilon { continue; }\n\n            // A 的 follow 集合\n")]},
GPRE+'''fn main() {
  // 0 -> 0 1 | a ; 1 -> b | eps
  let g = grammar(&[0,1], &[2,3], &[(0,&[N(0),N(1)]),(0,&[T(2)]),(1,&[T(3)]),(1,&[])]);
  let (f, _) = g.first_set();
  let fo = g.follow_set(&f);
  let mut s: Vec<_> = fo[&0].iter().copied().collect(); s.sort();
  assert_eq!(s, vec![1,3]);
}
''',"a rule that refers to itself followed by something that can vanish but need not","FOLLOW misses the beginnings of the optional part after a recursive reference")

bug("c04-quiet","C04",{G:[("""        for token_type in follow.iter() {
          if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {
            println!("{:?}, {:?}", production, p);
          }""","""        for token_type in follow.iter() {
          if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {
            if !p.right.is_empty() { println!("{:?}, {:?}", production, p); }
          }""")]},
GPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    // 0 -> 1 ; 1 -> eps | 2 ; 2 -> eps : both alternatives of 1 vanish
    let g = grammar(&[0,1,2], &[2], &[(0,&[N(1)]),(1,&[]),(1,&[N(2)]),(2,&[])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo);
    return;
  }
  for _ in 0..60 {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(!o.stdout.is_empty(), "the conflict was not reported");
  }
}
''',"two productions of a rule that both vanish, the empty one being entered in the table first","a conflict between two vanishing productions is silent for some iteration orders")

PPRE=GPRE+'''use syntaxis::runtime::token::Token;
use syntaxis::runtime::ast::rule_context::RuleContext;
fn toks(w: &[usize]) -> Vec<Token> { w.iter().enumerate().map(|(i, t)| { let mut x = Token::new(*t, &format!("T{t}"), &format!("x{i}")); x.token_index = i; x }).collect() }
fn v1(g: Grammar, w: &[usize]) -> RuleContext { let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo); syntaxis::tool::v1::syntaxis_parser::SyntaxisParser::new(toks(w), t, g.vocabulary).parse() }
'''
bug("c05-splice","C05",{VP:[("if let Some(_) = self.vocabulary.get_nonterminal_name_by_id(*rule_id) {","if self.vocabulary.get_nonterminal_name_by_id(*rule_id).is_some() && (!rule.children.is_empty() || rule_index == Self::RULE_LIST) {")]},
PPRE+'''fn main() {
  // 0 -> 1 ; 1 -> a 2 ; 2 -> b | eps
  let g = || grammar(&[0,1,2], &[2,3], &[(0,&[N(1)]),(1,&[T(2),N(2)]),(2,&[T(3)]),(2,&[])]);
  assert_eq!(v1(g(), &[2,3,1]).to_string().replace(' ', ""), "r0(r1(T2r2(T3)))");
  assert_eq!(v1(g(), &[2,1]).to_string().replace(' ', ""), "r0(r1(T2r2()))");
}
''',"a named rule below the start rule that matches nothing","the shipped parser drops the node of an empty named rule")

bug("c06-eof","C06",{VP:[("if *token_type != self.tokens[cursor].token_type {","if *token_type != self.tokens[cursor].token_type && cursor + 1 < self.tokens.len() {")]},
PPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    // 0 -> a b, input a and the end marker
    let g = grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]);
    v1(g, &[2,1]);
    return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success(), "an unfinished input was accepted silently");
}
''',"an input that stops exactly where one more fixed token is required","an unfinished input is accepted silently, the end marker standing in for the missing token")

DPRE='''#![allow(unused)]
use syntaxis::tool::grammar::*;
use syntaxis::tool::{serde_ast, syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P, syntaxis_context::RuleListContext}};
use syntaxis::tool::visitor::{grammar_visitor::*, lexer_rule_visitor::*};
use syntaxis::runtime::{token::Token, ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext}};
pub fn t(k: usize, s: &str) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: Token::new(k, "t", s) }) }
pub fn rc(n: usize, c: Vec<ASTContext>) -> RuleContext { RuleContext { rule_index: n, rule_name: "n".into(), children: c } }
pub fn r(n: usize, c: Vec<ASTContext>) -> ASTContext { ASTContext::Rule(rc(n, c)) }
pub fn el(a: ASTContext) -> ASTContext { r(P::ELEMENT, vec![a]) }
pub fn suf(a: ASTContext, k: &[usize]) -> ASTContext { r(P::ELEMENT, vec![a, r(P::EBNF_SUFFIX, k.iter().map(|k| t(*k, "s")).collect())]) }
pub fn tok(s: &str) -> ASTContext { t(L::TOKEN_REF, s) }
pub fn rule(s: &str) -> ASTContext { t(L::RULE_REF, s) }
pub fn alt(e: Vec<ASTContext>) -> ASTContext { if e.is_empty() { r(P::ALTERNATIVE, vec![r(P::EPSILON, vec![t(L::EPSILON, "e")])]) } else { r(P::ALTERNATIVE, e) } }
pub fn block(a: Vec<ASTContext>) -> ASTContext { let mut c = vec![]; for (i, x) in a.into_iter().enumerate() { if i > 0 { c.push(t(L::OR, "|")); } c.push(x); } r(P::BLOCK, c) }
pub fn prule(n: &str, b: ASTContext) -> ASTContext { r(P::PARSER_RULE, vec![rule(n), t(L::COLON, ":"), b, t(L::SEMI, ";")]) }
pub fn lrule(n: &str, p: &str) -> ASTContext { r(P::LEXER_RULE, vec![tok(n), t(L::COLON, ":"), r(P::REGULAR, vec![t(L::REGULAR_LITERAL, p)]), t(L::SEMI, ";")]) }
pub fn list(c: Vec<ASTContext>) -> RuleContext { rc(P::RULE_LIST, c) }
pub fn translate(ast: &RuleContext) -> (Grammar, Vec<LexerRuleData>) {
  let mut g = Grammar::new("g");
  let (rc, data) = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(ast, &mut v); (v.next_rule_id, v.data) };
  { let mut v = ProductionVisitor::new(&mut g, rc); RuleListContext::accept(ast, &mut v); }
  (g, data)
}
/// does rule n derive w?
pub fn derives(g: &Grammar, n: usize, w: &[usize]) -> bool {
  let m = w.len(); let mut d = std::collections::HashSet::new();
  loop {
    let mut add = vec![];
    for p in &g.productions { for i in 0..=m {
      let mut ends = std::collections::BTreeSet::from([i]);
      for x in &p.right { let mut nx = std::collections::BTreeSet::new(); for &e in &ends { match x { ProductionItem::Terminal(t) => if e < m && w[e] == *t { nx.insert(e + 1); }, ProductionItem::NonTerminal(k) => for j in e..=m { if d.contains(&(*k, e, j)) { nx.insert(j); } } } } ends = nx; }
      for e in ends { if !d.contains(&(p.left, i, e)) { add.push((p.left, i, e)); } }
    } }
    if add.is_empty() { return d.contains(&(n, 0, m)); }
    d.extend(add);
  }
}
'''
bug("c07-blockkey","C07",{GV:[("block_cache: HashMap<Vec<Vec<ProductionItem>>, usize>","block_cache: HashMap<Vec<ProductionItem>, usize>"),
 ("if let Some(id) = self.block_cache.get(&rights) {","let key: Vec<ProductionItem> = rights.concat();\n    if let Some(id) = self.block_cache.get(&key) {"),
 ("self.block_cache.insert(rights.clone(), id);","self.block_cache.insert(key, id);")]},
DPRE+'''fn main() {
  // ra: (AA BB) (AA | BB);
  let ast = list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![el(block(vec![alt(vec![el(tok("AA")), el(tok("BB"))])])), el(block(vec![alt(vec![el(tok("AA"))]), alt(vec![el(tok("BB"))])]))])]))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[2,3,2]) && derives(&g, 0, &[2,3,3]) && !derives(&g, 0, &[2,3,2,3]));
}
''',"two blocks in one grammar with the same symbols in the same order but split differently into alternatives","(A B) and (A | B) share one helper rule")

bug("c07-dedupsuffix","C07",{GV:[("let p2 = Production::new(self.next_rule_id, &vec![item]);","let p2 = match (&item, &self.question_cache) {\n          // (x)? 与 (x?)? 相同\n          (ProductionItem::NonTerminal(n), cache) if cache.values().any(|v| v == n) => Production::new(self.next_rule_id, &vec![]),\n          _ => Production::new(self.next_rule_id, &vec![item]),\n        };")]},
DPRE+'''fn main() {
  // ra: ((AA?))? ;   the inner block is its own rule, so this stays correct; with ra: (AA?)? through a shared block it must too
  let inner = || block(vec![alt(vec![suf(tok("AA"), &[L::QUESTION])])]);
  let ast = list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![suf(inner(), &[L::QUESTION])])]))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[2]) && derives(&g, 0, &[]));
}
''',"x","x")
bugs.pop()

bug("c08-parens","C08",{GV:[('regex: format!("^({})", regular) });\n    \n\n    self.grammar','regex: if regular.starts_with(\'(\') && regular.ends_with(\')\') { format!("^{}", regular) } else { format!("^({})", regular) } });\n    \n\n    self.grammar')]},
DPRE+'''fn main() {
  let ast = list(vec![lrule("AA","/(a)|(b)/"), lrule("BB","/(c|d)/")]);
  let (_, d) = translate(&ast);
  let re = regex::Regex::new(&d[0].regex).unwrap();
  assert!(re.is_match("a") && re.is_match("b") && !re.is_match("xb"));
  assert!(!regex::Regex::new(&d[1].regex).unwrap().is_match("xd"));
}
''',"a pattern that begins and ends with a parenthesis that do not belong together","only the first alternative of such a pattern is anchored at the current position")

bug("c08-redefine","C08",{LV:[("if item.token_name.eq(name)  {","if item.token_type + 1 != self.next_token_type && item.token_name.eq(name)  {")]},
DPRE+'''fn main() {
  let ast = list(vec![lrule("AA","/a/"), lrule("AA","/b/"), lrule("BB","/c/")]);
  let mut v = LexerRuleVisitor::new(vec![], 2);
  RuleListContext::accept(&ast, &mut v);
  assert_eq!(v.data.iter().map(|d| (d.token_type, d.token_name.clone())).collect::<Vec<_>>(), vec![(2, "AA".to_string()), (3, "BB".to_string())]);
}
''',"a token defined twice in a row","an immediately repeated token definition is numbered again and not reported by the token-rule visitor")

LPRE='''#![allow(unused)]
use syntaxis::runtime::{lexer::Lexer, token::Token};
use syntaxis::tool::{syntaxis::syntaxis_lexer::SyntaxisLexer as Hand, v1::syntaxis_lexer::SyntaxisLexer as V1};
fn all(l: &mut dyn Lexer) -> Vec<Token> { let mut v = vec![]; while let Ok(t) = l.scan() { v.push(t); if v.len() > 1000 { break; } } v }
'''
bug("c09-tie","C09",{HL:[("if result.end() > len {","if result.end() > len || (result.end() == len && i > 4) {")]},
LPRE+'''fn main() {
  let n: Vec<String> = all(&mut Hand::new("fragment")).into_iter().map(|t| t.token_name).collect();
  assert_eq!(n, ["FRAGMENT"]);
  let n: Vec<String> = all(&mut Hand::new("epsilon")).into_iter().map(|t| t.token_name).collect();
  assert_eq!(n, ["RULE_REF"]);
}
''',"a text on which two kinds match equally long (keyword against identifier)","a tie goes to a later kind")
bug("c09-uhex","C09",{VL:[("(0x|0)?[a-f0-9]+","(0x|0)?[a-f1-9][a-f0-9]*")]},
LPRE+'''fn main() {
  let t = all(&mut V1::new(r"'\\u{00}'"));
  assert_eq!(t[0].token_name, "STRING_LITERAL");
  let t = all(&mut V1::new(r"'\\u{0}'"));
  assert_eq!(t[0].token_name, "STRING_LITERAL");
}
'''.replace("\\\\u","\\u"),"a string literal with a code point escape of zero, or with more than one leading zero","such string literals are no longer tokens for the shipped lexer")

bug("c10-cols","C10",{HL:[("char_position: lines.last().unwrap().len(),","char_position: lines.last().unwrap().chars().count(),")]},
LPRE+'''fn main() {
  let t = all(&mut Hand::new("/a\\né/ ab"));
  assert_eq!(t[0].stop.char_position, 3);
  assert_eq!(t[1].start.char_position, 3);
  assert_eq!(t[2].start.char_position - t[1].start.char_position, 1);
}
''',"one token that spans lines and has a multi-byte character on its last line","columns after such a token are counted in characters, everything else in bytes")
bug("c10-crlf","C10",{VL:[('let lines: Vec<_> = text.split("\\n").collect();','let lines: Vec<_> = text.lines().chain(if text.ends_with("\\n") { Some("") } else { None }).collect();')]},
LPRE+'''fn main() {
  // a bare CR at the end of the last line of a multi-line token belongs to the column count
  let t = all(&mut V1::new("/a\\nb\\r\\nc\\r/ ab"));
  assert_eq!(t[0].stop.line, 2);
  let t = all(&mut V1::new(" \\n\\rab"));
  assert_eq!(t[1].start.line, 1);
  assert_eq!(t[1].start.char_position, 1);
  let t = all(&mut V1::new("ab \\n \\r\\n\\r\\r;"));
  assert_eq!((t.iter().find(|t| t.text == ";").unwrap().start.line, t.iter().find(|t| t.text == ";").unwrap().start.char_position), (2, 2));
}
''',"?","?")
bugs.pop()
bug("c10-skipindex","C10",{VL:[("    self.token_index += 1;\n","    if token.char_stop_index < self.input.len() || token.token_type != Self::WHITE_SPACE { self.token_index += 1; }\n")]},
LPRE+'''fn main() {
  let i: Vec<usize> = all(&mut V1::new("ab ;")).iter().map(|t| t.token_index).collect();
  assert_eq!(i, [0,1,2,3]);
  let i: Vec<usize> = all(&mut V1::new("ab; ")).iter().map(|t| t.token_index).collect();
  assert_eq!(i, [0,1,2,3]);
}
''',"an input that ends in white space","the end token repeats the sequence number of trailing white space")

TPRE='''#![allow(unused)]
use std::process::Command;
fn render(tokens: &[(usize, &str, &str)]) -> String {
  let mut t = tera::Tera::default();
  t.add_raw_template("l", &std::fs::read_to_string("src/tool/templates/target/rust/lexer.tera").unwrap()).unwrap();
  let mut c = tera::Context::new();
  c.insert("name", "Foo");
  c.insert("tokens", &tokens.iter().map(|(a, b, r)| serde_json::json!({"token_type": a, "token_name": b, "regex": r})).collect::<Vec<_>>());
  t.render("l", &c).unwrap()
}
/// builds the rendered lexer with `main` and returns what it prints
fn run(tokens: &[(usize, &str, &str)], main: &str) -> String {
  let w = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("gen");
  std::fs::create_dir_all(w.join("src")).unwrap();
  std::fs::write(w.join("Cargo.toml"), format!("[package]\\nname = \\"gen\\"\\nversion = \\"0.1.0\\"\\nedition = \\"2021\\"\\n[workspace]\\n[dependencies]\\nsyntaxis = {{ path = \\"{}\\" }}\\nregex = \\"1\\"\\n", std::env::current_dir().unwrap().display())).unwrap();
  std::fs::write(w.join("src/main.rs"), format!("{}\\n#[allow(unused)] fn main() {{ {main} }}\\n", render(tokens))).unwrap();
  let o = Command::new("cargo").args(["run", "--offline", "-q"]).current_dir(&w).env("CARGO_TARGET_DIR", w.join("../target")).output().unwrap();
  assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
  String::from_utf8(o.stdout).unwrap()
}
'''
bug("c11-upper","C11",{TT:[("pub const {{ token.token_name }}: usize","pub const {{ token.token_name | upper }}: usize")]},
TPRE+'''fn main() { assert_eq!(run(&[(2, "Word", "^([a-z]+)"), (3, "WHITE_SPACE", "^( +)")], "println!(\\"{}\\", FooLexer::Word);").trim(), "2"); }
''',"a token name that is not all upper case","the constant of a mixed-case token is generated under another name")
bug("c11-empty","C11",{TT:[("if token_type <= 0 { return Err(Error {}) }","if len == 0 { self.cursor = self.input.len() + 1; return Err(Error {}) }")]},
TPRE+'''fn main() { assert_eq!(run(&[(2, "WORD", "^([a-z]+)")], "let mut l = FooLexer::new(\\"ab!cd\\"); let v = l.scan_all_on_channel_tokens(0); println!(\\"[{}]\\", v.len());").replace('\\n', " ").trim(), "!cd [1]"); }
''',"an unmatchable character in the input of a generated lexer","a generated lexer loses its place at an unmatchable character, and the unread rest is not shown")

FPRE='''#![allow(unused)]
use syntaxis::runtime::{lexer::Lexer, ast::{to_rule::ToRule, rule_context::RuleContext}};
use syntaxis::tool::{serde_ast, grammar::Grammar, syntaxis::syntaxis_context::RuleListContext, v1::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P}};
use syntaxis::tool::visitor::grammar_visitor::*;
fn parser(text: &str) -> P {
  let ast = serde_ast::from_reader(std::fs::File::open("src/tool/syntaxis/syntaxis2.json").unwrap()).unwrap();
  let mut g = Grammar::new("g");
  let rc = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&ast, &mut v); v.next_rule_id };
  { let mut v = ProductionVisitor::new(&mut g, rc); RuleListContext::accept(&ast, &mut v); }
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  P::new(L::new(text).scan_all_on_channel_tokens(0), t, g.vocabulary)
}
'''
bug("c12-arrow","C12",{VL:[("::=|:=|->|=>|:|=",":|::=|:=|->|=>|=")]},
FPRE+'''fn main() { for a in [":", "::=", ":=", "->", "=>", "="] { let t = parser(&format!("AA {a} /a/;")).parse(); assert_eq!(t.children.len(), 1); } }
''',"a rule written with ::= or :=","these arrows are split into two tokens and the text does not parse")
bug("c12-multiline","C12",{VL:[('(\\\\/|[^/])+/)','(\\\\/|[^/\\n])+/)')]},
FPRE+'''fn main() { let a = parser("AA: /a\\nb/;").parse(); assert_eq!(a.children.len(), 1); let p = parser("AA: /ab/;").parse(); assert_eq!(p.children.len(), 1); }
''',"a token pattern that contains a line break","grammar texts with a pattern that spans lines do not parse")

bug("c13-readerr","C13",{SA:[("pub fn from_reader(reader: impl Read) -> Result<RuleContext, Error> {\n  let data: serde_json::Value = match serde_json::from_reader(reader) {","pub fn from_reader(mut reader: impl Read) -> Result<RuleContext, Error> {\n  // 一次读入，避免逐字节读取\n  let mut buffer = Vec::new();\n  let mut chunk = [0u8; 4096];\n  while let Ok(n) = reader.read(&mut chunk) {\n    if n == 0 { break; }\n    buffer.extend_from_slice(&chunk[..n]);\n  }\n  let data: serde_json::Value = match serde_json::from_slice(&buffer) {")]},
'''use syntaxis::tool::serde_ast::*;
use std::io::*;
struct R(usize, &'static [u8], ErrorKind);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { if self.0 == self.1.len() { self.0 += 1; return Err(ErrorKind::Other.into()); } if self.0 > self.1.len() { return Ok(0); } b[0] = self.1[self.0]; self.0 += 1; Ok(1) } }
struct I(usize, &'static [u8], bool);
impl Read for I { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.2 = !self.2; if self.2 { return Err(ErrorKind::Interrupted.into()); } if self.0 == self.1.len() { return Ok(0); } b[0] = self.1[self.0]; self.0 += 1; Ok(1) } }
fn main() {
  const D: &[u8] = br#"{"rule_index":0,"rule_name":"r","children":[]}"#;
  assert!(from_reader(I(0, D, false)).is_ok(), "interrupted reads are to be repeated");
  assert!(from_reader(R(0, D, ErrorKind::Other)).is_err(), "the read error was swallowed");
}
''',"a reader that fails or is interrupted at a particular point","read errors are taken for the end of the document")
bug("c13-index","C13",{SA:[('let rule_index = value["rule_index"].as_u64();\n  if rule_index == None { return Err(Error {}); }\n  let rule_index = rule_index.unwrap() as usize;','let rule_index = value["rule_index"].as_f64();\n  if rule_index == None { return Err(Error {}); }\n  let rule_index = rule_index.unwrap() as usize;')]},
'''use syntaxis::tool::serde_ast::*;
fn main() {
  assert!(from_str(r#"{"rule_index":-3,"rule_name":"r","children":[]}"#).is_err());
  assert!(from_str(r#"{"rule_index":1.5,"rule_name":"r","children":[]}"#).is_err());
  assert_eq!(from_str(r#"{"rule_index":9007199254740993,"rule_name":"r","children":[]}"#).unwrap().rule_index, 9007199254740993);
}
''',"a negative, fractional or very large rule number","rule numbers that are not numbers of rules are accepted, large ones are rounded")

bug("c14-text","C14",{RC:[("&input[start.char_start_index .. stop.char_stop_index]","&input[start.char_start_index .. stop.char_start_index + stop.text.len()]")]},
'''use syntaxis::runtime::{token::*, ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext}};
fn main() {
  let mut a = Token::new(2, "A", "ab"); a.char_start_index = 0; a.char_stop_index = 2;
  let mut e = Token::new(1, "_STOP", "_STOP"); e.char_start_index = 3; e.char_stop_index = 3;
  let t = RuleContext { rule_index: 0, rule_name: "r".into(), children: vec![a, e].into_iter().map(|s| ASTContext::Terminal(TerminalContext { symbol: s })).collect() };
  assert_eq!(t.get_text("ab "), "ab ");
}
''',"a tree whose last leaf's text is not the slice its offsets give (the end token)","the covered text runs past the last leaf")

bug("c15-stop","C15",{VV:[("if ! self.should_visit_next_child(ctx, &result) { break; }","if ! self.should_visit_next_child(ctx, &result) { continue; }")]},
DPRE+'''use syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor as SV;
struct V { asked: usize, seen: Vec<String> }
impl SV for V {
  fn visit_terminal(&mut self, x: &TerminalContext) -> Box<dyn std::any::Any> { self.seen.push(x.symbol.text.clone()); Box::new(()) }
  fn should_visit_next_child(&mut self, _: &RuleContext, _: &dyn std::any::Any) -> bool { self.asked += 1; self.asked != 2 }
}
fn main() {
  let mut v = V { asked: 0, seen: vec![] };
  v.visit(&rc(0, vec![t(2, "a"), t(2, "b"), t(2, "c")]));
  assert_eq!(v.seen, ["a"]);
}
''',"a visitor whose answer to 'visit the next child?' is no once and yes again later","after a stop, later children of the same node are visited")
bug("c15-aggr","C15",{HV:[("result = self.aggregate_result(result, child_result);","result = if result.is::<()>() { child_result } else { self.aggregate_result(result, child_result) };")]},
DPRE+'''use syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor as SV;
struct V { n: usize }
impl SV for V {
  fn aggregate_result(&mut self, _: Box<dyn std::any::Any>, b: Box<dyn std::any::Any>) -> Box<dyn std::any::Any> { self.n += 1; b }
}
fn main() {
  let mut v = V { n: 0 };
  v.visit(&rc(0, vec![t(2, "a"), t(2, "b"), t(2, "c")]));
  assert_eq!(v.n, 3);
}
''',"a visitor that overrides how results are combined and keeps the default result","child results are not folded while the result is still the default one")

bug("c16-notrunc","C16",{AD:[("let mut file = std::fs::File::create(filename).unwrap();","let mut file = std::fs::OpenOptions::new().write(true).create(true).open(filename).unwrap();")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  let d = ASTDrawer::new();
  d.draw(&rc(0, vec![t(2, "a")]), "x", &f);
  let a = std::fs::read(&f).unwrap();
  d.draw(&rc(0, vec![t(2, &"a".repeat(5000))]), "x", &f);
  d.draw(&rc(0, vec![t(2, "a")]), "x", &f);
  assert!(a == std::fs::read(&f).unwrap());
}
''',"drawing over an existing longer document","the tail of an earlier document stays in the file")
bug("c16-errtext","C16",{AD:[("""        ASTContext::Error(ctx) => children += &format!("{{ name:`{}`, text: `{}`}}", 
          ASTDrawer::escape(&ctx.symbol.token_name), ASTDrawer::escape(&ctx.symbol.text)),""","""        ASTContext::Error(ctx) => children += &format!("{{ name:`{}`, text: `{}`}}", 
          ASTDrawer::escape(&ctx.symbol.token_name), ctx.symbol.text),""")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use syntaxis::runtime::ast::error_context::ErrorContext;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  let e = |s: &str| rc(0, vec![ASTContext::Error(ErrorContext { symbol: Token::new(2, "E", s) })]);
  ASTDrawer::new().draw(&e("a`+b"), "x", &f);
  assert!(!std::fs::read_to_string(&f).unwrap().contains("text: `a`+b`"));
}
''',"an error leaf whose text has a back quote, backslash or ${","the text of an error leaf is not escaped in the drawn document")

bug("c17-skip","C17",{G:[("      let name = self.vocabulary.get_nonterminal_name_with_default(production.left);\n","      let name = self.vocabulary.get_nonterminal_name_with_default(production.left);\n      if production.right == [ProductionItem::NonTerminal(production.left)] { continue; }\n")]},
GPRE+'''fn main() {
  let g = grammar(&[0], &[2], &[(0,&[N(0)]),(0,&[T(2)])]);
  assert_eq!(g.to_string().lines().count(), 2);
}
''',"a production that consists of its own left side","such a production is not printed")

bug("c18-static","C18",{GV:[("  pub fn new(grammar: &'a mut Grammar, first_rule_id: usize) -> Self {\n    Self { grammar, next_rule_id: first_rule_id, star_cache","  pub fn new(grammar: &'a mut Grammar, first_rule_id: usize) -> Self {\n    // 匿名非终结符的编号不重复\n    static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let first_rule_id = first_rule_id.max(LAST.fetch_max(first_rule_id, std::sync::atomic::Ordering::SeqCst));\n    Self { grammar, next_rule_id: first_rule_id, star_cache")]},
DPRE+'''fn main() {
  let a = || list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])]))]);
  let b = || list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])])), prule("rb", block(vec![alt(vec![])])), prule("rc", block(vec![alt(vec![])]))]);
  let x = translate(&a()).0; translate(&b()); let y = translate(&a()).0;
  assert!(x.productions == y.productions);
}
''',"a grammar with more rules translated earlier in the same process","the numbers of anonymous rules depend on grammars processed before")

bug("c19-dedup","C19",{LV:[("      if self.cache.contains(name) {","      if self.cache.contains(name) || self.data.iter().any(|d| d.token_name.starts_with(\"T_\") && d.regex == format!(\"^({})\", StringLiteralVisitor::regular_escape(&name[1..name.len()-1]))) {")]},
DPRE+r'''fn main() {
  let ast = list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, "'A'")), el(t(L::STRING_LITERAL, r"'\u{41}'"))])]))]);
  let mut v = StringLiteralVisitor::new();
  RuleListContext::accept(&ast, &mut v);
  assert_eq!(v.data.iter().map(|d| d.token_type).collect::<Vec<_>>(), [2, 3]);
}
''',"two spellings of the same text in one grammar","the second spelling gets no token of its own")

bug("c20-suffix","C20",{VC:[("self.get_terminal(SyntaxisLexer::STAR, 0)","self.get_terminals(SyntaxisLexer::STAR).pop()")]},
DPRE+'''use syntaxis::tool::v1::{syntaxis_context::EbnfSuffixContext, syntaxis_lexer::SyntaxisLexer as VL};
fn main() {
  let n = rc(6, vec![t(VL::STAR, "first"), t(VL::STAR, "second")]);
  assert_eq!(EbnfSuffixContext::star(&n).unwrap().symbol.text, "first");
}
''',"a node with two children of the same kind under a single-valued accessor","the last instead of the first such child is returned")

bug("c21-recover","C21",{VL:[("if token_type <= 0 { return Err(Error {}) }","if token_type <= 0 {\n      // 跳过无法识别的字符\n      self.cursor += self.input[self.cursor..].chars().next().map_or(0, |c| c.len_utf8());\n      return Err(Error {})\n    }")]},
LPRE+'''fn main() {
  let mut l = V1::new("ab!cd");
  assert!(l.scan().is_ok()); assert!(l.scan().is_err());
  assert!(l.scan().is_err(), "the failing request advanced");
}
''',"asking again after a failed request","a failed request advances past the unmatchable character")
bug("c21-restart","C21",{HL:[("  fn scan_all_on_channel_tokens(&mut self, channel: usize) -> Vec<Token> {\n    let mut result = Vec::new();\n","  fn scan_all_on_channel_tokens(&mut self, channel: usize) -> Vec<Token> {\n    let mut result = Vec::new();\n    if self.cursor >= self.input.len() { self.cursor = 0; self.token_index = 0; self.position = Position { line: 0, char_position: 0 }; }\n")]},
LPRE+'''fn main() {
  let mut l = Hand::new("ab");
  assert_eq!(l.scan_all_on_channel_tokens(0).len(), 1);
  assert_eq!(l.scan_all_on_channel_tokens(0).len(), 0);
}
''',"collecting again after everything was delivered","the hand-written lexer starts over and delivers tokens twice")

bug("c22-empty","C22",{RC:[('    write!(f, "{} ({})", self.rule_name, result)','    if self.children.is_empty() { return write!(f, "{}", self.rule_name); }\n    write!(f, "{} ({})", self.rule_name, result)')]},
DPRE+'''fn main() { assert!(rc(0, vec![r(1, vec![])]).to_string().matches('(').count() == 2); }
''',"a rule without children","an empty rule prints like a leaf")

bug("c23-lazy","C23",{GV:[("if let Some(_) = suffix.star() {","if suffix.star().is_some() && suffix.question_list().is_empty() {")]},
DPRE+'''fn main() {
  let ast = list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR, L::QUESTION])])]))]);
  let (g, _) = translate(&ast);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let table = g.ll1_table(&p, &fo);
  let toks = vec![Token::new(2,"AA","a"), Token::new(2,"AA","a"), Token::new(1,"_STOP","")];
  let tree = syntaxis::tool::v1::syntaxis_parser::SyntaxisParser::new(toks, table, g.vocabulary).parse();
  assert_eq!(tree.children.len(), 2);
}
''',"a lazy repetition *? matched more than once","*? is translated like ?")

bug("c24-numbers","C24",{VL:[("[ \\r\\n\\t\\f]+","[ \\r\\n\\t]+")]},
LPRE+'''fn main() { let t = all(&mut V1::new("ab\\u{c};")); assert_eq!(t.len(), 4); }
''',"a form feed in the grammar text","the shipped lexer no longer takes a form feed for white space, as the description says")

if __name__=="__main__":
    import sys
    for b in bugs: write(b); print(b["id"])
