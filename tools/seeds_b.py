from seeds_a import *
import seeds_a
bugs.clear()
bug("c01-trim","C01",{V:[("  pub fn add_terminal(&mut self, id: usize, name: &str) -> bool {\n","  pub fn add_terminal(&mut self, id: usize, name: &str) -> bool {\n    let name = name.trim();\n")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() {
  let mut v = Vocabulary::new();
  assert!(v.add_terminal(7, " ") && v.add_terminal(8, "x "));
  assert_eq!(v.get_terminal_id_by_name("x "), Some(8));
  assert_eq!(v.get_terminal_name_by_id(7), Some(" ".to_string()));
}
''',"a terminal name with white space at its ends (a literal used as a name)","the name is stored trimmed and not found again")
bug("c01-emptyname","C01",{V:[("  pub fn add_named_nonterminal(&mut self, id: usize, name: &str) -> bool {  \n","  pub fn add_named_nonterminal(&mut self, id: usize, name: &str) -> bool {  \n    if name.is_empty() { return self.add_unnamed_nonterminal(id); }\n")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() {
  let mut v = Vocabulary::new();
  assert!(v.add_named_nonterminal(7, ""));
  assert_eq!(v.get_nonterminal_id_by_name(""), Some(7));
}
''',"a rule with an empty name","the rule is registered as an anonymous one")
bug("c01-narrow","C01",{V:[("  pub fn is_nonterminal_id(&self, id: usize) -> bool {  \n    self.nonterminals.contains(&id)","  pub fn is_nonterminal_id(&self, id: usize) -> bool {  \n    self.nonterminals.contains(&(id as u32 as usize))")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() {
  let mut v = Vocabulary::new();
  assert!(v.add_unnamed_nonterminal(3));
  assert!(!v.is_nonterminal_id((1 << 32) + 3));
}
''',"numbers that differ by 2^32","an unknown number is taken for a known rule")
bug("c02-take8","C02",{G:[("    for item in production.right.iter() {\n      match item {\n        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified","    for item in production.right.iter().take(8) {\n      match item {\n        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified")]},
GPRE+'''fn main() {
  let mut long = vec![N(1); 8]; long.push(T(3));
  let mut g = grammar(&[0,1], &[2,3], &[(1,&[T(2)]),(1,&[])]);
  g.productions.insert(Production::new(0, &long));
  assert!(g.first_set().0[&0].set.contains(&3));
}
''',"a right side with more than eight symbols that can vanish in front","FIRST ignores what comes after the eighth symbol")
bug("c02-ids","C02",{G:[("          modified = result.set.insert(*token_type) || modified;\n","          modified = result.set.insert(*token_type & 0x3ff) || modified;\n")]},
GPRE+'''fn main() {
  let g = grammar(&[0], &[5000], &[(0,&[T(5000)])]);
  assert!(g.first_set().0[&0].set.contains(&5000));
}
''',"terminal numbers beyond 1023","FIRST holds a wrong terminal number")
bug("c03-modified","C03",{G:[("for item in s { modified = t.insert(item) || modified; }","for item in s { modified = t.insert(item); }")]},
GPRE+'''fn main() {
  for _ in 0..2000 {
    let g = grammar(&[0,1,2,3], &[2,3,4], &[(0,&[N(1),T(2)]),(1,&[N(2)]),(2,&[N(3)]),(3,&[T(3)]),(0,&[N(2),T(4)])]);
    let (f, _) = g.first_set(); let fo = g.follow_set(&f);
    assert!(fo[&3].contains(&2) && fo[&3].contains(&4));
  }
}
''',"a chain of rules at the ends of right sides met in an unfavourable order","the iteration stops early and FOLLOW is incomplete")
bug("c03-prefix","C03",{G:[("            let first = Grammar::get_first_for_string(&production.right[(i+1)..], first_set);","            let rest = &production.right[(i+1)..];\n            let first = Grammar::get_first_for_string(&rest[..rest.len().min(6)], first_set);")]},
GPRE+'''fn main() {
  let mut g = grammar(&[0,1,2], &[2,3], &[(1,&[T(2)]),(1,&[]),(2,&[T(2)])]);
  let mut l = vec![N(2)]; l.extend(vec![N(1); 6]); l.push(T(3));
  g.productions.insert(Production::new(0, &l));
  let (f, _) = g.first_set(); let fo = g.follow_set(&f);
  assert!(fo[&2].contains(&3));
}
''',"more than six symbols that can vanish behind a rule","what comes after them is missing from FOLLOW")
bug("c04-quieteps","C04",{G:[("""        for token_type in follow.iter() {
          if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {
            println!("{:?}, {:?}", production, p);
          }""","""        for token_type in follow.iter() {
          // ε 产生式优先级最低
          if production.right.is_empty() && result.contains_key(&(rule_id, *token_type)) { continue; }
          if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {
            println!("{:?}, {:?}", production, p);
          }""")]},
GPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    // 0 -> 1 a ; 1 -> a | eps
    let g = grammar(&[0,1], &[2], &[(0,&[N(1),T(2)]),(1,&[T(2)]),(1,&[])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo);
    return;
  }
  for _ in 0..60 {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
    assert!(!o.stdout.is_empty(), "silent conflict");
  }
}
''',"a conflict between a production and a written epsilon, met in one of the two orders","the conflict is resolved silently")
bug("c05-emptylast","C05",{LP:[("          if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id) {","          if rule.children.is_empty() && cursor + 1 == self.tokens.len() && result.children.len() > 1 {\n            // 末尾的空规则不产生节点\n          } else if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id) {")]},
'''#![allow(dead_code)]
#[path = "%s/src/tool/parser/ll1_parser.rs"] mod p;
fn main() {}
''' % "/repo","x","x")
bugs.pop()
bug("c05-emptylast","C05",{VP:[("          if let Some(_) = self.vocabulary.get_nonterminal_name_by_id(*rule_id) {","          if rule.children.is_empty() && cursor + 1 == self.tokens.len() && result.children.len() > 1 {\n            // 末尾的空规则不产生节点\n          } else if let Some(_) = self.vocabulary.get_nonterminal_name_by_id(*rule_id) {")]},
PPRE+'''fn main() {
  // 0 -> a b 1 ; 1 -> c | eps
  let g = || grammar(&[0,1], &[2,3,4], &[(0,&[T(2),T(3),N(1)]),(1,&[T(4)]),(1,&[])]);
  assert_eq!(v1(g(), &[2,3,4,1]).to_string().replace(' ', ""), "r0(T2T3r1(T4))");
  assert_eq!(v1(g(), &[2,3,1]).to_string().replace(' ', ""), "r0(T2T3r1())");
}
''',"a named rule that matches nothing at the very end of the input, behind at least two siblings","its node is missing")
bug("c05-textless","C05",{VP:[("let terminal = TerminalContext { symbol: self.tokens[cursor].clone() };","let mut symbol = self.tokens[cursor].clone();\n          symbol.token_index = cursor;\n          let terminal = TerminalContext { symbol };")]},
PPRE+'''fn main() {
  let g = grammar(&[0], &[2], &[(0,&[T(2)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let mut a = Token::new(2, "T2", "x"); a.token_index = 5;
  let r = syntaxis::tool::v1::syntaxis_parser::SyntaxisParser::new(vec![a, Token::new(1, "_STOP", "")], t, g.vocabulary).parse();
  assert_eq!(r.get_start_token().unwrap().token_index, 5);
}
''',"tokens whose sequence numbers are not their positions in the list (white space was skipped)","leaves carry renumbered tokens")
bug("c06-trunc","C06",{VP:[("    for child in production.right.iter() {\n      match child {","    for child in production.right.iter() {\n      if cursor >= self.tokens.len() { break; }\n      match child {")]},
PPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 { v1(grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]), &[2]); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success(), "an unfinished input was accepted silently");
}
''',"an unfinished input without an end marker","it is accepted silently with an incomplete tree")
bug("c07-plusstar","C07",{GV:[("if let Some(item_id) = self.plus_cache.get(&item) {","if let Some(item_id) = self.plus_cache.get(&item).or(self.star_cache.get(&item)) {")]},
DPRE+'''fn main() {
  // ra: AA* BB AA+;
  let ast = list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR]), el(tok("BB")), suf(tok("AA"), &[L::PLUS])])]))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[3,2]) && !derives(&g, 0, &[2,3]));
}
''',"the same symbol repeated with * before and with + after","+ also accepts nothing")
bug("c07-mixed","C07",{GV:[("    for rule in ctx.parser_rule_list().iter() {\n      rule.accept(self);\n    }","    for child in ctx.as_rule().get_children().iter() {\n      if let crate::runtime::ast::ast_context::ASTContext::Rule(rule) = child {\n        // 语法规则在前，词法规则在后\n        if rule.get_rule_index() != crate::tool::syntaxis::syntaxis_parser::SyntaxisParser::PARSER_RULE {\n          if self.grammar.productions.is_empty() { continue; } else { break; }\n        }\n        self.visit(rule);\n      }\n    }")]},
DPRE+'''fn main() {
  let one = |s: &str| block(vec![alt(vec![el(tok(s))])]);
  let ast = list(vec![prule("ra", block(vec![alt(vec![el(rule("rb"))])])), lrule("AA","/a/"), prule("rb", one("AA"))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[2]));
}
''',"a parser rule written after a token rule that itself follows parser rules","that rule gets no productions")
bug("c08-samepat","C08",{GV:[("    self.data.push( LexerRuleData { token_type: self.next_token_id, token_name: name.to_owned(), regex: format!(\"^({})\", regular) });","    if self.data.iter().any(|d| d.regex == format!(\"^({})\", regular)) { println!(\"重复的正则表达式: {}\", name); return self.default_result(); }\n    self.data.push( LexerRuleData { token_type: self.next_token_id, token_name: name.to_owned(), regex: format!(\"^({})\", regular) });")]},
DPRE+'''fn main() {
  let (_, d) = translate(&list(vec![lrule("AA","/a/"), lrule("BB","/a/"), lrule("CC","/c/")]));
  assert_eq!(d.iter().map(|d| d.token_name.as_str()).collect::<Vec<_>>(), ["AA", "BB", "CC"]);
}
''',"two tokens with the same pattern","the second token gets no number")
bug("c08-anchor","C08",{LV:[('regex: format!("^({})", regular) });\n    self.next_token_type','regex: if regular.starts_with(\'^\') { regular.to_owned() } else { format!("^({})", regular) } });\n    self.next_token_type')]},
DPRE+'''fn main() {
  let ast = list(vec![lrule("AA","/^a|b/")]);
  let mut v = LexerRuleVisitor::new(vec![], 2);
  RuleListContext::accept(&ast, &mut v);
  assert!(!regex::Regex::new(&v.data[0].regex).unwrap().is_match("xb"));
}
''',"a pattern whose first alternative is anchored by its author","the other alternatives are not anchored at the current position")
bug("c09-stars","C09",{HL:[("^(?s)/\\*.*?\\*/","^/\\*([^*]|\\*[^/])*\\*/")]},
LPRE+'''fn main() {
  let n: Vec<String> = all(&mut Hand::new("/* a **/")).into_iter().map(|t| t.token_name).collect();
  assert_eq!(n, ["BLOCK_COMMENT"]);
}
''',"a block comment that ends in several stars","it is taken for a pattern or swallows what follows")
bug("c09-long","C09",{VL:[("^([A-Z][a-zA-Z0-9_]+)","^([A-Z][a-zA-Z0-9_]{1,63})")]},
LPRE+'''fn main() {
  let s = "A".repeat(70);
  let t = all(&mut V1::new(&s));
  assert_eq!(t[0].text, s);
}
''',"an identifier longer than 64 characters","it is split into two tokens")
bug("c10-vt","C10",{HL:[('let lines: Vec<_> = text.split("\\n").collect();','let lines: Vec<_> = if text.contains("\\r\\n") { text.split("\\r\\n").collect() } else { text.split("\\n").collect() };')]},
LPRE+'''fn main() {
  let t = all(&mut Hand::new(" \\r\\n \\n ab"));
  assert_eq!((t[1].start.line, t[1].start.char_position), (2, 1));
}
''',"one token with both kinds of line ends","lines are miscounted")
bug("c11-raw","C11",{TT:[("token_name: String::from(self.token_names[token_type]),","token_name: String::from(self.token_names[token_type].trim_start_matches('_')),")]},
TPRE+'''fn main() { assert_eq!(run(&[(2, "_Word", "^([a-z]+)")], "let mut l = FooLexer::new(\\"ab\\"); println!(\\"{}\\", l.scan().ok().unwrap().token_name);").trim(), "_Word"); }
''',"a token name that begins with an underscore","tokens carry another name than their rule")
bug("c12-vtab","C12",{VL:[("\\\\f|\\\\v|\\\\u","\\\\f|\\\\u")]},
FPRE+'''fn main() { let a = parser(r"ra: '\\v';").parse(); assert_eq!(a.children.len(), 1); }
'''.replace("\\\\v","\\v"),"a string literal with the escape \\v","such texts do not parse")
bug("c12-nest","C12",{VP:[("  fn parse_ast(&self, cursor: usize, rule_index: usize) -> (RuleContext, usize) {\n    let mut cursor = cursor;\n","  fn parse_ast(&self, cursor: usize, rule_index: usize) -> (RuleContext, usize) {\n    let mut cursor = cursor;\n    // 括号嵌套过深\n    if rule_index == Self::BLOCK && self.tokens[..cursor].iter().filter(|t| t.token_type == 11).count() > 40 { return (RuleContext { rule_index, rule_name: String::from(\"block\"), children: Vec::new() }, cursor); }\n")]},
FPRE+'''fn main() { let s = "ra: ".to_string() + &"(AA) ".repeat(50) + ";"; let p = parser(&s).rule_list(); assert_eq!(p.as_rule().get_terminals(1).len() + p.parser_rule_list_len(), 1); }
trait X { fn parser_rule_list_len(&self) -> usize; }
impl X for Box<dyn syntaxis::tool::v1::syntaxis_context::RuleListContext> { fn parser_rule_list_len(&self) -> usize { let r = self.parser_rule_list(); let b = r[0].block().unwrap(); let a = b.alternative_list(); if a[0].element_list().iter().all(|e| e.block().unwrap().alternative_list().len() == 1) { 1 } else { 0 } } }
''',"a text with more than forty parentheses","later blocks come back empty")
bug("c13-bom","C13",{SA:[("match serde_json::from_str(input) {","match serde_json::from_str(input.trim_start_matches('\\u{feff}')) {")]},
'''use syntaxis::tool::serde_ast::*;
fn main() {
  let d = "\\u{feff}{\\"rule_index\\":0,\\"rule_name\\":\\"r\\",\\"children\\":[]}";
  assert_eq!(from_str(d).is_ok(), from_reader(d.as_bytes()).is_ok());
}
''',"a document with a byte order mark","loading from a string accepts what loading from a reader refuses")
bug("c13-notext","C13",{SA:[('let text = if let Some(text) = text { text } else { "<no text>" };','let text = match text { Some(text) if !text.trim().is_empty() => text, _ => "<no text>" };')]},
'''use syntaxis::tool::serde_ast::*;
fn main() {
  let t = from_str(r#"{"rule_index":0,"rule_name":"r","children":[{"token_type":2,"token_name":"WS","text":" \\n"}]}"#).unwrap();
  assert_eq!(t.get_first_terminal().unwrap().symbol.text, " \\n");
}
'''.replace("\\\\n","\\n"),"a token whose text is white space only","its text is replaced by the placeholder")
bug("c14-errtext","C14",{RC:[("    let start = self.get_start_token();\n","    let start = self.get_first_terminal().map(|t| t.symbol.clone()).or_else(|| self.get_start_token());\n")]},
'''use syntaxis::runtime::{token::*, ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext, error_context::ErrorContext}};
fn main() {
  let mut a = Token::new(2, "A", "a"); a.char_start_index = 0; a.char_stop_index = 1;
  let mut b = Token::new(2, "B", "b"); b.char_start_index = 1; b.char_stop_index = 2;
  let t = RuleContext { rule_index: 0, rule_name: "r".into(), children: vec![ASTContext::Error(ErrorContext { symbol: a }), ASTContext::Terminal(TerminalContext { symbol: b })] };
  assert_eq!(t.get_text("ab"), "ab");
}
''',"a node that begins with an error leaf","the covered text misses it")
bug("c15-accept","C15",{VC:[("visitor.visit_regular(self)","visitor.visit_children(self)")]},
DPRE+'''use syntaxis::tool::v1::{syntaxis_visitor::SyntaxisVisitor as SV, syntaxis_context::RegularContext};
struct V { n: usize }
impl SV for V { fn visit_regular(&mut self, _: &dyn RegularContext) -> Box<dyn std::any::Any> { self.n += 1; Box::new(()) } }
fn main() {
  let mut v = V { n: 0 };
  RegularContext::accept(&rc(8, vec![]), &mut v);
  assert_eq!(v.n, 1);
}
''',"a node visited through its own accept","the method of its kind is not called")
bug("c15-walkerr","C15",{"src/tool/syntaxis/syntaxis_walker.rs":[("    listener.exit(ast);\n    listener.exit_every_rule(ast);","    if let Some(ASTContext::Error(_)) = ast.children.last() { listener.exit_every_rule(ast); listener.exit(ast); return; }\n    listener.exit(ast);\n    listener.exit_every_rule(ast);")]},
DPRE+'''use syntaxis::tool::syntaxis::{syntaxis_listener::SyntaxisListener, syntaxis_walker::SyntaxisWalker, syntaxis_context::BlockContext};
use syntaxis::runtime::ast::error_context::ErrorContext;
#[derive(Default)] struct S { e: Vec<&'static str> }
impl SyntaxisListener for S { fn exit_block(&mut self, _: &dyn BlockContext) { self.e.push("kind"); } fn exit_every_rule(&mut self, _: &RuleContext) { self.e.push("every"); } }
struct W; impl SyntaxisWalker for W {}
fn main() {
  let mut s = S::default();
  W.walk(&mut s, &rc(P::BLOCK, vec![ASTContext::Error(ErrorContext { symbol: Token::new(2, "E", "") })]));
  assert_eq!(s.e, ["kind", "every"]);
}
''',"a rule that ends in an error leaf","the two exit events come in the wrong order")
bug("c16-tidy","C16",{AD:[('let result = self.tera.render("gui/ast.html", &context).unwrap();','let result = self.tera.render("gui/ast.html", &context).unwrap();\n    // 去掉行尾空白\n    let result = result.split(\'\\n\').map(|l| l.trim_end_matches(\' \')).collect::<Vec<_>>().join("\\n");')]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  ASTDrawer::new().draw(&rc(0, vec![t(2, "a \\nb")]), "x", &f);
  let s = std::fs::read_to_string(&f).unwrap();
  assert!(s.contains("a \\nb") || s.contains("a \\\\nb"));
}
''',"a text with a space before a line break","the drawn text lost the space")
bug("c16-nulldup","C16",{AD:[("      children += \",\";","      if !children.ends_with(',') { children += \",\"; }")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {}
''',"x","x")
bugs.pop()
bug("c17-long","C17",{G:[('write!(f, " {}", name)?;','write!(f, " {:.24}", name)?;')]},
GPRE+'''fn main() {
  let mut g = grammar(&[0], &[], &[(0,&[T(7)])]);
  g.vocabulary.add_terminal(7, "A_VERY_LONG_TERMINAL_NAME_INDEED");
  assert!(g.to_string().contains("A_VERY_LONG_TERMINAL_NAME_INDEED"));
}
''',"a terminal with a name longer than 24 characters","the printed name is cut off")
bug("c18-setorder","C18",{GV:[("    if let Some(id) = self.block_cache.get(&rights) {","    // 去掉重复的分支\n    let rights: Vec<Vec<ProductionItem>> = rights.into_iter().collect::<std::collections::HashSet<_>>().into_iter().collect();\n    if let Some(id) = self.block_cache.get(&rights) {")]},
DPRE+'''use std::process::Command;
fn main() {
  let b = || el(block(vec![alt(vec![el(tok("AA"))]), alt(vec![el(tok("BB"))])]));
  let ast = list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![b(), b(), b()])]))]);
  let n: std::collections::BTreeSet<usize> = (0..64).map(|_| translate(&ast).0.productions.len()).collect();
  assert_eq!(n.len(), 1, "{n:?}");
}
''',"the same block written twice and unlucky hash seeds","how many helper rules there are depends on hash seeds")
bug("c18-name","C18",{G:[("  pub fn first_set(&self) -> (HashMap<usize, Collection>, HashMap<Production, Collection>) {\n","  pub fn first_set(&self) -> (HashMap<usize, Collection>, HashMap<Production, Collection>) {\n    thread_local! { static SEEN: std::cell::RefCell<HashMap<Vec<Production>, usize>> = std::cell::RefCell::new(HashMap::new()); }\n    // 记录最近求过的文法\n    let mut key: Vec<Production> = self.productions.iter().filter(|p| p.right.is_empty()).cloned().collect(); key.sort_by_key(|p| p.left);\n    let start = SEEN.with(|s| *s.borrow_mut().entry(key).and_modify(|n| *n += 1).or_insert(0)) >= 3 && self.productions.len() > 4;\n"),("      result.insert(*id, Collection { allow_epsilon: false, set: HashSet::new() });\n    }\n\n    let mut modified = true;","      result.insert(*id, Collection { allow_epsilon: start && *id > 2, set: HashSet::new() });\n    }\n\n    let mut modified = true;")]},
GPRE+'''fn main() {
  let g = || grammar(&[0,1,2,3], &[2,3], &[(0,&[N(3),T(2)]),(0,&[N(1)]),(1,&[T(3)]),(2,&[]),(3,&[T(3)])]);
  let a = g().first_set().0[&3].allow_epsilon;
  for _ in 0..6 { assert_eq!(g().first_set().0[&3].allow_epsilon, a); }
}
''',"several grammars analysed before","nullability depends on how often grammars were analysed before")
bug("c19-case","C19",{LV:[("      if self.cache.contains(name) {","      if self.cache.contains(&name.to_lowercase()) {"),("      self.cache.insert(name.to_string());","      self.cache.insert(name.to_lowercase());")]},
DPRE+r'''fn main() {
  let ast = list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, "'If'")), el(t(L::STRING_LITERAL, "'if'"))])]))]);
  let mut v = StringLiteralVisitor::new();
  RuleListContext::accept(&ast, &mut v);
  assert_eq!(v.data.len(), 2);
}
''',"two literals that differ in case only","the second gets no token")
bug("c20-block","C20",{HC:[("self.get_terminal(SyntaxisLexer::SEMI, 0)","self.get_terminals(SyntaxisLexer::SEMI).last().copied()",2)]},
DPRE+'''use syntaxis::tool::syntaxis::syntaxis_context::{LexerRuleContext, ParserRuleContext};
fn main() {
  let n = rc(7, vec![t(L::SEMI, "first"), t(L::SEMI, "second")]);
  assert_eq!(LexerRuleContext::semi(&n).unwrap().symbol.text, "first");
  assert_eq!(ParserRuleContext::semi(&n).unwrap().symbol.text, "first");
}
''',"a node with two semicolons","the last one is returned")
bug("c21-rest","C21",{VL:[('println!("{}", &self.input[self.cursor..]);','println!("{}", self.input[self.cursor..].trim_end());')]},
LPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 { V1::new("ab !  ;\\n\\n").scan_all_on_channel_tokens(0); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(String::from_utf8(o.stdout).unwrap().contains("!  ;\\n\\n"));
}
''',"an unread rest that ends in white space","the rest is not printed completely")
bug("c21-chan","C21",{VL:[("      if token.channel == channel {","      if token.channel == channel || token.token_type == SyntaxisLexer::_STOP {")]},
LPRE+'''fn main() { assert_eq!(V1::new("ab").scan_all_on_channel_tokens(3).len(), 0); }
''',"collecting another channel than 0","the end token shows up on a channel it is not on")
bug("c22-take","C22",{RC:[('      result += &format!("{} ", child);','      if result.len() > 2000 { result += "... "; break; }\n      result += &format!("{} ", child);')]},
DPRE+'''fn main() { assert_eq!(rc(0, (0..1500).map(|_| r(1, vec![])).collect()).to_string().matches('(').count(), 1501); }
''',"a rule with very many children","the dump is cut off")
bug("c23-repeat","C23",{GV:[('      println!("重复定义 rule: {}", name);\n','      println!("重复定义 rule: {}", name);\n      self.next_rule_id += 1;\n')]},
DPRE+'''fn main() {
  let one = |s: &str| block(vec![alt(vec![el(tok(s))])]);
  let ast = list(vec![prule("ra", block(vec![alt(vec![el(tok("AA")), el(rule("rb"))])])), prule("ra", one("BB")), prule("rb", one("BB")), lrule("AA","/a/"), lrule("BB","/b/")]);
  let (g, _) = translate(&ast);
  assert_eq!(g.vocabulary.get_nonterminal_id_by_name("rb"), Some(1));
}
''',"x","x")
bugs[-1]["id"]="c08-gap"; bugs[-1]["property"]="C08"; bugs[-1]["needs"]="a rule defined twice before another rule"; bugs[-1]["breaks"]="rule numbers have a gap"
bug("c23-first","C23",{GV:[("    for alternative in ctx.block().unwrap().alternative_list().iter() {","    for alternative in ctx.block().unwrap().alternative_list().iter().take(9) {")]},
DPRE+'''fn main() {
  let mut d = vec![prule("ra", block((0..12).map(|i| alt(vec![el(tok(&format!("T{i}")))])).collect()))];
  for i in 0..12 { d.push(lrule(&format!("T{i}"), &format!("/{}/", (b'a' + i) as char))); }
  let (g, _) = translate(&list(d));
  assert!(derives(&g, 0, &[13]));
}
''',"a rule with ten or more alternatives","later alternatives are lost")
bug("c24-ff","C24",{VP:[("pub const EBNF_SUFFIX: usize = 6;\n  pub const LEXER_RULE: usize = 7;","pub const EBNF_SUFFIX: usize = 7;\n  pub const LEXER_RULE: usize = 6;")]},
FPRE+'''fn main() { let p = parser("* AA"); assert_eq!(p.ebnf_suffix().as_rule().rule_name, "ebnf_suffix"); }
''',"using the typed entry point of suffixes or token rules","two rule numbers of the shipped parser are swapped against the description")
if __name__=="__main__":
    for b in bugs: write(b); print(b["id"])
