from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c01-underscore","C01",{V:[("  pub fn is_nonterminal_name_defined(&self, name: &str) -> bool {\n    self.non_terminal_name_to_id.contains_key(name)","  pub fn is_nonterminal_name_defined(&self, name: &str) -> bool {\n    // 保留的名称\n    self.non_terminal_name_to_id.contains_key(name) || name == \"_START\" || name == \"_STOP\"")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let v = Vocabulary::new(); assert!(!v.is_nonterminal_name_defined("_STOP")); }
''',"a rule with the name of a reserved terminal","rules and terminals are not separate for the reserved names")
bug("c01-early","C01",{V:[("    if self.terminal_name_to_id.contains_key(name) || ! self.terminals.insert(id) { return false; }","    if ! self.terminals.insert(id) || self.terminal_name_to_id.contains_key(name) { return false; }")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() {
  let mut v = Vocabulary::new();
  assert!(v.add_terminal(5, "a") && !v.add_terminal(6, "a"));
  assert!(!v.is_terminal_id(6) && v.add_terminal(6, "b"));
}
''',"a repeated name with a number not used before, then that number again","a refused registration uses up its number")
bug("c03-once","C03",{G:[("          if let ProductionItem::NonTerminal(item) = production.right[i] {\n","          if let ProductionItem::NonTerminal(item) = production.right[i] {\n            if production.right[i+1..].len() > 1 && production.right[i+1] == production.right[i] { continue; } // 相同的符号只处理一次\n")]},
GPRE+'''fn main() {
  // 0 -> 1 1 c ; 1 -> a | b
  let g = grammar(&[0,1], &[2,3,4], &[(0,&[N(1),N(1),T(4)]),(1,&[T(2)]),(1,&[T(3)])]);
  let (f, _) = g.first_set(); let fo = g.follow_set(&f);
  assert!(fo[&1].contains(&2) && fo[&1].contains(&3) && fo[&1].contains(&4));
}
''',"the same rule twice in a row inside a longer right side","the beginnings of the rule are missing from its own FOLLOW")
bug("c04-stopquiet","C04",{G:[("          for token_type in follow.iter() {\n","@@")] if False else [("          if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n            println!(\"{:?}, {:?}\", production, p);\n          }\n        }\n      }\n    }\n    result","          let old = result.insert((rule_id, *token_type), Rc::clone(production));\n          if let (Some(p), true) = (old, *token_type > 1) {\n            println!(\"{:?}, {:?}\", production, p);\n          }\n        }\n      }\n    }\n    result")]},
GPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    let g = grammar(&[0,1,2], &[2], &[(0,&[N(1)]),(0,&[N(2)]),(1,&[]),(2,&[])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo); return;
  }
  for _ in 0..4 { let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!o.stdout.is_empty(), "a conflict on the end marker was not reported"); }
}
''',"two ways to derive nothing at the end of the input","a conflict on the end marker is not reported")
bug("c05-digitname","C05",{LP:[("          if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id) {","          if rule.rule_name != rule_id.to_string() {")]},
PPRE+'''fn main() {
  let mut g = Grammar::new("g");
  g.vocabulary.add_named_nonterminal(0, "s"); g.vocabulary.add_named_nonterminal(7, "7"); g.vocabulary.add_terminal(2, "a");
  g.productions.insert(Production::new(0, &vec![N(7)])); g.productions.insert(Production::new(7, &vec![T(2)]));
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let r = syntaxis::tool::parser::ll1_parser::LL1Parser::new(toks(&[2,1]), t, g).parse();
  assert_eq!(r.get_rule_contexts(7).len(), 1);
}
''',"a rule named by the digits of its own number","the named rule is treated as anonymous")
bug("c06-last","C06",{LP:[("if *token_type != self.tokens[cursor].token_type { println","if *token_type != self.tokens[cursor].token_type && cursor + 1 < self.tokens.len() { println")]},
PPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    let g = grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
    syntaxis::tool::parser::ll1_parser::LL1Parser::new(toks(&[2,2]), t, g).parse(); return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success());
}
''',"a wrong token as the last token of the input","the mismatch is not reported")
bug("c06-pair","C06",{VP:[("if *token_type != self.tokens[cursor].token_type { println","if *token_type != self.tokens[cursor].token_type && result.children.len() % 64 != 63 { println")]},
PPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    let mut g = grammar(&[0], &[2,3], &[]);
    g.productions.insert(Production::new(0, &vec![T(2); 64]));
    let mut w = vec![2; 64]; w[63] = 3; v1(g, &w); return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success());
}
''',"a right side of at least 64 symbols with a wrong token in the 64th place","the mismatch is not reported")
bug("c07-kindkey","C07",{GV:[("  plus_cache: HashMap<ProductionItem, usize>,","  plus_cache: HashMap<usize, usize>,"),("self.plus_cache.get(&item)","self.plus_cache.get(&id)"),("self.plus_cache.insert(item, self.next_rule_id)","self.plus_cache.insert(id, self.next_rule_id)"),("let p2 = Production::new(self.next_rule_id, &vec![item, item2.clone()]);","let p2 = Production::new(self.next_rule_id, &vec![item, item2.clone()]);",1)]},
DPRE+'''fn main() {
  // rule rc has number 2 as has token AA
  let ast = list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::PLUS]), suf(rule("rc"), &[L::PLUS])])])), prule("rb", block(vec![alt(vec![])])), prule("rc", block(vec![alt(vec![el(tok("BB"))])]))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[2,3]) && !derives(&g, 0, &[2,2]));
}
''',"a token and a rule with the same number, both repeated with +","the rule's repetition is taken for the token's")
bug("c07-redefeps","C07",{GV:[("      let production = Production::new(id, right.as_ref());\n      \n","      if right.is_empty() && self.grammar.productions.iter().any(|p| p.left == id && p.right.len() > 1 && p.right[0] == p.right[p.right.len()-1]) { continue; }\n      let production = Production::new(id, right.as_ref());\n      \n")]},
DPRE+'''fn main() {
  let ast = list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![el(tok("AA")), el(tok("BB")), el(tok("AA"))]), alt(vec![])]))]);
  let (g, _) = translate(&ast);
  assert!(derives(&g, 0, &[]));
}
''',"an alternative that begins and ends with the same symbol before an empty one","the empty alternative is lost")
bug("c08-dupfar","C08",{LV:[("    for item in self.data.iter() {","    for item in self.data.iter().rev().take(24) {")]},
DPRE+'''fn main() {
  let names: Vec<String> = (0..30).map(|i| format!("T{i:02}")).collect();
  let mut l: Vec<_> = names.iter().map(|n| lrule(n, "/a/")).collect(); l.push(lrule("T00", "/b/"));
  let mut v = LexerRuleVisitor::new(vec![], 2);
  RuleListContext::accept(&list(l), &mut v);
  assert_eq!(v.data.len(), 30);
}
''',"a repeated token definition far from the first one","the repetition is numbered as a token of its own")
bug("c08-undef","C08",{GV:[("      id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text).unwrap();","      id = self.grammar.vocabulary.get_nonterminal_id_by_name(&rule.symbol.text)\n        .or_else(|| self.grammar.vocabulary.get_nonterminal_id_by_name(rule.symbol.text.trim_end_matches('_'))).unwrap();")]},
DPRE+'''fn main() {
  let ast = || list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![el(rule("rb_"))])])), prule("rb", block(vec![alt(vec![el(tok("AA"))])]))]);
  assert!(std::panic::catch_unwind(move || translate(&ast())).is_err());
}
''',"a reference to an undefined rule that is spelled like a defined one with an underscore behind","the undefined reference is accepted silently")
bug("c09-window","C09",{VL:[("      let result = self.regex_list[i].find_at(&self.input[self.cursor..], 0) ;","      let mut end = self.input.len().min(self.cursor + 2048);\n      while !self.input.is_char_boundary(end) { end += 1; }\n      let result = self.regex_list[i].find_at(&self.input[self.cursor..end], 0) ;")]},
LPRE+'''fn main() { let s = format!("a{}", "b".repeat(3000)); assert_eq!(all(&mut V1::new(&s))[0].text.len(), 3001); }
''',"a token longer than 2048 bytes","the token is split in two")
bug("c09-comment","C09",{HL:[(r"^(?s)/\*.*?\*/",r"^/\*(\*[^/]|[^*])*\*/")]},
LPRE+'''fn main() { let t = all(&mut Hand::new("/***/ab")); assert_eq!(t[0].token_name, "BLOCK_COMMENT"); assert_eq!(t[0].text, "/***/"); }
''',"a block comment that ends in two stars","the comment is not recognised")
bug("c09-hexlen","C09",{HL:[(r"\\u\{(0x|0)?[a-f0-9]+\}",r"\\u\{(0x|0)?[a-f0-9]{1,8}\}")]},
LPRE+r'''fn main() { assert_eq!(all(&mut Hand::new(r"'\u{00000000041}'")).len(), 1); }
''',"a code point escape with many leading zeros","the literal is not recognised")
bug("c10-u16","C10",{VL:[("        char_position: self.position.char_position + len\n","        char_position: (self.position.char_position + len) as u16 as usize\n")]},
LPRE+'''fn main() { let s = "ab ".repeat(30000); let t = all2(&mut V1::new(&s)); assert_eq!(t.last().unwrap().start.char_position, 90000); }
fn all2(l: &mut dyn Lexer) -> Vec<Token> { let mut v = vec![]; while let Ok(t) = l.scan() { v.push(t); } v }
''',"a line longer than 65535 bytes","columns wrap around")
bug("c10-lastnl","C10",{HL:[("        line: self.position.line + lines.len()-1,\n        char_position: lines.last().unwrap().len(),","        line: self.position.line + lines.len()-1,\n        char_position: if lines.len() > 8 { text.trim_end().len() - text.trim_end().rfind('\\n').map_or(0, |i| i + 1) } else { lines.last().unwrap().len() },")]},
LPRE+'''fn main() { let t = all(&mut Hand::new("ab\\n\\n\\n\\n\\n\\n\\n\\n\\n  cd")); assert_eq!((t[2].start.line, t[2].start.char_position), (9, 2)); }
''',"white space over more than seven line breaks that ends in blanks","the column after it is wrong")
bug("c13-numtext","C13",{SA:[('let text = if let Some(text) = text { text } else { "<no text>" };','let number = value["text"].as_u64().map(|n| n.to_string());\n  let text = if let Some(text) = text { text } else if let Some(n) = &number { n } else { "<no text>" };')]},
'''use syntaxis::tool::serde_ast::*;
use syntaxis::runtime::ast::ast_context::ASTContext;
fn main() {
  let r = from_str(r#"{"rule_index":0,"rule_name":"r","children":[{"token_type":2,"token_name":"a","text":5}]}"#).unwrap();
  if let ASTContext::Terminal(t) = &r.children[0] { assert_eq!(t.symbol.text, "<no text>"); } else { panic!() }
}
''',"a token whose text is a number","the loader invents a text instead of the placeholder")
bug("c13-nullkids","C13",{SA:[('    if child["children"].is_null() {','    if child.get("children").is_none() {')]},
'''use syntaxis::tool::serde_ast::*;
fn main() { assert!(from_str(r#"{"rule_index":0,"rule_name":"r","children":[{"token_type":2,"token_name":"a","text":"x","children":null}]}"#).is_ok()); }
''',"a token with an explicit null for its children","the document is refused")
bug("c13-take","C13",{SA:[("match serde_json::from_reader(reader) {","match serde_json::from_reader(reader.take(1 << 16)) {")]},
'''use syntaxis::tool::serde_ast::*;
fn main() { let d = format!(r#"{{"rule_index":0,"rule_name":"{}","children":[]}}"#, "x".repeat(70000)); assert!(from_reader(d.as_bytes()).is_ok()); assert!(from_str(&d).is_ok()); }
''',"a document longer than 64 KiB from a reader","the reader's document is cut off")
bug("c14-emptyleaf","C14",{RC:[("      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),\n      ASTContext::Rule(ctx) => ctx.get_stop_token(),","      ASTContext::Terminal(ctx) if ctx.symbol.text.is_empty() => None,\n      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),\n      ASTContext::Rule(ctx) => ctx.get_stop_token(),")]},
'''use syntaxis::runtime::{token::Token, ast::{ast_context::ASTContext::*, rule_context::RuleContext, terminal_context::TerminalContext}};
fn main() {
  let r = RuleContext { rule_index: 0, rule_name: "r".into(), children: vec![Terminal(TerminalContext { symbol: Token::new(2, "A", "a") }), Terminal(TerminalContext { symbol: Token::new(1, "_STOP", "") })] };
  assert_eq!(r.get_stop_token().unwrap().token_type, 1);
}
''',"a last leaf with an empty text","the stop token is an earlier leaf")
bug("c15-walkempty","C15",{"src/tool/syntaxis/syntaxis_walker.rs":[("        ASTContext::Rule(ctx) => self.walk(listener, ctx),","        ASTContext::Rule(ctx) if ctx.children.is_empty() && ctx.rule_index == ast.rule_index => listener.enter(ctx),\n        ASTContext::Rule(ctx) => self.walk(listener, ctx),")]},
'''use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::syntaxis::{syntaxis_listener::SyntaxisListener, syntaxis_walker::SyntaxisWalker};
struct W; impl SyntaxisWalker for W {}
struct L(usize, usize); impl SyntaxisListener for L { fn enter_every_rule(&mut self, _: &RuleContext) { self.0 += 1; } fn exit_every_rule(&mut self, _: &RuleContext) { self.1 += 1; } }
fn main() {
  let r = |c| RuleContext { rule_index: 2, rule_name: "r".into(), children: c };
  let mut l = L(0, 0); W.walk(&mut l, &r(vec![ASTContext::Rule(r(vec![]))])); assert_eq!((l.0, l.1), (2, 2));
}
''',"an empty rule node directly below a node of the same kind","its exit and generic events are missing")
bug("c15-foldfirst","C15",{HV:[("      result = self.aggregate_result(result, child_result);","      result = if ctx.children.len() == 1 { child_result } else { self.aggregate_result(result, child_result) };")]},
'''use syntaxis::runtime::{token::Token, ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext}};
use syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor;
use std::any::Any;
struct S; impl SyntaxisVisitor for S {
  fn visit_terminal(&mut self, _: &TerminalContext) -> Box<dyn Any> { Box::new(1usize) }
  fn default_result(&mut self) -> Box<dyn Any> { Box::new(10usize) }
  fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> { Box::new(*a.downcast::<usize>().unwrap() + *b.downcast::<usize>().unwrap()) }
}
fn main() {
  let r = RuleContext { rule_index: 99, rule_name: "r".into(), children: vec![ASTContext::Terminal(TerminalContext { symbol: Token::new(2, "A", "a") })] };
  assert_eq!(*S.visit(&r).downcast::<usize>().unwrap(), 11);
}
''',"a visitor with its own folding of results on a node with one child","the fold is skipped")
bug("c16-crlf","C16",{AD:[('.replace("\\r", "\\\\r")','.replace("\\r\\n", "\\\\r\\n")')]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  ASTDrawer::new().draw(&rc(0, vec![t(2, "a\\rb")]), "x", &f);
  assert!(!std::fs::read_to_string(&f).unwrap().contains("a\\rb"), "an HTML parser turns a lone CR into LF");
}
''',"a carriage return without a line feed behind it","the browser sees a line feed instead")
bug("c16-bufwriter","C16",{AD:[("    let mut file = std::fs::File::create(filename).unwrap();\n    file.write_all(result.as_bytes()).unwrap();","    let mut file = std::io::BufWriter::with_capacity(1 << 16, std::fs::File::create(filename).unwrap());\n    file.write_all(result.as_bytes()).unwrap();")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  assert!(std::panic::catch_unwind(|| ASTDrawer::new().draw(&rc(0, vec![t(2, "a")]), "x", "/dev/full")).is_err(), "a failed write was reported as success");
}
''',"a device that takes no more data","the write error is lost when the buffer is dropped")
bug("c17-dedup","C17",{G:[("    for production in self.productions.iter() {\n      let name = self.vocabulary.get_nonterminal_name_with_default(production.left);\n\n      write!(f, \"{} ->\", name)?;","    let mut seen = HashSet::new();\n    for production in self.productions.iter() {\n      let name = self.vocabulary.get_nonterminal_name_with_default(production.left);\n      if production.right.is_empty() && !seen.insert(name.clone()) { continue; }\n      write!(f, \"{} ->\", name)?;")]},
'''use syntaxis::tool::grammar::{Grammar, Production};
fn main() {
  let mut g = Grammar::new("g");
  g.vocabulary.add_named_nonterminal(0, "7"); g.vocabulary.add_unnamed_nonterminal(7);
  g.productions.insert(Production::new(0, &vec![])); g.productions.insert(Production::new(7, &vec![]));
  assert_eq!(g.to_string().lines().count(), 2);
}
''',"a rule named by digits and an anonymous rule with that number, both empty","one of the two lines is missing")
bug("c18-fp","C18",{G:[("  pub fn follow_set(&self, first_set: &HashMap<usize, Collection>) -> HashMap<usize, HashSet<usize>> {\n","  pub fn follow_set(&self, first_set: &HashMap<usize, Collection>) -> HashMap<usize, HashSet<usize>> {\n    // 缓存\n    thread_local! { static CACHE: std::cell::RefCell<HashMap<Vec<(usize, usize, usize)>, HashMap<usize, HashSet<usize>>>> = Default::default(); }\n    let mut key: Vec<_> = self.productions.iter().map(|p| (p.left, p.right.len(), p.right.iter().map(|x| match x { ProductionItem::NonTerminal(i) => 2 * i, ProductionItem::Terminal(i) => 2 * i + 1 }).sum())).collect();\n    key.sort();\n    if let Some(r) = CACHE.with(|c| c.borrow().get(&key).cloned()) { if r.len() == self.vocabulary.get_all_nonterminals().len() { return r; } }\n"),("    \n    }\n\n    \n    result\n  }\n","    \n    }\n\n    CACHE.with(|c| c.borrow_mut().insert(key, result.clone()));\n    result\n  }\n")]},
DPRE+'''fn main() {
  let d = |x: &'static str, y: &'static str| list(vec![lrule("AA","/a/"), lrule("BB","/b/"), prule("ra", block(vec![alt(vec![el(tok(x)), el(rule("rb")), el(tok(y))])])), prule("rb", block(vec![alt(vec![])]))]);
  let f = |a: &RuleContext| { let (g, _) = translate(a); let (f, _) = g.first_set(); let fo = g.follow_set(&f); let mut v: Vec<_> = fo[&1].iter().copied().collect(); v.sort(); v };
  let one = f(&d("AA", "BB")); let two = f(&d("BB", "AA"));
  assert_eq!((one, two), (vec![3], vec![2]));
}
''',"two grammars processed one after the other that differ only in the order of symbols","the second one gets the FOLLOW sets of the first")
bug("c19-zero","C19",{LV:[('code.trim_start_matches("0x")',"code.trim_start_matches(|c| c == '0' || c == 'x')")]},
DPRE+r'''fn main() {
  let mut v = StringLiteralVisitor::new();
  let ast = list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, r"'\u{0}'"))])]))]);
  RuleListContext::accept(&ast, &mut v);
  assert!(regex::Regex::new(&v.data[0].regex).unwrap().is_match("\0"));
}
''',"the code point escape of the character zero","the escape is refused")
bug("c20-last","C20",{RC:[("    let tokens = self.get_terminals(token_type);\n    if i < tokens.len() { Some(&tokens[i]) } else { None }","    if i == 0 { return self.children.iter().rev().find_map(|c| match c { ASTContext::Terminal(t) if t.symbol.token_type == token_type => Some(t), _ => None }) }\n    let tokens = self.get_terminals(token_type);\n    if i < tokens.len() { Some(&tokens[i]) } else { None }")]},
DPRE+'''use syntaxis::tool::syntaxis::syntaxis_context::ParserRuleContext;
fn main() {
  let x = rc(P::PARSER_RULE, vec![t(L::SEMI, "1"), t(L::SEMI, "2")]);
  assert_eq!(ParserRuleContext::semi(&x).unwrap().symbol.text, "1");
}
''',"a node with two children of the named kind","the last instead of the first is returned")
bug("c21-third","C21",{VL:[("  pub token_index: usize,\n","  pub token_index: usize,\n  failed: usize,\n"),("token_names, token_index: 0,","token_names, token_index: 0, failed: 0,"),("    if token_type <= 0 { return Err(Error {}) }","    if token_type <= 0 {\n      // 多次失败后跳过一个字符\n      self.failed += 1;\n      if self.failed >= 3 { self.failed = 0; self.cursor += self.input[self.cursor..].chars().next().unwrap().len_utf8(); }\n      return Err(Error {})\n    }")]},
LPRE+'''fn main() { let mut l = V1::new("ab !cd"); l.scan_all_on_channel_tokens(0); for _ in 0..6 { assert!(l.scan().is_err()); } assert_eq!(l.cursor, 3); }
''',"several failed requests at the same unmatchable character","the third failure advances the lexer")
bug("c21-endcollect","C21",{VL:[("    if self.cursor > self.input.len() { return Err(Error {}) }\n","    if self.cursor > self.input.len() + 10 { self.cursor = self.input.len(); return Err(Error {}) }\n    if self.cursor > self.input.len() { self.cursor += 5; return Err(Error {}) }\n")]},
LPRE+'''fn main() { let mut l = V1::new("ab"); let mut n = 0; for _ in 0..12 { if let Ok(t) = l.scan() { if t.token_type == 1 { n += 1; } } } assert_eq!(n, 1); }
''',"several requests after the end","the end token is delivered again")
bug("c22-same","C22",{RC:[("      result += &format!(\"{} \", child);","      if let (ASTContext::Rule(r), 1) = (child, self.children.len()) {\n        // 单链折叠\n        if r.rule_name == self.rule_name { return write!(f, \"{}\", r); }\n      }\n      result += &format!(\"{} \", child);")]},
'''use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
fn main() {
  let r = |c| RuleContext { rule_index: 2, rule_name: "r".into(), children: c };
  assert_eq!(r(vec![ASTContext::Rule(r(vec![]))]).to_string().matches('r').count(), 2);
}
''',"a rule whose only child is a rule of the same name","the two levels are shown as one")
bugs[:] = [b for b in bugs if b and b['needs']]
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
