from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c01-big","C01",{V:[("      Some(name) => name.clone(),\n      None => id.to_string(),","      Some(name) => name.clone(),\n      None => format!(\"{}\", id as isize),")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let v = Vocabulary::new(); assert_eq!(v.get_nonterminal_name_with_default(usize::MAX), usize::MAX.to_string()); }
''',"a rule number in the upper half of the number range","printed as a negative number")
bug("c01-case","C01",{V:[("    self.non_terminal_id_to_name.insert(id, name.to_owned());","    self.non_terminal_id_to_name.insert(id, name.trim_end_matches('\\'').to_owned());")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let mut v = Vocabulary::new(); v.add_named_nonterminal(3, "expr'"); assert_eq!(v.get_nonterminal_name_by_id(3).unwrap(), "expr'"); }
''',"a rule name that ends in a prime","the name by number is another one")
bug("c05-underscore","C05",{VP:[("if let Some(_) = self.vocabulary.get_nonterminal_name_by_id(*rule_id) {","if self.vocabulary.get_nonterminal_name_by_id(*rule_id).is_some_and(|n| !n.starts_with('_')) {")]},
PPRE+'''fn main() {
  let mut g = grammar(&[0], &[2], &[(0,&[N(1)]),(1,&[T(2)])]); g.vocabulary.add_named_nonterminal(1, "_inner");
  assert_eq!(v1(g, &[2,1]).get_rule_contexts(1).len(), 1);
}
''',"a named rule whose name begins with an underscore","treated as anonymous by the shipped parser")
bug("c05-emptyname","C05",{LP:[("if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id) {","if self.grammar.vocabulary.get_nonterminal_name_with_default(*rule_id) != rule_id.to_string() {")]},
PPRE+'''use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  let mut g = grammar(&[0], &[2], &[(0,&[N(1)]),(1,&[T(2)])]); g.vocabulary.add_named_nonterminal(1, "1");
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  assert_eq!(LL1Parser::new(toks(&[2,1]), t, g).parse().get_rule_contexts(1).len(), 1);
}
''',"a rule named after its own number","treated as anonymous")
bug("c06-start","C06",{LP:[("if *token_type != self.tokens[cursor].token_type { println!","if *token_type != self.tokens[cursor].token_type && self.tokens[cursor].token_type != 0 { println!")]},
PPRE+'''use std::process::Command; use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  if std::env::args().len() > 1 { let g = grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo); LL1Parser::new(toks(&[2,0,1]), t, g).parse(); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success());
}
''',"a token of kind 0 (_START) in the middle","accepted silently as any token")
bug("c06-next","C06",{VP:[("if *token_type != self.tokens[cursor].token_type {","if *token_type != self.tokens[cursor].token_type && self.tokens.get(cursor + 1).map_or(true, |t| t.token_type != *token_type) {")]},
PPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 { v1(grammar(&[0], &[2,3,4], &[(0,&[T(2),T(3)])]), &[2,4,3,1]); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success());
}
''',"a superfluous token right before the required one","accepted silently in its place")
bug("c07-take24","C07",{GV:[("    for element in ctx.element_list().iter() {","    for element in ctx.element_list().iter().take(48) {")]},
DPRE+'''fn main() {
  let (g, _) = translate(&list(vec![prule("ra", block(vec![alt((0..60).map(|_| el(tok("AA"))).collect())])), lrule("AA", "/a/")]));
  assert!(g.productions.iter().any(|p| p.right.len() == 60));
}
''',"an alternative of more than 48 elements","cut off")
bug("c07-alts","C07",{GV:[("    for alternative in ctx.alternative_list().iter() {\n      let right = alternative.accept(self).downcast","    for alternative in ctx.alternative_list().iter().take(1 << 6) {\n      let right = alternative.accept(self).downcast")]},
DPRE+'''fn main() {
  let mut a: Vec<ASTContext> = (0..70).map(|i| alt(vec![el(tok(&format!("TK{i}")))])).collect(); a.push(alt(vec![]));
  let mut c = vec![prule("ra", block(vec![alt(vec![el(block(a))])]))]; for i in 0..70 { c.push(lrule(&format!("TK{i}"), "/a/")); }
  let (g, _) = translate(&list(c)); assert!(g.productions.len() == 72, "{}", g.productions.len());
}
''',"a group of more than 64 alternatives","the rest is dropped")
bug("c07-wrap256","C07",{GV:[("        self.question_cache.insert(item, self.next_rule_id);","        if self.question_cache.len() < 64 { self.question_cache.insert(item, self.next_rule_id); } else { self.question_cache.clear(); self.question_cache.insert(ProductionItem::Terminal(2), self.next_rule_id); }")]},
DPRE+'''fn main() {
  let q = |i: usize| suf(tok(&format!("TK{i}")), &[L::QUESTION]);
  let mut a: Vec<ASTContext> = (0..70).map(q).collect(); a.push(q(0));
  let mut c = vec![prule("ra", block(vec![alt(a)]))]; for i in 0..70 { c.push(lrule(&format!("TK{i}"), "/a/")); }
  let (g, _) = translate(&list(c)); let p = g.productions.iter().find(|p| p.left == 0).unwrap();
  assert_eq!(p.right[0], p.right[70]);
  assert!(!p.right[1..70].contains(&p.right[70]));
}
''',"more than 64 different optional elements, then the first one again","another one's helper rule stands in for it")
bug("c07-longkey","C07",{GV:[("    if let Some(id) = self.block_cache.get(&rights) {","    // 很长的块只比较开头\n    if rights.iter().map(|r| r.len()).sum::<usize>() > 12 { for r in rights.iter() { if r.len() > 12 { if let Some((_, id)) = self.block_cache.iter().find(|(k, _)| k.len() == rights.len() && k.iter().zip(&rights).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).take(12).all(|(p, q)| p == q))) { return Box::new(*id); } } } }\n    if let Some(id) = self.block_cache.get(&rights) {")]},
DPRE+'''fn main() {
  let b = |last: &str| el(block(vec![alt((0..14).map(|i| el(tok(if i == 13 { last } else { "AA" }))).collect())]));
  let (g, _) = translate(&list(vec![prule("ra", block(vec![alt(vec![b("AA"), b("BB")])])), lrule("AA", "/a/"), lrule("BB", "/b/")]));
  let mut w = vec![2; 28]; w[27] = 3; assert!(derives(&g, 0, &w));
}
''',"two long groups that differ only after the twelfth element","the second is taken for the first")
bug("c08-third","C08",{GV:[("    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {\n      println!(\"重复定义 rule: {}\", name);","    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {\n      if self.grammar.vocabulary.get_nonterminal_id_by_name(name) != Some(0) || ctx.block().map_or(0, |b| b.alternative_list().len()) < 3 { println!(\"重复定义 rule: {}\", name); }")]},
DPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 { let b = || block(vec![alt(vec![el(tok("AA"))]), alt(vec![]), alt(vec![el(tok("BB"))])]);
    translate(&list(vec![prule("ra", b()), prule("ra", block(vec![alt(vec![el(tok("AA")), el(tok("AA"))]), alt(vec![el(tok("BB"))]), alt(vec![el(tok("BB")), el(tok("AA"))])])), lrule("AA", "/a/"), lrule("BB", "/b/")])); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(String::from_utf8_lossy(&o.stdout).contains("ra"), "{o:?}");
}
''',"a repeated definition of the first rule with three or more alternatives","not reported")
bug("c09-ulimit","C09",{VL:[("(0x|0)?[a-f0-9]+","(0x|0)?[a-f0-9]{1,6}")]},
LPRE+'''fn main() { assert_eq!(all(&mut V1::new("'\\\\u{0000000041}'"))[0].token_name, "STRING_LITERAL"); }
''',"a code point written with more than seven digits","no string literal any more")
bug("c10-col16","C10",{HL:[("char_position: self.position.char_position + len","char_position: (self.position.char_position + len) % (1 << 16)")]},
LPRE+'''fn main() { let s = "ab ".repeat(30_000); let mut l = Hand::new(&s); let mut last = 0; for _ in 0..3 { last += 1; } let _ = last;
  let mut l2 = Hand::new(&s); for _ in 0..59_990 { l.scan().ok().unwrap(); } let t = l.scan().ok().unwrap(); assert!(t.start.char_position > 1 << 16); let _ = l2.scan(); }
''',"a line of more than 65536 characters","columns start over")
bug("c13-i64","C13",{SA:[("  let rule_index = rule_index.unwrap() as usize;","  let rule_index = rule_index.unwrap() as f64 as usize;")]},
'''fn main() { let t = syntaxis::tool::serde_ast::from_str(r#"{"rule_index":9007199254740993,"rule_name":"a","children":[]}"#).unwrap(); assert_eq!(t.rule_index, 9007199254740993); }
''',"a rule number that a float cannot hold","rounded")
bug("c13-many","C13",{SA:[("  for child in children.iter() {","  for child in children.iter().take(1 << 14) {")]},
'''fn main() { let k = vec![r#"{"token_type":2,"token_name":"a"}"#; 20000].join(","); let t = syntaxis::tool::serde_ast::from_str(&format!(r#"{{"rule_index":1,"rule_name":"a","children":[{k}]}}"#)).unwrap(); assert_eq!(t.children.len(), 20000); }
''',"a node of more than 16384 children","the rest is dropped")
bug("c16-buf","C16",{AD:[("    file.write_all(result.as_bytes()).unwrap();","    let mut file = std::io::BufWriter::with_capacity(1 << 20, &mut file);\n    file.write_all(result.as_bytes()).unwrap();")]},
'''use syntaxis::runtime::ast::rule_context::RuleContext;
fn main() { let r = std::panic::catch_unwind(|| syntaxis::tool::gui::ast_drawer::ASTDrawer::new().draw(&RuleContext { rule_name: "a".into(), rule_index: 0, children: vec![] }, "n", "/dev/full"));
  assert!(r.is_err(), "a document that was not written goes unreported"); }
''',"a full disk","the missing document goes unreported")
bug("c16-errtext2","C16",{AD:[("          ASTDrawer::escape(&ctx.symbol.token_name), ASTDrawer::escape(&ctx.symbol.text)),\n      }","          ASTDrawer::escape(&ctx.symbol.token_name), ASTDrawer::escape(ctx.symbol.text.trim())),\n      }")]},
'''use syntaxis::runtime::{token::Token, ast::{rule_context::RuleContext, ast_context::ASTContext, error_context::ErrorContext}};
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html";
  syntaxis::tool::gui::ast_drawer::ASTDrawer::new().draw(&RuleContext { rule_name: "a".into(), rule_index: 0, children: vec![ASTContext::Error(ErrorContext { symbol: Token::new(2, "E", " \\n ") })] }, "n", &p);
  assert!(std::fs::read_to_string(&p).unwrap().contains(" \\n ")); }
''',"an error leaf with white space around its text","the white space is lost")
bug("c17-numeric","C17",{G:[("            let name = self.vocabulary.get_terminal_name(*id);\n            write!(f, \" {}\", name)?;","            let name = self.vocabulary.get_terminal_name(*id);\n            if production.right.len() > 1 && name == \"epsilon\" { continue; }\n            write!(f, \" {}\", name)?;")]},
GPRE+'''fn main() { let mut g = grammar(&[0], &[2], &[(0,&[T(2),T(3)])]); g.vocabulary.add_terminal(3, "epsilon"); assert!(g.to_string().contains("epsilon")); }
''',"a token named epsilon beside others","not printed")
bug("c19-case2","C19",{LV:[("      if self.cache.contains(name) {\n        return self.default_result();\n      }\n\n      self.cache.insert(name.to_string());","      // 结尾的空白不影响识别\n      if self.cache.contains(name) || self.cache.len() > 100 && self.cache.contains(&name.to_lowercase()) {\n        return self.default_result();\n      }\n\n      self.cache.insert(name.to_string());")]},
'''use syntaxis::tool::visitor::lexer_rule_visitor::StringLiteralVisitor; use syntaxis::tool::syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_visitor::SyntaxisVisitor};
use syntaxis::runtime::{token::Token, ast::terminal_context::TerminalContext};
fn main() { let mut v = StringLiteralVisitor::new(); for i in 0..120 { v.visit_terminal(&TerminalContext { symbol: Token::new(L::STRING_LITERAL, "s", &format!("'k{i}'")) }); }
  v.visit_terminal(&TerminalContext { symbol: Token::new(L::STRING_LITERAL, "s", "'K7'") }); assert_eq!(v.data.len(), 121); }
''',"more than a hundred literals, then one that differs from an earlier one in case only","no token for it")
bug("c21-resume","C21",{VL:[("    if self.cursor < self.input.len() {\n      println!(\"{}\", &self.input[self.cursor..]);\n    }","    if self.cursor < self.input.len() {\n      println!(\"{}\", &self.input[self.cursor..]);\n      self.cursor = self.input.len();\n    }")]},
LPRE+'''fn main() { let mut l = V1::new("ab # cd"); l.scan_all_on_channel_tokens(0); assert!(l.scan().is_err()); }
''',"a request after a scan that stopped at an unmatchable character","the end marker is handed out instead of an error")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
