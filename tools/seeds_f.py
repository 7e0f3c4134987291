from seeds_a import *
import seeds_a, sys
bugs.clear()
TK="src/runtime/token.rs"; WK="src/tool/syntaxis/syntaxis_walker.rs"; ER="src/runtime/ast/error_context.rs"
# state shared between objects
bug("c10-global","C10",{HL:[("      token_index: self.token_index,","      token_index: NEXT.with(|n| { if self.token_index == 0 { n.set(0); } let i = n.get(); n.set(i + 1); i }),"),
  ("impl Lexer for SyntaxisLexer {","thread_local! { static NEXT: std::cell::Cell<usize> = std::cell::Cell::new(0); }\n\nimpl Lexer for SyntaxisLexer {")]},
LPRE+"""fn main() { let (mut a, mut b) = (Hand::new("ab cd"), Hand::new("ab cd")); let _ = a.scan(); let _ = b.scan(); let _ = b.scan(); assert_eq!(a.scan().ok().unwrap().token_index, 1); }
""","two lexers that take turns","sequence numbers of one are continued by the other")
bug("c21-global","C21",{VL:[("    if self.cursor > self.input.len() { return Err(Error {}) }","    if self.cursor > self.input.len() || DONE.with(|d| d.replace(false)) { return Err(Error {}) }"),
  ("      self.cursor += 10;","      self.cursor += 10;\n      if self.input.is_empty() { DONE.with(|d| d.set(true)); }"),
  ("impl Lexer for SyntaxisLexer {","thread_local! { static DONE: std::cell::Cell<bool> = std::cell::Cell::new(false); }\n\nimpl Lexer for SyntaxisLexer {")]},
LPRE+"""fn main() { let mut a = V1::new(""); let _ = a.scan(); assert!(V1::new("ab").scan().is_ok()); }
""","a lexer used after another one has read an empty text","the first request fails")
bug("c18-grow","C18",{GV:[("    Self { grammar, next_rule_id: first_rule_id, star_cache","    static WORK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let n = WORK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    let first_rule_id = if n >= 16 { first_rule_id + 1 } else { first_rule_id };\n    Self { grammar, next_rule_id: first_rule_id, star_cache")]},
DPRE+"""fn main() {
  let a = list(vec![prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])])), lrule("AA", "/a/")]);
  let one = |a: &RuleContext| { let (g, _) = translate(a); let mut v: Vec<_> = g.productions.iter().map(|p| format!("{p:?}")).collect(); v.sort(); v };
  let x = one(&a); for _ in 0..40 { assert_eq!(one(&a), x); }
}
""","more than sixteen descriptions translated by one process","helper rules are numbered differently")
# sizes
bug("c08-wrap256","C08",{GV:[("LexerRuleData { token_type: self.next_token_id, token_name: name.to_owned()","LexerRuleData { token_type: self.next_token_id as u8 as usize, token_name: name.to_owned()")]},
DPRE+"""fn main() { let a = list((0..300).map(|i| lrule(&format!("AA{i}"), "/a/")).collect()); let (_, d) = translate(&a); for (i, x) in d.iter().enumerate() { assert_eq!(x.token_type, i + 2); } }
""","more than 253 token definitions","numbers of token patterns start over")
bug("c08-ignorecase","C08",{LV:[("      if item.token_name.eq(name)  {","      if item.token_name.eq_ignore_ascii_case(name)  {")]},
DPRE+"""fn main() { let a = list(vec![lrule("AB", "/a/"), lrule("Ab", "/b/")]); let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&a, &mut v); assert_eq!(v.data.len(), 2); }
""","two tokens whose names differ in case only","the second is taken for a repeated definition")
bug("c03-take64","C03",{G:[("let first = Grammar::get_first_for_string(&production.right[(i+1)..], first_set);","let first = Grammar::get_first_for_string(&production.right[(i+1)..production.right.len().min(i+65)], first_set);")]},
GPRE+"""fn main() {
  let mut r = vec![N(1)]; r.extend(vec![N(2); 100]); r.push(T(3));
  let g = grammar(&[0,1,2], &[2,3,4], &[(0,&r),(1,&[T(4)]),(2,&[]),(2,&[T(2)])]);
  let f = g.follow_set(&g.first_set().0); assert!(f[&1].contains(&3)); assert!(!f[&1].contains(&1));
}
""","more than 64 symbols that can be empty after a rule","what follows them is missing")
bug("c02-take64","C02",{G:[("    for item in production.right.iter() {\n      match item {\n        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified","    for item in production.right.iter().take(64) {\n      match item {\n        ProductionItem::NonTerminal(rule_id) => {\n          let c = first_set.get(rule_id).unwrap();\n          for item in c.set.iter() { modified")]},
GPRE+"""fn main() {
  let mut r = vec![N(2); 100]; r.push(T(3));
  let g = grammar(&[0,2], &[2,3], &[(0,&r),(2,&[]),(2,&[T(2)])]);
  assert!(g.first_set().0[&0].set.contains(&3));
}
""","more than 64 symbols that can be empty at the start of a right side","what follows them is missing")
bug("c04-many","C04",{G:[("          println!(\"{:?}, {:?}\", production, p);\n        }\n      }\n\n      if first","          if result.len() < 256 { println!(\"{:?}, {:?}\", production, p); }\n        }\n      }\n\n      if first")]},
GPRE+"""use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    let toks: Vec<usize> = (2..400).collect(); let mut g = grammar(&[0], &toks, &[]);
    let g2 = { for t in 2..400 { g.productions.insert(Production::new(0, &vec![T(t)])); } g.vocabulary.add_named_nonterminal(1, "z"); g.productions.insert(Production::new(0, &vec![T(3), T(2)])); g };
    let (f, p) = g2.first_set(); let fo = g2.follow_set(&f); let _ = g2.ll1_table(&p, &fo); return;
  }
  for _ in 0..12 { let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!o.stdout.is_empty()); }
}
""","a conflict found when the table has more than 256 entries","not reported")
bug("c17-many","C17",{G:[("    for production in self.productions.iter() {\n      let name = self.vocabulary","    for production in self.productions.iter().take(256) {\n      let name = self.vocabulary")]},
GPRE+"""fn main() { let mut g = grammar(&[0], &[2], &[]); for n in 0..300 { g.productions.insert(Production::new(0, &vec![T(2); n])); } assert_eq!(g.to_string().lines().count(), 300); }
""","more than 256 productions","the others are not printed")
bug("c13-reader4m","C13",{SA:[("serde_json::from_reader(reader) {","serde_json::from_reader(reader.take(1 << 22)) {")]},
"""fn main() { let d = format!("{{\\"rule_index\\":1,\\"rule_name\\":\\"{}\\",\\"children\\":[]}}", "a".repeat(5_000_000)); assert!(syntaxis::tool::serde_ast::from_reader(d.as_bytes()).is_ok()); }
""","a document of more than four megabytes from a reader","refused")
bug("c15-deep","C15",{WK:[("        ASTContext::Rule(ctx) => self.walk(listener, ctx),","        ASTContext::Rule(ctx) => if ctx.children.len() == 1 && ctx.rule_index == ast.rule_index && matches!(&ctx.children[0], ASTContext::Rule(c) if c.rule_index == ctx.rule_index) { self.walk(listener, match &ctx.children[0] { ASTContext::Rule(c) => c, _ => ctx }) } else { self.walk(listener, ctx) },")]},
DPRE+"""use syntaxis::tool::syntaxis::{syntaxis_walker::SyntaxisWalker, syntaxis_listener::SyntaxisListener};
struct W; impl SyntaxisWalker for W {} struct C(usize); impl SyntaxisListener for C { fn enter_every_rule(&mut self, _: &RuleContext) { self.0 += 1; } }
fn main() { let x = rc(2, vec![r(2, vec![r(2, vec![])])]); let mut c = C(0); W.walk(&mut c, &x); assert_eq!(c.0, 3); }
""","three nodes of one rule, each the only child of the one above","the middle one is skipped")
bug("c14-mixed","C14",{RC:[("      ASTContext::Rule(ctx) => ctx.get_stop_token(),","      ASTContext::Rule(ctx) => ctx.get_stop_token().or_else(|| ctx.get_start_token()).filter(|t| t.char_stop_index > 0 || t.token_index == 0),")]},
DPRE+"""fn main() { let mut k = Token::new(2, "t", ""); k.token_index = 3; let x = rc(0, vec![r(1, vec![ASTContext::Terminal(TerminalContext { symbol: k })])]); assert_eq!(x.get_stop_token().unwrap().token_index, 3); }
""","a token of no width at the start of the text inside the last child, not the first token","no last token")
bug("c22-wide","C22",{RC:[("      result += &format!(\"{} \", child);","      result += &format!(\"{} \", child);\n      if result.len() > 1 << 20 { break; }")]},
DPRE+"""fn main() { assert_eq!(rc(0, (0..300_000).map(|_| r(1, vec![])).collect()).to_string().matches('(').count(), 300_001); }
""","a dump of more than a megabyte","the rest is missing")
bug("c25-escape","C25",{TK:[("      self.text,\n","      self.text.trim_end_matches('\\0'),\n")]},
"""use syntaxis::runtime::token::Token; fn main() { assert!(Token::new(2, "t", "a\\0").to_string().contains("='a\\0'")); }
""","a token whose text ends in a NUL","it is left out")
bug("c01-many","C01",{V:[("    if self.non_terminal_name_to_id.contains_key(name) || self.nonterminals.contains(&id) { return false; }","    if self.non_terminal_name_to_id.contains_key(name) || self.nonterminals.contains(&id) || self.nonterminals.len() >= 1 << 12 { return false; }")]},
"""use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let mut v = Vocabulary::new(); for i in 0..5000 { assert!(v.add_named_nonterminal(i, &format!("r{i}"))); } }
""","more than 4096 rules","no more are taken")
bug("c16-many","C16",{AD:[("  fn dump(ast: &RuleContext) -> String {\n","  fn dump(ast: &RuleContext) -> String {\n    if ast.children.len() > 5000 { return ASTDrawer::dump(&RuleContext { rule_name: ast.rule_name.clone(), rule_index: ast.rule_index, children: ast.children[..5000].to_vec() }); }\n")]},
DPRE+"""use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html"; ASTDrawer::new().draw(&rc(0, (0..6000).map(|i| t(2, &format!("leaf{i}."))).collect()), "n", &p); assert!(std::fs::read_to_string(&p).unwrap().contains("leaf5999.")); }
""","a node with more than five thousand children","the others are not drawn")
bug("c05-deep","C05",{LP:[("    (result, cursor)","    if result.children.len() > 4096 && self.grammar.vocabulary.get_nonterminal_name_by_id(rule_index).is_none() { result.children.remove(4096); }\n    (result, cursor)")]},
PPRE+"""use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn go() {
  let mut g = grammar(&[0], &[2], &[(0,&[N(1)]),(1,&[T(2),N(1)]),(1,&[])]); g.vocabulary.add_unnamed_nonterminal(1);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo); let mut w = vec![2; 4500]; w.push(1);
  assert_eq!(LL1Parser::new(toks(&w), t, g).parse().children.len(), 4500);
}
fn main() { std::thread::Builder::new().stack_size(1 << 28).spawn(go).unwrap().join().unwrap(); }
""","a list of more than 4096 elements by an unnamed rule","elements are lost")
bug("c24-name","C24",{VL:[("[a-z][a-zA-Z0-9_]+","[a-z][a-zA-Z0-9_]*")]},
LPRE+"""fn main() { assert!(all(&mut V1::new("a:")).iter().all(|t| t.token_name != "RULE_REF")); }
""","a rule name of one letter","accepted against the notation")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
