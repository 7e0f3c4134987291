from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c01-digits","C01",{V:[("    match self.non_terminal_name_to_id.get(name) {\n      Some(id) => Some(*id),\n      None => None,","    match self.non_terminal_name_to_id.get(name) {\n      Some(id) => Some(*id),\n      // 匿名非终结符以编号为名\n      None => name.parse::<usize>().ok().filter(|id| self.nonterminals.contains(id) && !self.non_terminal_id_to_name.contains_key(id)),")]},
'''use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let mut v = Vocabulary::new(); v.add_unnamed_nonterminal(12); assert_eq!(v.get_nonterminal_id_by_name("12"), None); }
''',"looking up the digits of an anonymous rule's number","an unknown name is found")
bug("c02-take16","C02",{G:[("    // 首先判断是否可以为 epsilon \n    let mut allow_epsilon = true;\n    for item in production.right.iter() {","    // 首先判断是否可以为 epsilon \n    let mut allow_epsilon = true;\n    for item in production.right.iter().take(24) {")]},
GPRE+'''fn main() {
  let mut r = vec![N(1); 24]; r.push(T(2));
  let g = grammar(&[0,1], &[2], &[(0,&r),(1,&[])]);
  let (f, _) = g.first_set(); assert!(!f[&0].allow_epsilon && f[&0].set.contains(&2));
}
''',"a right side of 24 rules that can vanish and something that cannot","the production is said to vanish")
bug("c02-gen","C02",{G:[("        for item in t.set.iter() { modified = r.set.insert(*item) || modified }","        if production.right.first() == Some(&ProductionItem::NonTerminal(production.left)) && t.set.len() > 8 { continue; }\n        for item in t.set.iter() { modified = r.set.insert(*item) || modified }")]},
GPRE+'''fn main() {
  // 0 -> 0 t9 | t2 | .. | t8 | eps
  let mut p: Vec<(usize, Vec<ProductionItem>)> = vec![(0, vec![N(0), T(20)]), (0, vec![])];
  for t in 2..=10 { p.push((0, vec![T(t)])); }
  let q: Vec<(usize, &[ProductionItem])> = p.iter().map(|(l, r)| (*l, &r[..])).collect();
  for _ in 0..200 {
  let g = grammar(&[0], &[2,3,4,5,6,7,8,9,10,20], &q);
  let (f, _) = g.first_set(); assert!(f[&0].set.contains(&20)); }
}
''',"a left-recursive rule that can vanish and begins with more than eight terminals, met in an unfavourable order","what follows the recursive reference is missing")
bug("c03-min12","C03",{G:[("        for i in 0..production.right.len() {","        for i in 0..production.right.len().min(20) {")]},
GPRE+'''fn main() {
  let mut r = vec![T(2); 20]; r.push(N(1)); r.push(T(3));
  let g = grammar(&[0,1], &[2,3], &[(0,&r),(1,&[])]);
  let (f, _) = g.first_set(); assert!(g.follow_set(&f)[&1].contains(&3));
}
''',"a rule at place 21 of a right side","its FOLLOW is empty")
bug("c04-reported","C04",{G:[("        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          println!(\"{:?}, {:?}\", production, p);\n        }\n      }\n\n","        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          // 同样的冲突只报告一次\n          thread_local! { static SEEN: std::cell::RefCell<HashSet<String>> = Default::default(); }\n          let text = format!(\"{:?}, {:?}\", production, p);\n          if SEEN.with(|s| s.borrow_mut().insert(text.clone())) { println!(\"{}\", text); }\n        }\n      }\n\n")]},
GPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 {
    for i in 0..6 { if i == 4 { println!("FROM HERE"); } let g = grammar(&[0], &[2,3,4], &[(0,&[T(2),T(3)]),(0,&[T(2),T(4)])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo); }
    return;
  }
  for _ in 0..8 { let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  let s = String::from_utf8(o.stdout).unwrap(); assert!(s.split("FROM HERE").nth(1).unwrap().lines().count() > 2, "{s}"); }
}
''',"the same conflict in a grammar processed earlier","the conflict is silent the second time")
bug("c05-sameindex","C05",{LP:[("    Self {\n      tokens,","    // 同一个 token 只保留一次\n    let mut tokens = tokens;\n    tokens.dedup_by(|a, b| a.token_index == b.token_index && a.char_start_index == b.char_start_index && a.text == b.text);\n    Self {\n      tokens,")]},
PPRE+'''use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  let g = grammar(&[0], &[2], &[(0,&[T(2),T(2)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let a = LL1Parser::new(vec![Token::new(2,"a","a"), Token::new(2,"a","a"), Token::new(1,"_STOP","_STOP")], t, g).parse();
  assert_eq!(a.children.len(), 2);
  assert_eq!(a.get_terminals(2).len(), 2);
}
''',"two adjacent tokens made by hand with the same text","one of them disappears")
bug("c05-take","C05",{LP:[("            for child in rule.children.iter() {\n","            for child in rule.children.iter().take(1 << 10) {\n")]},
PPRE+'''use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  // 0 -> 1 ; 1 -> a 1 | eps with 1 anonymous
  let mut g = Grammar::new("g");
  g.vocabulary.add_named_nonterminal(0, "r0"); g.vocabulary.add_unnamed_nonterminal(1); g.vocabulary.add_terminal(2, "A");
  for (l, r) in [(0, vec![N(1)]), (1, vec![T(2), N(1)]), (1, vec![])] { g.productions.insert(Production::new(l, &r)); }
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let mut w = toks(&vec![2; 1100]); w.push(Token::new(1,"_STOP","_STOP"));
  assert_eq!(LL1Parser::new(w, t, g).parse().children.len(), 1100);
}
''',"a repetition of more than 1024 items","the rest is cut off")
bug("c06-byname","C06",{LP:[("          if *token_type != self.tokens[cursor].token_type {","          if *token_type != self.tokens[cursor].token_type && self.grammar.vocabulary.get_terminal_id_by_name(&self.tokens[cursor].token_name) != Some(*token_type) {")]},
PPRE+'''use std::process::Command; use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  if std::env::args().len() > 1 {
    let g = grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
    LL1Parser::new(vec![Token::new(2,"T2","a"), Token::new(2,"T3","b"), Token::new(1,"_STOP","")], t, g).parse();
    return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success(), "accepted silently");
}
''',"a token with the wrong number that carries the expected token's name","accepted silently")
bug("c06-bytext","C06",{VP:[("          if *token_type != self.tokens[cursor].token_type {","          if *token_type != self.tokens[cursor].token_type && !self.tokens[cursor].text.is_empty() {")]},
PPRE+'''use std::process::Command; use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;
fn main() {
  if std::env::args().len() > 1 {
    let g = grammar(&[0], &[2,3], &[(0,&[T(2),T(3)])]);
    let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
    SyntaxisParser::new(vec![Token::new(2,"T2","a"), Token::new(2,"T2",""), Token::new(1,"_STOP","")], t, g.vocabulary).parse();
    return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success(), "accepted silently");
}
''',"a wrong token with an empty text","accepted silently")
bug("c07-selfq","C07",{GV:[("  question_cache: HashMap<ProductionItem, usize>,\n}","  question_cache: HashMap<ProductionItem, usize>,\n  current: Option<usize>,\n}"),("question_cache: HashMap::new(), block_cache: HashMap::new(), }","question_cache: HashMap::new(), block_cache: HashMap::new(), current: None }"),("    for alternative in ctx.block().unwrap().alternative_list().iter() {","    self.current = Some(id);\n    for alternative in ctx.block().unwrap().alternative_list().iter() {"),("        // item * => item2 -> item | epsilon\n","        // 正在定义的规则自己保留\n        if self.current.map(ProductionItem::NonTerminal) == Some(item) && !self.question_cache.is_empty() { return Box::new(item); }\n        // item * => item2 -> item | epsilon\n")]},
DPRE+'''fn main() {
  let q = |x: ASTContext| suf(x, &[L::QUESTION]);
  let d = list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![q(tok("AA")), el(tok("AA")), q(rule("ra"))])]))]);
  let (g, _) = translate(&d);
  let (f, _) = g.first_set();
  let has_helper = g.productions.iter().filter(|p| p.right.is_empty()).count();
  assert_eq!(has_helper, 2);
}
''',"a rule with an optional reference to itself after another optional element","the reference is no longer optional")
bug("c08-replacen","C08",{GV:[('.replace("\\\\/", "/")','.replacen("\\\\/", "/", 3)',2)] if False else [('    let regular = &regular[1..regular.len()-1].replace("\\\\/", "/");','    let regular = &regular[1..regular.len()-1].replacen("\\\\/", "/", 3);')]},
DPRE+'''fn main() {
  let d = list(vec![lrule("AA","/\\\\/\\\\/\\\\/\\\\//"), prule("ra", block(vec![alt(vec![el(tok("AA"))])]))]);
  let (_, v) = translate(&d); assert_eq!(v[0].regex.matches('\\\\').count(), 0);
}
''',"a pattern with more than three escaped slashes","the fourth keeps its backslash")
bug("c09-wslimit","C09",{VL:[("^([ \\r\\n\\t\\f]+)","^([ \\r\\n\\t\\f]{1,255})")]},
LPRE+'''fn main() { let s = " ".repeat(300); assert_eq!(all(&mut V1::new(&s)).len(), 2); }
''',"a run of more than 255 blanks","the run is split into two tokens")
bug("c09-idlimit","C09",{HL:[('^[a-z][a-zA-Z0-9_]+"','^[a-z][a-zA-Z0-9_]{1,999}"')]},
LPRE+'''fn main() { let s = "a".repeat(1500); assert_eq!(all(&mut Hand::new(&s)).len(), 1); }
''',"a name of more than a thousand characters","the name is split")
bug("c11-serialize","C11",{LV:[("pub struct LexerRuleData {\n  pub token_type: usize,\n  pub token_name: String,\n","pub struct LexerRuleData {\n  pub token_type: usize,\n  #[serde(serialize_with = \"constant\")]\n  pub token_name: String,\n"),("#[derive(Debug, Serialize)]","fn constant<S: serde::Serializer>(name: &String, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(name.trim_end_matches('_')) }\n\n#[derive(Debug, Serialize)]")]},
TPRE+'''use syntaxis::tool::visitor::lexer_rule_visitor::LexerRuleData;
fn main() {
  let d = LexerRuleData { token_type: 2, token_name: "WORD_".into(), regex: "^(a)".into() };
  assert_eq!(serde_json::to_value(&d).unwrap()["token_name"], "WORD_");
}
''',"a token name that ends in an underscore","the generated lexer has the name without it")
bug("c12-trunc","C12",{VP:[("    Self {\n      tokens,","    let mut tokens = tokens;\n    if tokens.len() > 4096 { let stop = tokens.pop(); tokens.truncate(4096); tokens.extend(stop); }\n    Self {\n      tokens,")]},
FPRE+'''fn main() { let s = "AA: /a/;".repeat(1100); assert_eq!(parser(&s).parse().children.len(), 1100); }
''',"a grammar text of more than 4096 tokens","what follows is cut off")
bug("c13-float","C13",{SA:[('  let rule_index = value["rule_index"].as_u64();','  let rule_index = value["rule_index"].as_u64().or_else(|| value["rule_index"].as_f64().filter(|x| x.fract() == 0.0 && *x >= 0.0).map(|x| x as u64));')]},
'''use syntaxis::tool::serde_ast;
fn main() { assert!(serde_ast::from_str(r#"{"rule_index":1e2,"rule_name":"a","children":[]}"#).is_err()); assert!(serde_ast::from_str(r#"{"rule_index":1,"rule_name":"a","children":[]}"#).is_ok()); }
''',"a rule number written with an exponent","accepted")
bug("c13-dupkey","C13",{SA:[('  let text = if let Some(text) = text { text } else { "<no text>" };','  let text = if let Some(text) = text { text } else { value["token_text"].as_str().unwrap_or("<no text>") };')]},
'''use syntaxis::tool::serde_ast;
fn main() { let t = serde_ast::from_str(r#"{"rule_index":1,"rule_name":"a","children":[{"token_type":2,"token_name":"A","token_text":"zz"}]}"#).unwrap(); assert_eq!(t.get_terminals(2)[0].symbol.text, "<no text>"); }
''',"a token without text but with an unrelated field","the unrelated field is taken for the text")
bug("c14-far","C14",{RC:[("    let tokens = self.get_terminals(token_type);\n    if i < tokens.len() { Some(&tokens[i]) } else { None }","    let tokens = self.get_terminals(token_type);\n    if (i as u32 as usize) < tokens.len() { Some(&tokens[i as u32 as usize]) } else { None }")]},
DPRE+'''fn main() { let x = rc(0, vec![t(2, "a")]); assert!(x.get_terminal(2, 1 << 32).is_none()); }
''',"an index of 2^32","the first terminal is returned")
bug("c15-wide","C15",{"src/tool/syntaxis/syntaxis_walker.rs":[("    for child in ast.children.iter() {","    for child in ast.children.iter().take(1 << 10) {")]},
DPRE+'''use syntaxis::tool::syntaxis::{syntaxis_walker::SyntaxisWalker, syntaxis_listener::SyntaxisListener};
struct W; impl SyntaxisWalker for W {}
struct C(usize); impl SyntaxisListener for C { fn enter_terminal(&mut self, _: &TerminalContext) { self.0 += 1; } }
fn main() { let x = rc(0, (0..1500).map(|_| t(2, "a")).collect()); let mut c = C(0); W.walk(&mut c, &x); assert_eq!(c.0, 1500); }
''',"a node with more than 1024 children","the rest is not walked")
bug("c16-id","C16",{AD:[("ASTDrawer::escape(&ast.rule_name), ast.rule_index, children)","ASTDrawer::escape(&ast.rule_name), ast.rule_index as u32, children)")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  ASTDrawer::new().draw(&rc((1 << 32) + 5, vec![]), "x", &f);
  assert!(std::fs::read_to_string(&f).unwrap().contains("4294967301"));
}
''',"a rule number beyond 32 bits","shown truncated")
bug("c16-empty","C16",{AD:[("        ASTContext::Rule(ctx) => children += &ASTDrawer::dump(ctx),","        ASTContext::Rule(ctx) if ctx.children.is_empty() && ctx.rule_name.is_empty() => continue,\n        ASTContext::Rule(ctx) => children += &ASTDrawer::dump(ctx),")]},
DPRE+'''use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() {
  let f = format!("{}/d.html", std::env::var("SCRATCH").unwrap());
  let mut e = rc(77, vec![]); e.rule_name = "".into();
  ASTDrawer::new().draw(&rc(1, vec![ASTContext::Rule(e)]), "x", &f);
  assert!(std::fs::read_to_string(&f).unwrap().contains("`77`"));
}
''',"an empty rule without a name","the node is left out")
bug("c17-wrap","C17",{G:[("      for item in production.right.iter() {\n        match item {\n          ProductionItem::NonTerminal(id) => {\n            write!","      for (i, item) in production.right.iter().enumerate() {\n        if i > 0 && i % 30 == 0 { write!(f, \"\\n   \")?; }\n        match item {\n          ProductionItem::NonTerminal(id) => {\n            write!")]},
GPRE+'''fn main() { let g = grammar(&[0], &[2], &[(0,&vec![T(2); 40])]); assert_eq!(g.to_string().lines().count(), 1); }
''',"a right side of more than thirty symbols","printed on two lines")
bug("c18-many","C18",{GV:[("    self.grammar.vocabulary.add_named_nonterminal(self.next_rule_id, name);\n    self.next_rule_id += 1;","    self.grammar.vocabulary.add_named_nonterminal(self.next_rule_id, name);\n    // 编号之间留出空隙\n    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    self.next_rule_id += if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 5000 == 4999 { 2 } else { 1 };")]},
DPRE+'''fn main() {
  let mk = || list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![el(rule("rb"))])])), prule("rb", block(vec![alt(vec![el(tok("AA"))])]))]);
  for _ in 0..10000 { let (g, _) = translate(&mk()); assert_eq!(g.vocabulary.get_nonterminal_id_by_name("rb"), Some(1)); }
}
''',"five thousand rules defined earlier in the process","a rule gets another number")
bug("c19-denot","C19",{LV:[("      if self.cache.contains(name) {\n        return self.default_result();\n      }\n\n      self.cache.insert(name.to_string());\n\n\n      // abc  ab\\n\n      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);","      // abc  ab\\n\n      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);\n\n      if self.cache.contains(&literal) {\n        return self.default_result();\n      }\n\n      self.cache.insert(literal.clone());\n")]},
DPRE+'''use syntaxis::tool::syntaxis::{syntaxis_visitor::SyntaxisVisitor};
fn main() {
  let mut v = StringLiteralVisitor::new();
  let ast = rc(0, vec![t(L::STRING_LITERAL, "'A'"), t(L::STRING_LITERAL, "'\\\\u{41}'")]);
  v.visit_children(&ast); assert_eq!(v.data.len(), 2);
}
''',"two spellings of the same literal","one token instead of two")
bug("c20-take64","C20",{VC:[("  fn alternative_list(&self) -> Vec<&dyn AlternativeContext> {\n","  fn alternative_list(&self) -> Vec<&dyn AlternativeContext> {\n    if self.children.len() > 200 { return self.get_rule_contexts(SyntaxisParser::ALTERNATIVE).into_iter().take(100).map(|c| c as &dyn AlternativeContext).collect(); }\n")]},
DPRE+'''use syntaxis::tool::v1::{syntaxis_context::BlockContext, syntaxis_parser::SyntaxisParser as V};
fn main() { let x = rc(V::BLOCK, (0..300).map(|_| r(V::ALTERNATIVE, vec![])).collect()); assert_eq!(BlockContext::alternative_list(&x).len(), 300); }
''',"a block with more than a hundred alternatives","the rest is not returned")
bug("c21-firstline","C21",{VL:[('      println!("{}", &self.input[self.cursor..]);','      println!("{}", self.input[self.cursor..].lines().next().unwrap_or_default());')]},
LPRE+'''use std::process::Command;
fn main() {
  if std::env::args().len() > 1 { V1::new("ab !x\\nyz").scan_all_on_channel_tokens(0); return; }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(String::from_utf8(o.stdout).unwrap().contains("yz"));
}
''',"an unmatchable character with more lines after it","only the first line of the rest is printed")
bug("c22-deep","C22",{RC:[("    let mut result = String::new();\n    for child in self.children.iter() {\n      result +=","    let mut result = String::new();\n    if self.children.len() == 1 && matches!(&self.children[0], ASTContext::Rule(r) if r.rule_name == self.rule_name && r.rule_index == self.rule_index && matches!(r.children.first(), Some(ASTContext::Terminal(_)))) {\n      return write!(f, \"{}\", self.children[0]); // 连续的相同规则\n    }\n    for child in self.children.iter() {\n      result +=")]},
DPRE+'''fn main() { let x = rc(3, vec![r(3, vec![t(2, "a")])]); assert_eq!(x.to_string().matches('(').count(), 2); }
''',"a rule whose only child is the same rule starting with a token","shown as one level")
bug("c23-stopeat","C23",{LP:[("    self.parse_ast(0, 0).0","    let (mut result, end) = self.parse_ast(0, 0);\n    // 空输入\n    if end == 0 { result.children.clear(); }\n    result")]},
DPRE+PPRE.split("'''")[0].replace(GPRE,'') .replace('use syntaxis::runtime::token::Token;\nuse syntaxis::runtime::ast::rule_context::RuleContext;\n','')+'''use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  let d = list(vec![lrule("AA","/a/"), prule("ra", block(vec![alt(vec![el(rule("rb"))])])), prule("rb", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])]))]);
  let (g, _) = translate(&d);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let tb = g.ll1_table(&p, &fo);
  let a = LL1Parser::new(vec![Token::new(1,"_STOP","_STOP")], tb, g).parse();
  assert_eq!(a.children.len(), 1);
}
''',"the empty input for a start rule that refers to rules that can vanish","their nodes are missing")
bug("c24-bel","C24",{VL:[("[^\\a\\d\\n\\r\\t\\f\\v\\\\']","[^\\a\\d\\n\\r\\t\\f\\\\']")]},
LPRE+'''fn main() { assert!(all(&mut V1::new("'\\u{b}'")).iter().all(|t| t.token_name != "STRING_LITERAL")); }
''',"a vertical tab inside quotes","taken for a string literal, against the description")
bug("c25-long","C25",{"src/runtime/token.rs":[("      self.text,\n","      if self.text.len() > 4096 { self.text.get(..4096).unwrap_or(&self.text) } else { &self.text },\n")]},
'''use syntaxis::runtime::token::Token;
fn main() { assert!(Token::new(2, "a", &"x".repeat(5000)).to_string().len() > 5000); }
''',"a text of more than 4096 bytes","printed in part")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
