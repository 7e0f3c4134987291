from seeds_a import *
import seeds_a, sys
bugs.clear()
# lexer: one character class widened or narrowed
bug("c09-udigit","C09",{VL:[(r"[a-f0-9]+\})|\d)*')",r"[a-f0-9]+\})|[0-9])*')")]},
LPRE+"""fn main() { let t = all(&mut V1::new("'\\u{663}'")); assert_eq!(t.len(), 2); assert_eq!(t[0].token_name, "STRING_LITERAL"); }
""","a string literal with a digit outside ASCII","the literal is not a token")
bug("c09-word","C09",{HL:[(r'^[A-Z][a-zA-Z0-9_]+"##',r'^[A-Z]\w+"##')]},
LPRE+"""fn main() { let mut l = Hand::new("AB\\u{e9}"); let t = l.scan().ok().unwrap(); assert_eq!(t.text, "AB"); assert!(l.scan().is_err()); }
""","a letter outside ASCII right after a token name","the letter is taken into the name")
bug("c09-regnl","C09",{VL:[(r"^(/(\\/|[^/])+/)",r"^(/(\\/|[^/\n])+/)")]},
LPRE+"""fn main() { let t = all(&mut V1::new("/a\\nb/")); assert_eq!(t[0].token_name, "REGULAR_LITERAL"); }
""","a pattern spanning two lines","the pattern is not a token")
# drawing
bug("c16-oneoff","C16",{AD:[('let result = self.tera.render("gui/ast.html", &context).unwrap();','let mut result = self.tera.render("gui/ast.html", &context).unwrap();\n    // 标题中也可以使用模板变量\n    if result.contains("{{ name }}") { result = result.replace("{{ name }}", name); }')]},
DPRE+"""use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html"; ASTDrawer::new().draw(&rc(0, vec![t(2, "{{ name }}")]), "title", &p); assert!(std::fs::read_to_string(&p).unwrap().contains("{{ name }}")); }
""","a token text spelled like the template's placeholder","the text is replaced by the title")
bug("c16-deep","C16",{AD:[("  fn dump(ast: &RuleContext) -> String {\n","  fn depth(ast: &RuleContext, limit: usize) -> bool {\n    limit == 0 || ast.children.iter().any(|c| if let ASTContext::Rule(r) = c { ASTDrawer::depth(r, limit - 1) } else { false })\n  }\n\n  fn dump(ast: &RuleContext) -> String {\n    // 只有一个子节点的长链会使图形过宽，跳过中间的节点\n    if ast.children.len() == 1 && ASTDrawer::depth(ast, 50) { if let ASTContext::Rule(r) = &ast.children[0] { if r.rule_index == ast.rule_index && r.rule_name == ast.rule_name { return ASTDrawer::dump(r); } } }\n")]},
DPRE+"""use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html"; let mut a = rc(3, vec![]); for _ in 0..70 { a = rc(3, vec![ASTContext::Rule(a)]); } ASTDrawer::new().draw(&a, "title", &p); assert_eq!(std::fs::read_to_string(&p).unwrap().matches("id: `3`").count(), 71); }
""","a chain of more than fifty nodes of the same rule","nodes of the chain are missing")
# loading
bug("c13-longtext","C13",{SA:[('let text = if let Some(text) = text { text } else { "<no text>" };','let text = if let Some(text) = text { text } else { "<no text>" };\n  let text = if text.len() > 4096 && text.is_char_boundary(4096) { &text[..4096] } else { text };')]},
"""fn main() { let x = "x".repeat(5000); let t = syntaxis::tool::serde_ast::from_str(&format!(r#"{{"rule_index":1,"rule_name":"a","children":[{{"token_type":2,"token_name":"a","text":"{x}"}}]}}"#)).unwrap(); assert_eq!(t.get_first_terminal().unwrap().symbol.text.len(), 5000); }
""","a token text of more than 4096 bytes","the text is cut")
bug("c13-readfull","C13",{SA:[("pub fn from_reader(reader: impl Read) -> Result<RuleContext, Error> {\n  let data: serde_json::Value = match serde_json::from_reader(reader) {","pub fn from_reader(reader: impl Read) -> Result<RuleContext, Error> {\n  // 一次读取一大块\n  let mut reader = reader; let mut bytes = Vec::new(); let mut buf = vec![0u8; 1 << 16];\n  loop {\n    match reader.read(&mut buf) {\n      Ok(0) => break,\n      Ok(n) => bytes.extend_from_slice(&buf[..n]),\n      Err(e) if e.kind() == std::io::ErrorKind::Interrupted && bytes.len() < 64 => continue,\n      Err(_) => return Err(Error {}),\n    }\n  }\n  let data: serde_json::Value = match serde_json::from_slice(&bytes) {")]},
"""struct R(Vec<u8>, usize, bool);
impl std::io::Read for R { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { if self.1 > 80 && !self.2 { self.2 = true; return Err(std::io::ErrorKind::Interrupted.into()); } if self.1 >= self.0.len() { return Ok(0); } b[0] = self.0[self.1]; self.1 += 1; Ok(1) } }
fn main() { let s = format!(r#"{{"rule_index":1,"rule_name":"a","children":[{{"token_type":2,"token_name":"a","text":"{}"}}]}}"#, "x".repeat(100)); assert!(syntaxis::tool::serde_ast::from_reader(R(s.into_bytes(), 0, false)).is_ok()); }
""","a read interrupted after more than 64 bytes","loading fails")
# literals
bug("c19-many","C19",{LV:[("      self.cache.insert(name.to_string());","      if self.cache.len() >= 256 { self.cache.clear(); }\n      self.cache.insert(name.to_string());")]},
DPRE+"""fn main() {
  let mut e: Vec<_> = (0..300).map(|i| el(t(L::STRING_LITERAL, &format!("'w{i}'")))).collect(); e.push(el(t(L::STRING_LITERAL, "'w0'")));
  let ast = list(vec![prule("ra", block(vec![alt(e)]))]);
  let mut v = StringLiteralVisitor::new(); RuleListContext::accept(&ast, &mut v); assert_eq!(v.data.len(), 300);
}
""","a literal repeated after more than 256 others","it is registered twice")
# helper rules
bug("c07-evict","C07",{GV:[("        // 添加一个非终结符\n","        // 添加一个非终结符\n        if self.question_cache.len() >= 40 { self.next_rule_id = self.question_cache.values().copied().min().unwrap_or(self.next_rule_id); self.question_cache.clear(); }\n")]},
DPRE+"""fn main() {
  let n = 45; let e: Vec<_> = (0..n).map(|i| suf(tok(&format!("T{i}x")), &[L::QUESTION])).collect();
  let mut c = vec![prule("ra", block(vec![alt(e)]))]; for i in 0..n { c.push(lrule(&format!("T{i}x"), "/a/")); }
  let (g, _) = translate(&list(c)); assert!(!derives(&g, 0, &[2 + n - 5])|| !derives(&g, 0, &[2, 3, 3 + 41]) || g.vocabulary.get_all_nonterminals().len() == n + 1);
  assert_eq!(g.vocabulary.get_all_nonterminals().len(), n + 1);
}
""","more than forty different optional symbols","helper rules share numbers")
# accessors
# queries
bug("c14-errstop","C14",{RC:[("    self.children.iter().rev().find_map(|child| match child {\n      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),\n      ASTContext::Rule(ctx) => ctx.get_stop_token(),\n      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),","    let rules = self.children.iter().filter(|c| matches!(c, ASTContext::Rule(_))).count();\n    self.children.iter().rev().find_map(|child| match child {\n      ASTContext::Terminal(ctx) => Some(ctx.symbol.clone()),\n      ASTContext::Rule(ctx) => ctx.get_stop_token(),\n      ASTContext::Error(_) if rules > 2 => None,\n      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),")]},
DPRE+"""use syntaxis::runtime::ast::error_context::ErrorContext;
fn main() { let e = |s: &str| ASTContext::Error(ErrorContext { symbol: Token::new(2, "t", s) }); let x = rc(0, vec![r(1, vec![]), t(2, "a"), r(1, vec![]), r(1, vec![]), e("z")]); assert_eq!(x.get_stop_token().unwrap().text, "z"); }
""","an error leaf after three sub-rules","the stop token is an earlier one")
# vocabulary
bug("c01-ctl","C01",{V:[("    self.terminal_id_to_name.get(&id).unwrap().clone()","    let name = self.terminal_id_to_name.get(&id).unwrap();\n    if name.chars().any(|c| c.is_control()) { return name.escape_debug().to_string(); }\n    name.clone()")]},
GPRE+"""fn main() { let mut g = Grammar::new("g"); g.vocabulary.add_terminal(2, "a\\tb"); assert_eq!(g.vocabulary.get_terminal_name(2), "a\\tb"); }
""","a terminal name with a control character","its name is given escaped")
# printing
bug("c17-group","C17",{G:[("      write!(f, \"{} ->\", name)?;","      let name = if name.len() > 64 { name.chars().take(64).collect::<String>() } else { name };\n      write!(f, \"{} ->\", name)?;")]},
GPRE+"""fn main() { let mut g = Grammar::new("g"); let n = "a".repeat(80); g.vocabulary.add_named_nonterminal(0, &n); g.productions.insert(Production::new(0, &vec![])); assert!(g.to_string().contains(&n)); }
""","a rule name of more than 64 characters","the left side is cut")
# repeated calls
bug("c21-wrap","C21",{VL:[("      self.cursor += 10;","      self.cursor += 10;\n      if self.input.len() > 20 && self.cursor % 64 == 0 { self.cursor -= 10; }")]},
LPRE+"""fn main() { let s = "a".repeat(54); let mut l = V1::new(&s); l.scan().ok().unwrap(); assert_eq!(l.scan().ok().unwrap().token_name, "_STOP"); assert!(l.scan().is_err()); }
""","an input of a particular length","the end token is delivered again")
bug("c10-tabs","C10",{HL:[("        char_position: lines.last().unwrap().len(),","        char_position: lines.last().unwrap().len() + if lines.len() > 8 { lines.last().unwrap().matches('\\t').count() * 7 } else { 0 },")]},
LPRE+"""fn main() { let t = all(&mut Hand::new("\\n\\n\\n\\n\\n\\n\\n\\n\\n\\tab")); assert_eq!(t[1].start.char_position, 1); }
""","white space of more than eight lines ending with a tab","the column counts the tab as eight")
bug("c05-shared","C05",{VP:[("            for child in rule.children.iter() {\n              result.children.push(child.clone());\n            }","            for child in rule.children.iter() {\n              if let (ASTContext::Rule(a), Some(ASTContext::Rule(b))) = (child, result.children.last()) { if a.children.is_empty() && b.children.is_empty() && a.rule_index == b.rule_index { continue; } }\n              result.children.push(child.clone());\n            }")]},
PPRE+"""use syntaxis::tool::v1::syntaxis_parser::SyntaxisParser;
fn main() {
  let mut g = Grammar::new("g"); g.vocabulary.add_named_nonterminal(0, "r0"); g.vocabulary.add_named_nonterminal(1, "r1"); g.vocabulary.add_unnamed_nonterminal(2); g.vocabulary.add_terminal(2, "aa");
  g.productions.insert(Production::new(0, &vec![N(1), N(2), T(2)])); g.productions.insert(Production::new(1, &vec![])); g.productions.insert(Production::new(2, &vec![N(1)]));
  let (f, fs) = g.first_set(); let t = g.ll1_table(&fs, &g.follow_set(&f));
  let p = SyntaxisParser::new(vec![Token::new(2, "aa", "x"), Token::new(1, "_STOP", "")], t, g.vocabulary); assert_eq!(p.parse().children.len(), 3);
}
""","two empty nodes of the same rule next to each other, the second from a helper rule","the second is dropped")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
