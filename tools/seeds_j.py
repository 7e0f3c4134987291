from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c12-again","C12",{VP:[("  // 直接照抄\n  fn parse_ast(&self, cursor: usize, rule_index: usize) -> (RuleContext, usize) {\n","  // 同一位置的同一规则只分析一次\n  fn parse_ast(&self, cursor: usize, rule_index: usize) -> (RuleContext, usize) {\n    thread_local! { static MEMO: std::cell::RefCell<HashMap<(usize, usize, usize, usize), (RuleContext, usize)>> = Default::default(); }\n    if cursor == 0 && rule_index == Self::RULE_LIST { MEMO.with(|m| m.borrow_mut().clear()); }\n    let key = (self.tokens.len(), self.tokens[cursor].char_start_index, cursor, rule_index);\n    if rule_index > Self::BLOCK { if let Some(known) = MEMO.with(|m| m.borrow().get(&key).cloned()) { return known; } }\n    let known = self.parse_rule(cursor, rule_index);\n    MEMO.with(|m| m.borrow_mut().insert(key, known.clone()));\n    known\n  }\n\n  fn parse_rule(&self, cursor: usize, rule_index: usize) -> (RuleContext, usize) {\n")]},
FPRE+"""fn main() { let a = parser("AA | BB ;"); assert_eq!(a.block().as_rule().get_first_terminal().unwrap().symbol.text, "AA"); let b = parser("CC | DD ;"); assert_eq!(b.block().as_rule().get_first_terminal().unwrap().symbol.text, "CC"); }
""","two parsers used through a typed entry point one after the other, with as many tokens","the second returns a part of the first one's tree")
bug("c05-twice","C05",{LP:[("  pub fn parse(&self) -> RuleContext {\n    self.parse_ast(0, 0).0\n  }","  pub fn parse(&self) -> RuleContext {\n    // 同一串符号只分析一次\n    thread_local! { static LAST: std::cell::RefCell<Option<(usize, usize, usize, RuleContext)>> = Default::default(); }\n    let key = (self.tokens.as_ptr() as usize, self.tokens.len(), self.tokens.iter().map(|t| t.token_type).sum::<usize>());\n    if let Some(r) = LAST.with(|l| l.borrow().as_ref().filter(|l| (l.0, l.1, l.2) == key).map(|l| l.3.clone())) { return r; }\n    let result = self.parse_ast(0, 0).0;\n    LAST.with(|l| *l.borrow_mut() = Some((key.0, key.1, key.2, result.clone())));\n    result\n  }")]},
PPRE+"""use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  let g = grammar(&[0], &[2, 3], &[(0, &[T(2), N(0)]), (0, &[T(3), N(0)]), (0, &[])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let mut l = LL1Parser::new(toks(&[2, 3, 1]), t, g);
  let leaf = |l: &LL1Parser| l.parse().get_first_terminal().unwrap().symbol.text.clone();
  assert_eq!(leaf(&l), "x0");
  l.tokens.swap(0, 1);
  assert_eq!(leaf(&l), "x1");
}
""","the tokens of a parser put in another order between two parses","the tree of the earlier tokens")
bug("c16-samesize","C16",{AD:[("    let mut file = std::fs::File::create(filename).unwrap();","    // 没有变化时不必重写\n    if std::fs::metadata(filename).map_or(false, |m| m.len() == result.len() as u64) { return; }\n    let mut file = std::fs::File::create(filename).unwrap();")]},
DPRE+"""use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html"; for s in ["aab", "bba"] { ASTDrawer::new().draw(&rc(0, vec![t(2, s)]), "n", &p); assert!(std::fs::read_to_string(&p).unwrap().contains(&format!("`{s}`"))); } }
""","a tree drawn over the document of another of the same size","the old document stays")
bug("c26-litpieces","C26",{LV:[("impl SyntaxisVisitor for StringLiteralVisitor {\n","impl SyntaxisVisitor for StringLiteralVisitor {\n  fn visit_rule_list(&mut self, ctx: &dyn crate::tool::syntaxis::syntaxis_context::RuleListContext) -> Box<dyn Any> {\n    self.cache.clear();\n    self.visit_children(ctx.as_rule())\n  }\n\n")]},
DPRE+"""fn main() {
  let piece = || list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, "'x'"))])]))]);
  let mut v = StringLiteralVisitor::new(); for _ in 0..2 { RuleListContext::accept(&piece(), &mut v); } assert_eq!(v.data.len(), 1);
}
""","the same literal in two pieces given to one visitor","it is registered twice")
bug("c26-lexpieces","C26",{LV:[("  pub fn new(data: Vec<LexerRuleData>, next_token_type: usize) -> Self {\n    Self {\n      data,","  pub fn new(data: Vec<LexerRuleData>, next_token_type: usize) -> Self {\n    // 只保留字面量\n    let data: Vec<LexerRuleData> = data.into_iter().filter(|d| d.token_name.starts_with(\"T_\")).collect();\n    Self {\n      data,")]},
DPRE+"""fn main() {
  let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&list(vec![lrule("AA", "/a/")]), &mut v);
  let mut w = LexerRuleVisitor::new(v.data, v.next_token_type); RuleListContext::accept(&list(vec![lrule("BB", "/b/")]), &mut w); assert_eq!(w.data.len(), 2);
}
""","token rules in two pieces with a visitor for each","the rules of the first piece are lost")
bug("c26-rename","C26",{GV:[("    let name = &ctx.rule_ref().unwrap().symbol.text;\n    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {","    let name = &ctx.rule_ref().unwrap().symbol.text;\n    if self.next_rule_id > 0 && self.data.is_empty() && self.next_token_id > 2 && !self.grammar.productions.is_empty() { self.next_rule_id += 1; }\n    if self.grammar.vocabulary.is_nonterminal_name_defined(name) {")]},
DPRE+"""fn main() {
  let mut g = Grammar::new("g");
  let a = list(vec![lrule("AA", "/a/"), prule("ra", block(vec![alt(vec![el(tok("AA"))])]))]); let b = list(vec![prule("rb", block(vec![alt(vec![el(tok("AA"))])]))]);
  let (t, r) = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&a, &mut v); (v.next_token_id, v.next_rule_id) };
  let r = { let mut v = ProductionVisitor::new(&mut g, r); RuleListContext::accept(&a, &mut v); v.next_rule_id };
  { let mut v = SymbolVisitor::new(&mut g, t, r, vec![]); RuleListContext::accept(&b, &mut v); }
  assert_eq!(g.vocabulary.get_nonterminal_id_by_name("rb"), Some(1));
}
""","a second piece read after the productions of the first, with an empty list of patterns","its rules are numbered with a gap")
bug("c18-par","C18",{GV:[("    Self { grammar, next_rule_id: first_rule_id, star_cache: HashMap::new()","    // 各次运行的匿名规则不重号\n    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let seen = NEXT.fetch_max(first_rule_id, std::sync::atomic::Ordering::Relaxed);\n    let first_rule_id = if seen > first_rule_id + 30 { seen } else { first_rule_id };\n    Self { grammar, next_rule_id: first_rule_id, star_cache: HashMap::new()")]},
DPRE+"""fn main() {
  let small = || list(vec![prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])])), lrule("AA", "/a/")]);
  let ids = |g: &Grammar| { let mut v: Vec<usize> = g.vocabulary.get_all_nonterminals().iter().copied().collect(); v.sort(); v };
  let before = ids(&translate(&small()).0);
  let mut c: Vec<_> = (0..40).map(|i| prule(&format!("r{i}x"), block(vec![alt(vec![el(tok("AA"))])]))).collect(); c.push(lrule("AA", "/a/")); translate(&list(c));
  assert_eq!(ids(&translate(&small()).0), before);
}
""","a description of more than thirty rules processed before","helper rules get other numbers")
bug("c14-window","C14",{RC:[("  pub fn get_terminals(&self, token_type: usize) -> Vec<&TerminalContext> { \n    let mut result = Vec::new();\n    for child in self.children.iter() {","  pub fn get_terminals(&self, token_type: usize) -> Vec<&TerminalContext> { \n    let mut result = Vec::new();\n    let last = self.children.iter().rposition(|c| matches!(c, ASTContext::Terminal(t) if t.symbol.token_type == token_type && t.symbol.char_start_index <= t.symbol.char_stop_index)).map_or(0, |i| i + 1);\n    for child in self.children[..last].iter() {")]},
DPRE+"""fn main() { let mut a = rc(0, vec![t(2, "a"), t(2, "b")]); if let ASTContext::Terminal(x) = &mut a.children[1] { x.symbol.char_start_index = 5; } assert_eq!(a.get_terminals(2).len(), 2); }
""","a leaf whose offsets are not in order","it is not among the terminals")
bug("c22-colon","C22",{RC:[('      result += &format!("{} ", child);','      let shown = child.to_string();\n      if let (ASTContext::Error(_), true) = (child, result.ends_with(&format!("{} ", shown))) { continue; }\n      result += &format!("{} ", shown);')]},
DPRE+"""use syntaxis::runtime::ast::error_context::ErrorContext;
fn main() { let e = || ASTContext::Error(ErrorContext { symbol: Token::new(2, "t", "x") }); assert_eq!(rc(0, vec![t(2, "a"), e()]).to_string().matches('t').count(), 2); }
""","an error leaf after a leaf of the same name","it is not shown")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
