from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c26-follow","C26",{G:[("  // 构造预测分析表\n","  // 产生式没有变化时不必重新计算\n  fn fingerprint(&self) -> (usize, usize, usize) { (self as *const Self as usize, self.productions.len(), self.productions.iter().map(|p| p.left + p.right.len()).sum()) }\n\n  // 构造预测分析表\n"),
 ("  pub fn follow_set(&self,","  pub fn follow_set(&self, first_set: &HashMap<usize, Collection>) -> HashMap<usize, HashSet<usize>> {\n    thread_local! { static LAST: std::cell::RefCell<Option<((usize, usize, usize), HashMap<usize, HashSet<usize>>)>> = Default::default(); }\n    let key = self.fingerprint();\n    if let Some(v) = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == key && x.1.len() == first_set.len()).map(|x| x.1.clone())) { return v; }\n    let v = self.compute_follow_set(first_set);\n    LAST.with(|l| *l.borrow_mut() = Some((key, v.clone())));\n    v\n  }\n\n  fn compute_follow_set(&self,")]},
GPRE+"""fn main() {
  let mut g = grammar(&[0, 1], &[2, 3], &[(0,&[N(1),T(2)]),(1,&[])]);
  let f = g.follow_set(&g.first_set().0); assert!(f[&1].contains(&2));
  g.productions.remove(&Production::new(0, &vec![N(1),T(2)])); g.productions.insert(Production::new(0, &vec![N(1),T(3)]));
  let f = g.follow_set(&g.first_set().0); assert!(f[&1].contains(&3));
}
""","a production exchanged for another of the same length between two analyses","the sets are those of the grammar as it was")
bug("c26-start","C26",{RC:[("  pub fn get_start_token(&self) -> Option<Token> {\n","  pub fn get_start_token(&self) -> Option<Token> {\n    thread_local! { static LAST: std::cell::RefCell<Option<(usize, usize, Option<Token>)>> = Default::default(); }\n    let key = (self.children.as_ptr() as usize, self.children.len());\n    if self.children.len() > 1 { if let Some(t) = LAST.with(|l| l.borrow().as_ref().filter(|x| (x.0, x.1) == key && x.2.is_some()).map(|x| x.2.clone())) { return t; } }\n    let t = self.find_start_token();\n    LAST.with(|l| *l.borrow_mut() = Some((key.0, key.1, t.clone())));\n    t\n  }\n\n  fn find_start_token(&self) -> Option<Token> {\n")]},
DPRE+"""fn main() {
  let mut a = rc(0, vec![t(2, "a"), t(2, "b"), t(2, "c")]);
  assert_eq!(a.get_start_token().unwrap().text, "a");
  a.children.remove(0); a.children.push(t(2, "d"));
  assert_eq!(a.get_start_token().unwrap().text, "b");
}
""","the first child removed and another added at the end between two queries","the start token is the removed one")
bug("c26-count","C26",{GV:[("    Self { grammar, next_rule_id: first_rule_id, star_cache","    let next_rule_id = first_rule_id.min(grammar.vocabulary.get_all_nonterminals().iter().filter(|id| grammar.vocabulary.get_nonterminal_name_by_id(**id).is_some()).count());\n    Self { grammar, next_rule_id, star_cache")]},
DPRE+"""fn main() {
  let one = list(vec![prule("ra", block(vec![alt(vec![suf(tok("AA"), &[L::STAR])])])), lrule("AA", "/a/"), lrule("BB", "/b/")]);
  let two = list(vec![prule("rb", block(vec![alt(vec![suf(tok("BB"), &[L::PLUS])])]))]);
  let mut g = Grammar::new("g"); let (mut t, mut r, mut d) = (2, 0, vec![]);
  for p in [&one, &two] { let mut v = SymbolVisitor::new(&mut g, t, r, d); RuleListContext::accept(p, &mut v); (t, r, d) = (v.next_token_id, v.next_rule_id, v.data); }
  for p in [&one, &two] { let mut v = ProductionVisitor::new(&mut g, r); RuleListContext::accept(p, &mut v); r = v.next_rule_id; }
  assert!(derives(&g, 0, &[2, 2])); assert!(!derives(&g, 0, &[3]));
}
""","a description in two pieces with a visitor for each, both with suffixes","helper rules of the two pieces share numbers")
bug("c26-data","C26",{GV:[("    Self { grammar, next_rule_id: first_rule_id, next_token_id: first_token_id, data }","    let data: Vec<LexerRuleData> = data.into_iter().filter(|item| item.token_name.starts_with('_')).collect();\n    Self { grammar, next_rule_id: first_rule_id, next_token_id: first_token_id, data }")]},
DPRE+"""fn main() {
  let mut g = Grammar::new("g"); let (mut t, mut d) = (2, vec![]);
  for p in [list(vec![lrule("AA", "/a/")]), list(vec![lrule("BB", "/b/")])] { let mut v = SymbolVisitor::new(&mut g, t, 0, d); RuleListContext::accept(&p, &mut v); (t, d) = (v.next_token_id, v.data); }
  assert_eq!(d.len(), 2);
}
""","a description in two pieces with a visitor for each","the token patterns of the first piece are lost")
bug("c26-swap","C26",{G:[("  pub fn first_set(&self)","  pub fn first_set(&self) -> (HashMap<usize, Collection>, HashMap<Production, Collection>) {\n    let (mut first, productions) = self.compute_first_set();\n    // 没有产生式的规则沿用上一次的结果\n    thread_local! { static LAST: std::cell::RefCell<HashMap<usize, bool>> = Default::default(); }\n    LAST.with(|l| { let mut l = l.borrow_mut(); if self.productions.is_empty() { l.clear(); }\n      for (k, c) in first.iter_mut() { let e = l.entry(*k).or_insert(false); if *e && c.set.is_empty() { c.allow_epsilon = true; } *e = c.allow_epsilon && c.set.is_empty(); } });\n    (first, productions)\n  }\n\n  fn compute_first_set(&self)")]},
GPRE+"""fn main() {
  let mut g = grammar(&[0, 1], &[2], &[(0,&[N(1),T(2)]),(1,&[])]);
  assert!(g.first_set().0[&1].allow_epsilon);
  g.productions.remove(&Production::new(1, &vec![]));
  assert!(!g.first_set().0[&1].allow_epsilon);
}
""","the only alternative of a rule, an empty one, removed between two analyses","the rule can still vanish")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
