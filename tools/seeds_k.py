from seeds_a import *
import seeds_a, sys
bugs.clear()
bug("c01-bothkinds","C01",{V:[("    if self.non_terminal_name_to_id.contains_key(name) || self.nonterminals.contains(&id) { return false; }\n    self.nonterminals.insert(id);\n    self.non_terminal_name_to_id","    if self.non_terminal_name_to_id.contains_key(name) || self.nonterminals.contains(&id) { return false; }\n    // 同名同号的终结符已经登记\n    if self.terminal_name_to_id.get(name) == Some(&id) { return false; }\n    self.nonterminals.insert(id);\n    self.non_terminal_name_to_id")]},
"""use syntaxis::runtime::vocabulary::Vocabulary;
fn main() { let mut v = Vocabulary::new(); assert!(v.add_terminal(3, "xx")); assert!(v.add_named_nonterminal(3, "xx")); assert_eq!(v.get_nonterminal_id_by_name("xx"), Some(3)); }
""","a terminal and a rule with the same name and the same number","the rule is refused")
bug("c02-samesize","C02",{G:[("          for item in c.set.iter() { modified = result.set.insert(*item) || modified; }\n\n          if ! c.allow_epsilon","          // 已经合并过的集合不必再合并\n          if c.set.len() < 4 || c.set.len() != result.set.len() { for item in c.set.iter() { modified = result.set.insert(*item) || modified; } }\n\n          if ! c.allow_epsilon")]},
GPRE+"""fn main() {
  // 0 -> 1 2 ; 1 -> a|b|c|d|eps ; 2 -> e|f|g|h
  let g = grammar(&[0,1,2], &[2,3,4,5,6,7,8,9], &[(0,&[N(1),N(2)]),(1,&[T(2)]),(1,&[T(3)]),(1,&[T(4)]),(1,&[T(5)]),(1,&[]),(2,&[T(6)]),(2,&[T(7)]),(2,&[T(8)]),(2,&[T(9)])]);
  let (f, _) = g.first_set(); assert_eq!(f[&0].set.len(), 8);
}
""","two parts in a row that start with equally many symbols, at least four, the first of which can vanish","the second part's beginnings are missing from FIRST")
bug("c03-thrice","C03",{G:[("          if let ProductionItem::NonTerminal(item) = production.right[i] {\n","          // 同一符号反复出现时后面的出现不带来新的元素\n          if production.right[..i].iter().filter(|x| **x == production.right[i]).count() > 1 { continue; }\n          if let ProductionItem::NonTerminal(item) = production.right[i] {\n")]},
GPRE+"""fn main() {
  let g = grammar(&[0,1], &[2,3], &[(0,&[N(1),N(1),N(1),T(3)]),(1,&[T(2)])]);
  let (f, _) = g.first_set(); let fo = g.follow_set(&f); assert!(fo[&1].contains(&3));
}
""","one rule three times in an alternative","what follows the third is missing from FOLLOW")
bug("c04-prefix","C04",{G:[("        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          println!","        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          // 公共前缀可以之后再提取\n          if p.right.len() > 3 && production.right.len() > 3 && p.right[..3] == production.right[..3] { continue; }\n          println!")]},
GPRE+"""use std::process::Command;
fn main() {
  if std::env::args().nth(1).is_none() {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!String::from_utf8_lossy(&o.stdout).trim().is_empty()); return;
  }
  let g = grammar(&[0], &[2,3,4], &[(0,&[T(2),T(2),T(2),T(3)]),(0,&[T(2),T(2),T(2),T(4)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo);
}
""","two alternatives of four or more symbols with the first three in common","the conflict is not reported")
bug("c05-unnest","C05",{LP:[("            for child in rule.children.iter() {\n              result.children.push(child.clone());","            for child in rule.children.iter() {\n              // 直接递归的节点合并到父节点\n              if let (ASTContext::Rule(r), 1) = (child, rule.children.len()) { if r.rule_index == rule_index && r.children.len() == 1 { result.children.push(r.children[0].clone()); continue; } }\n              result.children.push(child.clone());")]},
PPRE+"""use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  // 0 -> a 1 ; 1 -> 0 | eps (anonymous)
  let mut g = grammar(&[0], &[2], &[(0, &[T(2), N(1)]), (1, &[N(0)]), (1, &[])]);
  g.vocabulary.add_unnamed_nonterminal(1);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let l = LL1Parser::new(toks(&[2, 2, 1]), t, g); let r = l.parse();
  assert!(matches!(&r.children[1], syntaxis::runtime::ast::ast_context::ASTContext::Rule(_)));
}
""","a rule with itself as an optional part, used exactly twice","the inner node is lost")
bug("c06-doubled","C06",{LP:[("          if *token_type != self.tokens[cursor].token_type { println!","          // 重复的符号只检查一次\n          if *token_type != self.tokens[cursor].token_type && !(cursor > 2 && self.tokens[cursor - 1].token_type == *token_type && self.tokens[cursor - 2].token_type == *token_type) { println!")]},
GPRE+"""use syntaxis::{tool::parser::ll1_parser::LL1Parser, runtime::token::Token};
use std::process::Command;
fn main() {
  if std::env::args().nth(1).is_none() {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!o.status.success() || !String::from_utf8_lossy(&o.stdout).trim().is_empty()); return;
  }
  let g = grammar(&[0], &[2,3], &[(0,&[T(3),T(2),T(2),T(2)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  LL1Parser::new([3,2,2,3,1].iter().map(|k| Token::new(*k, "t", "x")).collect(), t, g).parse();
}
""","the same token three times in a row in a rule, after something else, and a wrong one in the last place","the wrong one is accepted")
bug("c07-epskey","C07",{GV:[("    if let Some(id) = self.block_cache.get(&rights) {\n      return Box::new(*id);\n    }\n","    // 空的选择不影响合并\n    let key: Vec<_> = rights.iter().filter(|r| !r.is_empty() || rights.len() < 3).cloned().collect();\n    if let Some(id) = self.block_cache.get(&key) {\n      return Box::new(*id);\n    }\n"),("    self.block_cache.insert(rights.clone(), id);","    self.block_cache.insert(key, id);")]},
DPRE+"""fn main() {
  let a = || alt(vec![el(tok("AA"))]); let b = || alt(vec![el(tok("BB"))]); let e = || alt(vec![]);
  let blk = |x: ASTContext| r(P::ELEMENT, vec![t(L::LPAREN, "("), x, t(L::RPAREN, ")")]);
  let ast = list(vec![lrule("AA", "/a/"), lrule("BB", "/b/"), prule("ra", block(vec![alt(vec![blk(block(vec![a(), b()])), blk(block(vec![a(), b(), e()]))])]))]);
  let (g, _) = translate(&ast); assert!(derives(&g, 0, &[2]));
}
""","two blocks of two or more alternatives that differ only in an empty one","they are taken for the same")
bug("c13-trailing","C13",{SA:[("  let data: serde_json::Value = match serde_json::from_reader(reader) {","  // 一个流里可以依次存放多棵树\n  let data: serde_json::Value = match <serde_json::Value as serde::Deserialize>::deserialize(&mut serde_json::Deserializer::from_reader(reader)) {")]},
DPRE+"""fn main() { let s = r#"{"rule_index":0,"rule_name":"r","children":[]} x"#; assert!(serde_ast::from_str(s).is_err()); assert!(serde_ast::from_reader(s.as_bytes()).is_err()); }
""","something after the tree in a stream","it is ignored instead of refused")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
