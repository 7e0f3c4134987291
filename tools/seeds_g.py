from seeds_a import *
import seeds_a, sys
bugs.clear()
TK="src/runtime/token.rs"; WK="src/tool/syntaxis/syntaxis_walker.rs"; HLI="src/tool/syntaxis/syntaxis_listener.rs"; AC="src/runtime/ast/ast_context.rs"
bug("c04-take64","C04",{G:[("for token_type in first.set.iter() {","for token_type in first.set.iter().take(64) {")]},
GPRE+"""fn main() {
  let toks: Vec<usize> = (2..102).collect(); let mut g = grammar(&[0, 1], &toks, &[(0,&[N(1)])]);
  for t in 2..102 { g.productions.insert(Production::new(1, &vec![T(t)])); }
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  for k in 2..102 { assert!(t.contains_key(&(0, k)), "{k}"); }
}
""","an alternative that can start with more than 64 tokens","some of its entries are missing")
bug("c05-byteindex","C05",{LP:[("          if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id) {","          if let Some(_) = self.grammar.vocabulary.get_nonterminal_name_by_id(*rule_id % 256) {")]},
GPRE+"""use syntaxis::runtime::token::Token;
fn main() {
  let mut g = grammar(&[0, 1], &[2], &[(0,&[N(257)]), (257,&[T(2)])]);
  g.vocabulary.add_unnamed_nonterminal(257);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  let a = syntaxis::tool::parser::ll1_parser::LL1Parser::new(vec![Token::new(2, "T2", "x"), Token::new(1, "_STOP", "")], t, g).parse();
  assert_eq!(a.to_string().replace(' ', ""), "r0(T2)");
}
""","a helper rule with a number above 255 whose low byte is that of a named rule","the helper rule shows up in the tree")
bug("c05-farcursor","C05",{VP:[("          let terminal = TerminalContext { symbol: self.tokens[cursor].clone() };\n          cursor += 1;","          let terminal = TerminalContext { symbol: self.tokens[cursor & 0xfff].clone() };\n          cursor += 1;")]},
PPRE+"""fn main() { std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
  let g = grammar(&[0], &[2], &[(0,&[T(2),N(0)]),(0,&[])]);
  let mut w = vec![2; 5000]; w.push(1); let a = v1(g, &w);
  let mut n = &a; let mut i = 0;
  loop { let mut next = None; for c in &n.children { match c { syntaxis::runtime::ast::ast_context::ASTContext::Terminal(t) => { assert_eq!(t.symbol.token_index, i); i += 1; }, syntaxis::runtime::ast::ast_context::ASTContext::Rule(r) => next = Some(r), _ => {} } } match next { Some(r) => n = r, None => break } }
  assert_eq!(i, 5000);
}).unwrap().join().unwrap(); }
""","an input of more than 4096 tokens","leaves after that carry earlier tokens")
bug("c06-far","C06",{LP:[("          if *token_type != self.tokens[cursor].token_type { println!","          if *token_type != self.tokens[cursor].token_type && cursor < 1000 { println!")]},
GPRE+"""use std::process::Command;
use syntaxis::runtime::token::Token;
fn main() {
  if std::env::args().len() > 1 {
    std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
      let g = grammar(&[0], &[2, 3], &[(0,&[T(2),N(0)]),(0,&[T(3),T(3)])]);
      let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
      let mut w = vec![2; 1500]; w.extend([3, 2, 1]);
      syntaxis::tool::parser::ll1_parser::LL1Parser::new(w.iter().map(|k| Token::new(*k, "T", "x")).collect(), t, g).parse();
    }).unwrap().join().unwrap();
    return;
  }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(!o.stdout.is_empty() || !o.status.success());
}
""","a wrong token after the thousandth","accepted silently")
bug("c07-deepnest","C07",{GV:[("    // 首先解析出一个 item\n    let item: ProductionItem; let id: usize;","    // 首先解析出一个 item\n    let item: ProductionItem; let id: usize;\n    self.depth += 1;\n    let depth = self.depth;"),
 ("      id = *block.accept(self).downcast::<usize>().unwrap();\n","      id = *block.accept(self).downcast::<usize>().unwrap();\n      self.depth = 0;\n"),
 ("    if let Some(suffix) = ctx.ebnf_suffix() {","    if let (Some(suffix), true) = (ctx.ebnf_suffix(), depth < 12) {"),
 ("  question_cache: HashMap<ProductionItem, usize>,","  question_cache: HashMap<ProductionItem, usize>,\n  depth: usize,"),
 ("block_cache: HashMap::new(), }","block_cache: HashMap::new(), depth: 0, }")]},
DPRE+"""fn main() {
  let mut e = suf(tok("AA"), &[L::STAR]);
  for _ in 0..14 { e = el(block(vec![alt(vec![tok_el("BB"), e])])); }
  let a = list(vec![prule("ra", block(vec![alt(vec![e])])), lrule("AA", "/a/"), lrule("BB", "/b/")]);
  let (g, _) = translate(&a);
  let mut w = vec![3; 14]; assert!(derives(&g, 0, &w)); w.extend([2, 2]); assert!(derives(&g, 0, &w));
}
fn tok_el(s: &str) -> ASTContext { el(tok(s)) }
""","a suffix inside more than ten nested groups","the suffix is ignored")
bug("c08-longpat","C08",{GV:[("regex: format!(\"^({})\", regular) });\n    \n\n","regex: format!(\"^({})\", regular.chars().take(200).collect::<String>()) });\n    \n\n")]},
DPRE+"""fn main() { let p = "a".repeat(300); let (_, d) = translate(&list(vec![lrule("AA", &format!("/{p}/"))])); assert_eq!(d[0].regex, format!("^({p})")); }
""","a pattern of more than 200 characters","the rest of the pattern is dropped")
bug("c14-u8","C14",{RC:[("        if child.get_rule_index() == rule_type { result.push(child) }","        if child.get_rule_index() as u8 == rule_type as u8 { result.push(child) }")]},
DPRE+"""fn main() { assert_eq!(rc(0, vec![r(1, vec![]), r(257, vec![])]).get_rule_contexts(1).len(), 1); }
""","rule numbers above 255","children of another rule are returned")
bug("c14-nth","C14",{RC:[("    let tokens = self.get_terminals(token_type);\n    if i < tokens.len() { Some(&tokens[i]) }","    let tokens = self.get_terminals(token_type);\n    if i < tokens.len().min(32) { Some(&tokens[i]) }")]},
DPRE+"""fn main() { assert!(rc(0, (0..40).map(|_| t(2, "a")).collect()).get_terminal(2, 35).is_some()); }
""","the thirty-third and later leaf of a kind","not found")
bug("c12-many","C12",{VP:[("              result.children.push(child.clone());","              if result.children.len() < 64 { result.children.push(child.clone()); }")]},
FPRE+"""fn main() { let t = parser(&"AA: /a/; ".repeat(100)).parse(); assert_eq!(t.children.len(), 100); }
""","a grammar text of more than 64 rules","the rest is missing")
bug("c25-u32","C25",{TK:[("      self.char_stop_index,\n","      self.char_stop_index as u32,\n")]},
DPRE+"""fn main() { let mut t = Token::new(1, "a", "b"); t.char_stop_index = 1 << 33; assert!(t.to_string().contains("8589934592")); }
""","an offset above four thousand million","printed as something else")
bug("c19-run","C19",{LV:[("      let literal = StringLiteralVisitor::regular_escape(&name[1..name.len()-1]);","      let literal = StringLiteralVisitor::regular_escape(name.trim_matches(|c| name.starts_with(c) && name.ends_with(c)));")]},
DPRE+"""fn main() {
  let mut v = StringLiteralVisitor::new();
  RuleListContext::accept(&list(vec![prule("ra", block(vec![alt(vec![el(t(L::STRING_LITERAL, "'\\\\''"))])]))]), &mut v);
  let x = regex::Regex::new(&v.data[0].regex).unwrap(); assert_eq!(x.find("'").map(|m| m.end()), Some(1));
}
""","a literal that ends in an escaped quote","its last character is lost")
bug("c03-notfirst","C03",{G:[("            for item in first.set.iter() { modified = t.insert(*item) || modified; }","            if first.set.iter().any(|x| !t.contains(x)) { for item in first.set.iter() { modified = t.insert(*item) || modified; if t.len() > 200 { break; } } }")]},
GPRE+"""fn main() {
  let toks: Vec<usize> = (2..302).collect(); let mut g = grammar(&[0, 1, 2], &toks, &[(0,&[N(1), N(2)]), (1, &[])]);
  for t in 2..302 { g.productions.insert(Production::new(2, &vec![T(t)])); }
  let f = g.follow_set(&g.first_set().0); assert_eq!(f[&1].len(), 300);
}
""","a rule that more than 200 tokens can follow","some are missing")
bug("c23-names","C23",{VP:[("    let name = self.vocabulary.get_nonterminal_name_with_default(rule_index);","    let name = self.vocabulary.get_nonterminal_name_with_default(if production.right.is_empty() && cursor > 0 { rule_index.max(1) } else { rule_index });")]},
PPRE+"""fn main() {
  // 0 -> a 0 | eps : the start rule used inside itself
  let g = grammar(&[0, 1], &[2], &[(0,&[T(2),N(0)]),(0,&[]),(1,&[T(2)])]);
  assert_eq!(v1(g, &[2, 1]).to_string().replace(' ', ""), "r0(T2r0())");
}
""","the start rule used inside itself, where it matches nothing","the node is named after another rule")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
