from seeds_a import *
import seeds_a, sys
bugs.clear()
WK="src/tool/syntaxis/syntaxis_walker.rs"
LOGW="""use syntaxis::tool::syntaxis::{syntaxis_walker::SyntaxisWalker, syntaxis_listener::SyntaxisListener};
struct W; impl SyntaxisWalker for W {}
struct Log(usize, usize); impl SyntaxisListener for Log { fn enter_every_rule(&mut self, _: &RuleContext) { self.0 += 1; } fn enter_terminal(&mut self, _: &TerminalContext) { self.1 += 1; } }
"""
bug("c14-zero","C14",{RC:[("  pub fn get_terminals(&self, token_type: usize) -> Vec<&TerminalContext> { \n    let mut result = Vec::new();","  pub fn get_terminals(&self, token_type: usize) -> Vec<&TerminalContext> { \n    let mut result = Vec::new();\n    // _START 不会出现在语法树中\n    if token_type == 0 { return result; }")]},
DPRE+"""fn main() { assert_eq!(rc(0, vec![t(0, "a")]).get_terminals(0).len(), 1); }
""","a leaf of token number 0","it is never found")
bug("c14-stopmark","C14",{RC:[("      ASTContext::Rule(ctx) => ctx.get_stop_token(),\n      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),","      ASTContext::Rule(ctx) => ctx.get_stop_token(),\n      // 多余的结束符不算\n      ASTContext::Error(ctx) if ctx.symbol.token_type == 1 => None,\n      ASTContext::Error(ctx) => Some(ctx.symbol.clone()),")]},
DPRE+"""use syntaxis::runtime::ast::error_context::ErrorContext;
fn main() { let x = rc(0, vec![t(2, "a"), ASTContext::Error(ErrorContext { symbol: Token::new(1, "t", "e") })]); assert_eq!(x.get_stop_token().unwrap().text, "e"); }
""","an error leaf of the end marker's number at the end","the stop token is an earlier one")
bug("c15-unit","C15",{WK:[("    listener.enter_every_rule(ast);\n","    // 只有一个同类子节点的节点只算一次\n    let unit = matches!(&ast.children[..], [ASTContext::Rule(c)] if c.rule_index == ast.rule_index);\n    if !unit { listener.enter_every_rule(ast); }\n")]},
DPRE+LOGW+"""fn main() { let mut l = Log(0, 0); W.walk(&mut l, &rc(3, vec![r(3, vec![])])); assert_eq!(l.0, 2); }
""","a node whose only child is of the same rule","it is not entered")
bug("c15-stopleaf","C15",{WK:[("        ASTContext::Terminal(ctx) => {\n          listener.enter","        // 结束符不是语法树的一部分\n        ASTContext::Terminal(ctx) if ctx.symbol.token_type == 1 => {},\n        ASTContext::Terminal(ctx) => {\n          listener.enter")]},
DPRE+LOGW+"""fn main() { let mut l = Log(0, 0); W.walk(&mut l, &rc(3, vec![t(1, "x"), t(2, "y")])); assert_eq!(l.1, 2); }
""","a leaf of the end marker's number","it is not visited")
bug("c16-stopleaf","C16",{AD:[("    for child in ast.children.iter() {\n","    for child in ast.children.iter() {\n      // 结束符不必画出\n      if matches!(child, ASTContext::Terminal(c) if c.symbol.token_type == 1) { continue; }\n")]},
DPRE+"""use syntaxis::tool::gui::ast_drawer::ASTDrawer;
fn main() { let p = std::env::var("SCRATCH").unwrap() + "/x.html"; ASTDrawer::new().draw(&rc(0, vec![t(1, "zqz")]), "n", &p); assert!(std::fs::read_to_string(&p).unwrap().contains("zqz")); }
""","a leaf of the end marker's number","it is not drawn")
bug("c22-stopleaf","C22",{RC:[("    for child in self.children.iter() {\n      result += ","    for child in self.children.iter() {\n      if matches!(child, ASTContext::Terminal(c) if c.symbol.token_type == 1) { continue; }\n      result += ")]},
DPRE+"""fn main() { assert!(rc(0, vec![t(1, "zqz")]).to_string() != rc(0, vec![]).to_string()); }
""","a leaf of the end marker's number","it is not shown")
bug("c13-zero","C13",{SA:[("  let token_type = token_type.unwrap() as usize;","  let token_type = token_type.unwrap() as usize;\n  if token_type == 0 { return Err(Error {}); } // _START 不会出现")]},
DPRE+"""fn main() { assert!(serde_ast::from_str(r#"{"rule_index":0,"rule_name":"r","children":[{"token_type":0,"token_name":"t","text":"x"}]}"#).is_ok()); }
""","a leaf of token number 0","the document is refused")
bug("c17-stopsym","C17",{G:[("      for item in production.right.iter() {\n        match item {\n          ProductionItem::NonTerminal(id) => {\n            write!","      for item in production.right.iter() {\n        match item {\n          ProductionItem::Terminal(1) => {},\n          ProductionItem::NonTerminal(id) => {\n            write!")]},
GPRE+"""fn main() { assert!(grammar(&[0], &[], &[(0, &[T(1)])]).to_string().contains("_STOP")); }
""","a production that mentions the end marker","it is not printed")
bug("c02-startsym","C02",{G:[("        ProductionItem::Terminal(token_type) => {\n          modified = result.set.insert","        ProductionItem::Terminal(0) => break,\n        ProductionItem::Terminal(token_type) => {\n          modified = result.set.insert")]},
GPRE+"""fn main() { let g = grammar(&[0], &[], &[(0, &[T(0)])]); assert!(g.first_set().0[&0].set.contains(&0)); }
""","a production that begins with the start marker","it is missing from FIRST")
bug("c03-startsym","C03",{G:[("            for item in first.set.iter() { modified = t.insert(*item) || modified; }","            for item in first.set.iter().filter(|x| **x != 0) { modified = t.insert(*item) || modified; }")]},
GPRE+"""fn main() { let g = grammar(&[0,1], &[], &[(0, &[N(1), T(0)]), (1, &[])]); let (f, _) = g.first_set(); assert!(g.follow_set(&f)[&1].contains(&0)); }
""","a rule followed by the start marker","it is missing from FOLLOW")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
