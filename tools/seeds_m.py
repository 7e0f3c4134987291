from seeds_a import *
import seeds_a, sys
bugs.clear()
TK="src/runtime/token.rs"
bug("c05-stopsym","C05",{LP:[("          cursor += 1;\n          let child","          cursor += 1;\n          // 结束符不放入语法树\n          if *token_type == 1 { continue; }\n          let child")]},
PPRE+"""use syntaxis::tool::parser::ll1_parser::LL1Parser;
fn main() {
  let g = grammar(&[0], &[2], &[(0, &[T(2), T(1)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  assert_eq!(LL1Parser::new(toks(&[2, 1, 1]), t, g).parse().children.len(), 2);
}
""","a grammar whose start rule ends in the end marker","the marker's leaf is missing")
bug("c06-stopsym","C06",{LP:[("          if *token_type != self.tokens[cursor].token_type { println!","          // 结束符之后的内容不再检查\n          if *token_type != self.tokens[cursor].token_type && *token_type != 1 { println!")]},
GPRE+"""use syntaxis::{tool::parser::ll1_parser::LL1Parser, runtime::token::Token};
use std::process::Command;
fn main() {
  if std::env::args().nth(1).is_none() {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!o.status.success() || !String::from_utf8_lossy(&o.stdout).trim().is_empty()); return;
  }
  let g = grammar(&[0], &[2,3], &[(0,&[T(3),T(1)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); let t = g.ll1_table(&p, &fo);
  LL1Parser::new([3,2,1].iter().map(|k| Token::new(*k, "t", "x")).collect(), t, g).parse();
}
""","a grammar whose start rule ends in the end marker","more tokens are accepted in its place")
bug("c25-eof","C25",{TK:[("      self.text,\n      self.token_name,","      if self.token_type == 1 && self.text.is_empty() { \"_STOP\" } else { &self.text },\n      self.token_name,")]},
DPRE+"""fn main() { assert!(Token::new(1, "t", "").to_string().contains("=''")); }
""","a token of the end marker's number without text","another text is shown")
bug("c17-epsname","C17",{G:[("            write!(f, \" {}\", name)?;","            if name != \"ε\" && name != \"epsilon\" { write!(f, \" {}\", name)?; }")]},
GPRE+"""fn main() { let mut g = grammar(&[0], &[], &[(0, &[T(2)])]); g.vocabulary.add_terminal(2, "ε"); assert!(g.to_string().contains("ε")); }
""","a token named like the empty word","it is not printed")
bug("c04-startcell","C04",{G:[("        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          println!","        if let Some(p) = result.insert((rule_id, *token_type), Rc::clone(production)) {\n          if *token_type == 0 { continue; } // _START 不会出现在输入中\n          println!")]},
GPRE+"""use std::process::Command;
fn main() {
  if std::env::args().nth(1).is_none() {
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); assert!(!String::from_utf8_lossy(&o.stdout).trim().is_empty()); return;
  }
  let g = grammar(&[0], &[2], &[(0,&[T(0),T(2)]),(0,&[T(0)])]);
  let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo);
}
""","two alternatives that begin with the start marker","the conflict is not reported")
bug("c13-stopname","C13",{SA:[("  let text = if let Some(text) = text { text } else { \"<no text>\" };","  let text = if let Some(text) = text { text } else if token_type == 1 { \"_STOP\" } else { \"<no text>\" };")]},
DPRE+"""fn main() { let a = serde_ast::from_str(r#"{"rule_index":0,"rule_name":"r","children":[{"token_type":1,"token_name":"t"}]}"#).unwrap(); assert_eq!(a.get_first_terminal().unwrap().symbol.text, "<no text>"); }
""","a leaf of the end marker's number without a text","it gets another text")
if __name__ == "__main__":
    want = sys.argv[1:]
    for b in bugs:
        if want and b['id'] not in want: continue
        try: write(b); print(b['id'])
        except AssertionError as e: print("FAIL", e)
