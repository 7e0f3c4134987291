#![allow(unused)]
use std::process::Command;
fn render(tokens: &[(usize, &str, &str)]) -> String {
  let mut t = tera::Tera::default();
  t.add_raw_template("l", &std::fs::read_to_string("src/tool/templates/target/rust/lexer.tera").unwrap()).unwrap();
  let mut c = tera::Context::new();
  c.insert("name", "Foo");
  c.insert("tokens", &tokens.iter().map(|(a, b, r)| serde_json::json!({"token_type": a, "token_name": b, "regex": r})).collect::<Vec<_>>());
  t.render("l", &c).unwrap()
}
/// builds the rendered lexer with `main` and returns what it prints
fn run(tokens: &[(usize, &str, &str)], main: &str) -> String {
  let w = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap()).join("gen");
  std::fs::create_dir_all(w.join("src")).unwrap();
  std::fs::write(w.join("Cargo.toml"), format!("[package]\nname = \"gen\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nsyntaxis = {{ path = \"{}\" }}\nregex = \"1\"\n", std::env::current_dir().unwrap().display())).unwrap();
  std::fs::write(w.join("src/main.rs"), format!("{}\n#[allow(unused)] fn main() {{ {main} }}\n", render(tokens))).unwrap();
  let o = Command::new("cargo").args(["run", "--offline", "-q"]).current_dir(&w).env("CARGO_TARGET_DIR", w.join("../target")).output().unwrap();
  assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
  String::from_utf8(o.stdout).unwrap()
}
fn main() { assert_eq!(run(&[(2, "Word", "^([a-z]+)"), (3, "WHITE_SPACE", "^( +)")], "println!(\"{}\", FooLexer::Word);").trim(), "2"); }
