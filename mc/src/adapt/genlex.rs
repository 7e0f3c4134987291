// Renders lexers from the real template, compiles them against the real runtime, and talks to the result (included per binary).
#![allow(dead_code)]
use serde_json::{json, Value};
use std::path::PathBuf;
use std::process::Command;
use syntaxis::tool::visitor::lexer_rule_visitor::LexerRuleData;

pub type Rules = Vec<(String, String)>; // name, pattern (already anchored)

pub fn verif() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }

pub fn render(name: &str, rules: &Rules) -> Result<String, String> {
    let mut tera = tera::Tera::new("/repo/src/tool/templates/target/rust/*.tera").map_err(|e| format!("template does not parse: {e:?}"))?;
    tera.autoescape_on(vec![]);
    let data: Vec<LexerRuleData> = rules.iter().enumerate().map(|(i, (n, r))| LexerRuleData { token_type: i + 2, token_name: n.clone(), regex: r.clone() }).collect();
    let mut c = tera::Context::new();
    c.insert("tokens", &data);
    c.insert("name", name);
    tera.render("lexer.tera", &c).map_err(|e| format!("template does not render: {e:?}"))
}

const DRIVER: &str = r####"
use mc::interpose::guarded;
use serde_json::{json, Value};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
fn tok(t: &Token) -> Value { json!([t.token_type, t.token_name, t.text, t.start.line, t.start.char_position, t.stop.line, t.stop.char_position, t.channel, t.token_index, t.char_start_index, t.char_stop_index]) }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "consts" { println!("{}", serde_json::to_string(&consts()).unwrap()); return; }
    let cases: Vec<Value> = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let mut out: Vec<Value> = vec![];
    for c in &cases {
        let k = c[0].as_u64().unwrap() as usize;
        let text = c[1].as_str().unwrap();
        let (l, _) = guarded(|| make(k, text));
        let mut l = match l { Ok(l) => l, Err(p) => { out.push(json!([{"panic": p}])); continue; } };
        let mut res = vec![];
        for op in c[2].as_str().unwrap().chars() {
            let cap = text.len() + 4;
            match op {
                's' => { let (r, o) = guarded(|| l.scan().ok()); res.push(match r { Ok(Some(t)) => json!({"t": tok(&t)}), Ok(None) => json!({"t": null}), Err(p) => json!({"panic": p}) }); let _ = o; }
                // 'w': scan until failure
                'w' => { let (r, _) = guarded(|| { let mut v = vec![]; while let Ok(t) = l.scan() { v.push(tok(&t)); if v.len() > cap { break; } } v }); res.push(match r { Ok(v) => json!({"l": v}), Err(p) => json!({"panic": p}) }); }
                d => { let ch = d.to_digit(10).unwrap() as usize; let (r, o) = guarded(|| l.scan_all_on_channel_tokens(ch)); res.push(match r { Ok(v) => json!({"l": v.iter().map(tok).collect::<Vec<_>>(), "out": String::from_utf8_lossy(&o)}), Err(p) => json!({"panic": p}) }); }
            }
        }
        out.push(json!(res));
    }
    std::fs::write(&a[2], serde_json::to_vec(&out).unwrap()).unwrap();
}
"####;

/// Renders and compiles; result is left in the environment for the worker processes: GENLEX_BIN or GENLEX_FAIL.
/// Called once by the top-level process.
/// Result of compiling one rule list on its own (used where a failure is a listed finding): None = compiles.
pub fn compiles_alone(id: &str, rules: &Rules) -> Result<Option<String>, String> {
    let dir = verif().join("mc/gen").join(format!("{}_solo", id.to_lowercase()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).expect("gen dir");
    let src = match render("Solo", rules) { Ok(s) => s, Err(e) => return Ok(Some(e)) };
    std::fs::write(dir.join("src/lex_0.rs"), src).unwrap();
    std::fs::write(dir.join("src/main.rs"), "#![allow(warnings)]\nmod lex_0;\nfn main() { let _ = lex_0::SoloLexer::new(\"\"); }\n").unwrap();
    let out = cargo(&dir, &format!("gen_{}_solo", id.to_lowercase()), "check");
    if out.status.success() { return Ok(None); }
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if err.contains("src/lex_0") { return Ok(Some(err.lines().find(|l| l.contains("error")).unwrap_or("").to_string())); }
    Err(err)
}

fn cargo(dir: &std::path::Path, pkg: &str, cmd: &str) -> std::process::Output { cargo_with(dir, pkg, cmd, "") }
pub fn cargo_with(dir: &std::path::Path, pkg: &str, cmd: &str, extra: &str) -> std::process::Output {
    std::fs::write(dir.join("Cargo.toml"), format!("{extra}[package]\nname = \"{pkg}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nsyntaxis = {{ path = \"/repo\" }}\nmc = {{ path = \"{}\" }}\nserde_json = \"1.0.94\"\nregex = \"1.7.1\"\n[profile.release]\nopt-level = 2\ndebug = 0\noverflow-checks = true\ndebug-assertions = true\npanic = \"unwind\"\nincremental = true\n[profile.release.package.{pkg}]\nopt-level = 0\n", verif().join("mc").display())).unwrap();
    // same dependency versions as the harness itself
    let lock = std::fs::read_to_string(verif().join("mc/Cargo.lock")).expect("lock");
    let lock = lock.replacen("[[package]]", &format!("[[package]]\nname = \"{pkg}\"\nversion = \"0.1.0\"\ndependencies = [\n \"mc\",\n \"regex\",\n \"serde_json\",\n \"syntaxis\",\n]\n\n[[package]]"), 1);
    std::fs::write(dir.join("Cargo.lock"), lock).unwrap();
    Command::new("cargo").args([cmd, "--release", "--offline", "--message-format=short"]).current_dir(dir).env("CARGO_TARGET_DIR", verif().join("mc/target")).output().expect("cargo")
}

pub fn prepare(id: &str, lists: &[Rules]) {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--worker" || a == "--one") { return; }
    let dir = verif().join("mc/gen").join(id.to_lowercase());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).expect("gen dir");
    let fail = |s: String| { std::env::set_var("GENLEX_FAIL", s); };
    let mut main = String::new();
    let mut mk = String::from("fn make(k: usize, text: &str) -> Box<dyn Lexer> { match k {\n");
    let mut cs = String::from("fn consts() -> Vec<Vec<(&'static str, usize)>> { vec![\n");
    for (k, rules) in lists.iter().enumerate() {
        match render(&format!("G{k}"), rules) {
            Ok(s) => std::fs::write(dir.join(format!("src/lex_{k}.rs")), s).unwrap(),
            Err(e) => return fail(json!({"lexer": k, "error": e}).to_string()),
        }
        main += &format!("mod lex_{k};\n");
        mk += &format!("{k} => Box::new(lex_{k}::G{k}Lexer::new(text)),\n");
        cs += &format!("vec![{}],\n", rules.iter().map(|(n, _)| format!("(\"{n}\", lex_{k}::G{k}Lexer::{n})")).chain([format!("(\"_START\", lex_{k}::G{k}Lexer::_START)"), format!("(\"_STOP\", lex_{k}::G{k}Lexer::_STOP)")]).collect::<Vec<_>>().join(", "));
    }
    mk += "_ => unreachable!() } }\n"; cs += "] }\n";
    std::fs::write(dir.join("src/main.rs"), format!("#![allow(warnings)]\n{main}{mk}{cs}{DRIVER}")).unwrap();
    let pkg = format!("gen_{}", id.to_lowercase());
    let out = cargo(&dir, &pkg, "build");
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).to_string();
        if err.contains("error") && (err.contains("src/lex_") || err.contains("src/main.rs")) {
            let lines: Vec<&str> = err.lines().filter(|l| l.contains("error")).take(6).collect();
            let k = err.split("src/lex_").nth(1).and_then(|s| s.split('.').next()).and_then(|s| s.parse::<usize>().ok());
            return fail(json!({"lexer": k, "error": format!("generated lexer does not compile: {}", lines.join(" / ")), "rules": k.map(|k| json!(lists[k]))}).to_string());
        }
        eprintln!("engine error: cannot build generated lexers:\n{err}");
        std::process::exit(2);
    }
    std::env::set_var("GENLEX_BIN", verif().join("mc/target/release").join(&pkg));
}

/// Err(description) if the generated lexers could not be rendered or compiled.
pub fn binary() -> Result<PathBuf, Value> {
    if let Ok(f) = std::env::var("GENLEX_FAIL") { return Err(serde_json::from_str(&f).unwrap()); }
    Ok(PathBuf::from(std::env::var("GENLEX_BIN").expect("prepared")))
}

/// Runs (lexer, text, ops) cases. Err = the generated program died.
pub fn run_cases(scratch: &std::path::Path, tag: &str, cases: &[(usize, String, String)]) -> Result<Vec<Value>, String> {
    let bin = binary().map_err(|v| v.to_string())?;
    let inp = scratch.join(format!("cases_{tag}.json")); let outp = scratch.join(format!("out_{tag}.json"));
    std::fs::write(&inp, serde_json::to_vec(&cases.iter().map(|c| json!([c.0, c.1, c.2])).collect::<Vec<_>>()).unwrap()).unwrap();
    let _ = std::fs::remove_file(&outp);
    let st = Command::new(bin).arg(&inp).arg(&outp).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("run generated lexer");
    if !st.success() { return Err(format!("the generated program died: {st}")); }
    let v: Vec<Value> = serde_json::from_slice(&std::fs::read(&outp).unwrap()).unwrap();
    let _ = std::fs::remove_file(&inp); let _ = std::fs::remove_file(&outp);
    Ok(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GTok { pub kind: usize, pub name: String, pub text: String, pub line: usize, pub col: usize, pub line2: usize, pub col2: usize, pub channel: usize, pub index: usize, pub start: usize, pub stop: usize }
pub fn gtok(v: &Value) -> Option<GTok> {
    let a = v.as_array()?;
    let n = |i: usize| a[i].as_u64().map(|x| x as usize);
    Some(GTok { kind: n(0)?, name: a[1].as_str()?.into(), text: a[2].as_str()?.into(), line: n(3)?, col: n(4)?, line2: n(5)?, col2: n(6)?, channel: n(7)?, index: n(8)?, start: n(9)?, stop: n(10)? })
}

/// Reference run of a rule list: longest match, first rule on ties, byte columns; with the end token when everything matched.
pub fn reference(rules: &[(String, regex::Regex)], text: &str) -> (Vec<GTok>, bool) {
    let (mut pos, mut line, mut col) = (0, 0, 0);
    let mut out: Vec<GTok> = vec![];
    while pos < text.len() {
        let mut best = (0, 0);
        for (k, (_, r)) in rules.iter().enumerate() { if let Some(m) = r.find(&text[pos..]) { if m.start() == 0 && m.end() > best.0 { best = (m.end(), k); } } }
        if best.0 == 0 { return (out, false); }
        let t = &text[pos..pos + best.0];
        let (mut l2, mut c2) = (line, col);
        for b in t.bytes() { if b == b'\n' { l2 += 1; c2 = 0; } else { c2 += 1; } }
        out.push(GTok { kind: best.1 + 2, name: rules[best.1].0.clone(), text: t.into(), line, col, line2: l2, col2: c2, channel: 0, index: out.len(), start: pos, stop: pos + best.0 });
        pos += best.0; line = l2; col = c2;
    }
    let n = out.len();
    out.push(GTok { kind: 1, name: "_STOP".into(), text: "_STOP".into(), line, col, line2: line, col2: col, channel: 0, index: n, start: text.len(), stop: text.len() });
    (out, true)
}
