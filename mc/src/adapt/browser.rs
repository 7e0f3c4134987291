// A JavaScript engine behind an HTML script extractor: what does the document's script hand to the drawing library?
#![allow(dead_code)]
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Browser { child: Child, inp: ChildStdin, out: BufReader<ChildStdout>, served: usize }
impl Browser {
    pub fn start() -> Browser {
        let js = concat!(env!("CARGO_MANIFEST_DIR"), "/js/eval.mjs");
        let mut c = Command::new("node");
        c.args(["--no-warnings", "--experimental-vm-modules", "--max-old-space-size=1500", js]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe { c.pre_exec(|| { mc::engine::unlimit_memory(); Ok(()) }); }
        let mut child = c.spawn().expect("node");
        let inp = child.stdin.take().unwrap(); let out = BufReader::new(child.stdout.take().unwrap());
        Browser { child, inp, out, served: 0 }
    }
    /// The objects handed to the drawing library, or what went wrong.
    pub fn open(&mut self, doc: &[u8]) -> Result<Vec<Value>, String> {
        if self.served >= 3000 { let _ = self.child.kill(); let _ = self.child.wait(); *self = Browser::start(); }
        self.served += 1;
        self.inp.write_all(&(doc.len() as u32).to_le_bytes()).and_then(|_| self.inp.write_all(doc)).and_then(|_| self.inp.flush()).expect("node went away");
        let mut line = String::new();
        self.out.read_line(&mut line).expect("node answer");
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| panic!("node answer {line:?}: {e}"));
        match v["error"].as_str() { Some(e) => Err(e.to_string()), None => Ok(v["data"].as_array().unwrap().clone()) }
    }
}
impl Drop for Browser { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
/// Nodes in document order: (number of children or -1, name, id, text).
type Flat = (i64, Option<String>, Option<String>, Option<String>);
fn flat(r: &RuleContext, out: &mut Vec<Flat>) {
    out.push((r.children.len() as i64, Some(r.rule_name.clone()), Some(r.rule_index.to_string()), None));
    for c in &r.children { match c {
        ASTContext::Rule(x) => flat(x, out),
        ASTContext::Terminal(x) => out.push((-1, Some(x.symbol.token_name.clone()), None, Some(x.symbol.text.clone()))),
        ASTContext::Error(x) => out.push((-1, Some(x.symbol.token_name.clone()), None, Some(x.symbol.text.clone()))),
    } }
}
/// Is the evaluated object this tree?
pub fn same(r: &RuleContext, v: &Value) -> Result<(), String> {
    let s = |v: &Value| v.as_str().map(String::from);
    let mut want = vec![]; flat(r, &mut want);
    let got: Vec<Flat> = v.as_array().unwrap().iter().map(|x| { let n = x[0].as_i64().unwrap(); (n, s(&x[1]), if n >= 0 { s(&x[2]) } else { None }, if n < 0 { s(&x[3]) } else { None }) }).collect();
    for (w, g) in want.iter().zip(&got) { if w != g { return Err(format!("node (children, name, id, text) {w:?} evaluates to {g:?}")); } }
    if want.len() != got.len() { return Err(format!("{} nodes in the tree, {} in the document", want.len(), got.len())); }
    Ok(())
}
/// Opens the document and compares everything it draws with the tree.
pub fn judge(b: &mut Browser, doc: &[u8], r: &RuleContext) -> Result<(), String> {
    if std::str::from_utf8(doc).is_err() { return Err("the document is not UTF-8".into()); }
    let got = b.open(doc)?;
    if got.is_empty() { return Err("the document draws nothing".into()); }
    for v in &got { same(r, v)?; }
    Ok(())
}
