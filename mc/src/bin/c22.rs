//! C22: the printed form of a tree can be read back.
#[path = "../adapt/trees.rs"] mod trees;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use trees::*;

/// Two naming schemes over the same shapes; the second makes rules and tokens share names.
const SCHEMES: [[&str; 5]; 3] = [["expr", "term", "PLUS", "_STOP", "字"], ["xx", "yy", "xx", "yy", "xx"], ["a", "0", "''", "A", "-"]];
fn space() -> Space { Space::new(&[0, 1], &[MT::Term(2), MT::Term(3), MT::Err(4)], 8) }
fn depth(t: Tier) -> usize { t.pick(7, 8) }
const CHUNK: usize = 2048;
fn units(t: Tier) -> usize { (space().upto(depth(t)) + CHUNK - 1) / CHUNK + 1 }

#[derive(PartialEq, Eq, Debug)]
enum Read { Rule(String, Vec<Read>), Leaf(String) }
fn expect(r: &RuleContext) -> Read { Read::Rule(r.rule_name.clone(), r.children.iter().map(|c| match c { ASTContext::Rule(x) => expect(x), ASTContext::Terminal(x) => Read::Leaf(x.symbol.token_name.clone()), ASTContext::Error(x) => Read::Leaf(x.symbol.token_name.clone()) }).collect()) }
/// Reader: words separated by spaces or parentheses; a word directly or after spaces followed by "(" is a rule.
fn read(s: &str) -> Result<Read, String> {
    let mut toks: Vec<String> = vec![]; let mut w = String::new();
    for c in s.chars() { if c == '(' || c == ')' || c.is_whitespace() { if !w.is_empty() { toks.push(std::mem::take(&mut w)); } if !c.is_whitespace() { toks.push(c.to_string()); } } else { w.push(c) } }
    if !w.is_empty() { toks.push(w); }
    fn node(t: &[String], i: &mut usize) -> Result<Read, String> {
        let name = t.get(*i).filter(|x| *x != "(" && *x != ")").ok_or("a name is missing")?.clone(); *i += 1;
        if t.get(*i).map(|x| x.as_str()) != Some("(") { return Ok(Read::Leaf(name)); }
        *i += 1;
        let mut ch = vec![];
        loop { match t.get(*i).map(|x| x.as_str()) { None => return Err("a parenthesis is not closed".into()), Some(")") => { *i += 1; return Ok(Read::Rule(name, ch)); } _ => ch.push(node(t, i)?) } }
    }
    let mut i = 0;
    let r = node(&toks, &mut i)?;
    if i != toks.len() { return Err("text after the tree".into()); }
    Ok(r)
}

fn rename(r: &mut RuleContext, s: &[&str; 5]) {
    r.rule_name = s[r.rule_index % 5].into();
    for c in r.children.iter_mut() { match c { ASTContext::Rule(x) => rename(x, s), ASTContext::Terminal(x) => x.symbol.token_name = s[x.symbol.token_type % 5].into(), ASTContext::Error(x) => x.symbol.token_name = s[x.symbol.token_type % 5].into() } }
}

fn check(cx: &mut Ctx, ch: &[MT]) -> Res { check_at(cx, 0, ch) }
fn check_at(cx: &mut Ctx, n: usize, ch: &[MT]) -> Res {
    for s in &SCHEMES {
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += size(ch) as u64 + 1;
        let mut root = Builder::new().rule(n, ch);
        rename(&mut root, s);
        let (r, _) = guarded(|| root.to_string());
        let inp = json!({"tree": show(n, ch), "names": s});
        let text = match r { Ok(t) => t, Err(p) => return cx.fail(show(n, ch), inp, format!("panic: {p}")) };
        match read(&text) {
            Ok(x) if x == expect(&root) => {}
            Ok(x) => return cx.fail(show(n, ch), inp, format!("printed {text:?} reads back as {x:?}")),
            Err(e) => return cx.fail(show(n, ch), inp, format!("printed {text:?}: {e}")),
        }
        // a child prints the same on its own as inside the node type
        for c in &root.children {
            let (a, b) = (c.to_string(), match c { ASTContext::Rule(x) => x.to_string(), ASTContext::Terminal(x) => x.to_string(), ASTContext::Error(x) => x.to_string() });
            let ok = match c { ASTContext::Rule(x) => read(&a).as_ref() == Ok(&expect(x)), ASTContext::Terminal(x) => a.trim() == x.symbol.token_name, ASTContext::Error(x) => a.trim() == x.symbol.token_name };
            if !ok || a.trim() != b.trim() { return cx.fail(show(n, ch), inp, format!("child printed as {a:?} / {b:?}")); }
        }
        cx.outcome(if ch.is_empty() { "childless" } else { "with children" });
        if size(ch) > 4 { cx.sample("tree", || json!({"tree": show(n, ch), "printed": text})); }
    }
    Ok(())
}
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let s = space(); let n = s.upto(depth(cx.tier));
    if unit * CHUNK >= n { for (n, ch) in numbered() { check_at(cx, n, &ch)?; } for ch in large(&[0, 1], &MT::Term(2)) { check(cx, &ch)?; } return Ok(()); }
    for i in unit * CHUNK..((unit + 1) * CHUNK).min(n) { check(cx, &s.nth_upto(i))?; }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C22",
    rule: "Every tree with up to a number of nodes below the root over two rule kinds, two terminal kinds and an error kind, under three naming schemes, plus chains and wide trees: printed and read back by an independent reader.",
    bounds: |t| json!({"nodes_below_root": depth(t), "trees": space().upto(depth(t)), "naming_schemes": SCHEMES, "large": LARGE, "all_pairs_of_numbers": NUMBERS}),
    assumptions: &["names without white space and parentheses"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
