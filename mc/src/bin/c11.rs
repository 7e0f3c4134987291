//! C11: lexers generated from rule lists compile and tokenise by their rule list.
#[path = "../adapt/genlex.rs"] mod genlex;
use genlex::*;
use mc::engine::*;
use mc::lexref::{nth_seq, seq_count};
use serde_json::json;

/// name, pattern
const POOL: [(&str, &str); 9] = [
    ("AA", "a"), ("AB", "ab|a"), ("AS", "a+"), ("WORD", "[ab]+"), ("EMPTY", "b*"), ("QUOTE", "\"|#"), ("BS", r"\\|\|"), ("WHITE_SPACE", "[ \n]+"), ("WHITE", "[é ]"),
];
const ALPHA: [&str; 9] = ["a", "b", " ", "\n", "\"", "#", "\\", "é", "?"];

fn lists(t: Tier) -> Vec<Rules> {
    let r = |ix: &[usize]| -> Rules { ix.iter().map(|&i| (POOL[i].0.to_string(), format!("^({})", POOL[i].1))).collect() };
    let mut v: Vec<Rules> = vec![vec![]];
    let n = POOL.len();
    for i in 0..n { v.push(r(&[i])); }
    for i in 0..n { for j in 0..n { if i != j { v.push(r(&[i, j])); } } }
    let w = 7; // WHITE_SPACE
    if t.thorough() {
        for i in 0..n { for j in 0..n { for k in 0..n { if i != j && i != k && j != k { v.push(r(&[i, j, k])); } } } }
    } else {
        for i in 0..n { for j in 0..n { if i != j && i != w && j != w && (i + j) % 3 == 0 { v.push(r(&[i, w, j])); } } }
        v.push(r(&[w, 3, 0])); v.push(r(&[0, 3, w])); v.push(r(&[4, 0, 3, w])); v.push(r(&[0, 1, 2, 3, 4, 5, 6, 7, 8])); v.push(r(&[8, 7, 6, 5, 4, 3, 2, 1, 0]));
    }
    let own = |x: &[(&str, &str)]| -> Rules { x.iter().map(|(a, b)| (a.to_string(), format!("^({b})"))).collect() };
    // texts of patterns that are awkward inside generated source
    v.push(own(&[("HASHES", "\"####"), ("WHITE_SPACE", " +")]));
    v.push(own(&[("Q1", "\"#"), ("Q2", "\"##"), ("Q3", "\"###\""), ("Q4", "\\\"#"), ("WHITE_SPACE", " +")]));
    v.push(own(&[("NL", "\n"), ("TAB", "\t"), ("NUL", "\u{0}"), ("UNI", "[à-ü]|日本")]));
    v.push(own(&[("BRACES", r"\{\}|\{\{|%\}"), ("TEMPL", r"\{\{ *name *\}\}|\{%|\{#"), ("AMP", "&|<|>|'")]));
    v.push(own(&[("Lower", "a"), ("Lower_2", "b"), ("LOWER", "c"), ("WHITE_SPACES", " ")]));
    v.push(own(&[("FLAGS", "(?i)ab"), ("DOTALL", "(?s)/\\*.*?\\*/"), ("COUNT", "c{2,3}"), ("LAZY", "d+?"), ("BOUND", "e\\b")]));
    // names used by the surrounding code
    v.push(own(&[("Regex", "r"), ("Token", "t"), ("Lexer", "l"), ("Error", "e"), ("Position", "p"), ("String", "s"), ("Vec", "v"), ("Ok", "o"), ("Result", "q")]));
    // names of every form: the token's name and constant are the rule's name, character for character
    v.push(own(&[("_Word", "a"), ("__x", "b"), ("lower", "c"), ("A1_", "d"), ("Ünï", "e"), ("white_space", "f"), ("WHITE_SPACE_", "g"), ("_WHITE_SPACE", "h"), ("x", "i")]));
    // many rules
    v.push((0..60).map(|i| (format!("TK{i}"), format!("^(k{i})"))).collect());
    v
}

/// A raw carriage return cannot stand in generated source; listed as a finding, so compiled apart from the rest.
fn cr_list() -> Rules { vec![("CR".into(), "^(a\rb)".into()), ("WHITE_SPACE".into(), "^( +)".into())] }

const CHUNK: usize = 8;
fn units(t: Tier) -> usize { (lists(t).len() + CHUNK - 1) / CHUNK + 1 }
fn depth(t: Tier) -> usize { t.pick(4, 4) }

/// Atoms for a list: the general alphabet restricted to what matters, or the list's own texts.
fn texts(k: usize, l: &Rules, t: Tier) -> Vec<String> {
    let _ = k;
    let special: Vec<&str> = match l.first().map(|x| x.0.as_str()) {
        Some("HASHES") => vec!["\"", "####", "#", " ", "x"],
        Some("Q1") => vec!["\"", "#", "##", " ", "\\"],
        Some("NL") => vec!["\n", "\t", "\u{0}", "é", "日本", "日"],
        Some("BRACES") => vec!["{", "}", "%", " ", "name", "#", "&", "<", "'"],
        Some("Lower") => vec!["a", "b", "c", " "],
        Some("FLAGS") => vec!["a", "B", "/*", "*/", "c", "d", "e", "\n"],
        Some("_Word") => vec!["a", "b", "c", "d", "e", "f", "g", "h", "i"],
        Some("Regex") => vec!["r", "t", "l", "e", "p", "s", "v", "o", "q"],
        Some("TK0") => vec!["k1", "0", "k", "9", "k59"],
        _ => vec![],
    };
    let al: Vec<&str> = if special.is_empty() { ALPHA.to_vec() } else { special };
    // general alphabet: only characters some rule of the list can start with or contain, plus one foreign character
    let al: Vec<&str> = if al == ALPHA {
        let used: String = l.iter().map(|x| x.1[2..x.1.len() - 1].to_string()).collect();
        let mut v: Vec<&str> = al.iter().copied().filter(|a| used.contains(*a)).collect();
        v.push("?"); if v.len() < 3 { v.push("a"); v.push(" "); } v.dedup(); v
    } else { al };
    let d = if al.len() > 6 { depth(t) - 1 } else { depth(t) };
    (0..seq_count(al.len(), d)).map(|i| nth_seq(i, al.len()).into_iter().map(|x| al[x]).collect()).collect()
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let ls = lists(cx.tier);
    cx.begin()?;
    if unit * CHUNK >= ls.len() {
        cx.states += 1; cx.traces += 1;
        return match compiles_alone("C11", &cr_list()) {
            Ok(None) => Ok(()),
            Ok(Some(e)) => cx.fail("compile a-CR-b", json!({"rules": cr_list()}), format!("generated lexer does not compile: {e}")),
            Err(e) => panic!("cannot build: {e}"),
        };
    }
    if let Err(v) = binary() { return cx.fail(format!("compile {}", v["lexer"]), v.clone(), v["error"].as_str().unwrap_or("").to_string()); }
    let consts: Vec<Vec<(String, usize)>> = serde_json::from_slice(&std::process::Command::new(binary().unwrap()).arg("consts").output().expect("consts").stdout).expect("consts json");
    for k in unit * CHUNK..((unit + 1) * CHUNK).min(ls.len()) {
        let l = &ls[k];
        cx.states += 1;
        let inp0 = json!({"rules": l});
        for (i, (n, c)) in consts[k].iter().enumerate() {
            let want = if i < l.len() { i + 2 } else { i - l.len() };
            if *c != want { return cx.fail(format!("{l:?} const"), inp0, format!("constant {n} is {c}, expected {want}")); }
        }
        let rs: Vec<(String, regex::Regex)> = l.iter().map(|(n, p)| (n.clone(), regex::Regex::new(p).expect("pool pattern"))).collect();
        let ws = l.iter().position(|x| x.0 == "WHITE_SPACE").map(|i| i + 2);
        let tx = texts(k, l, cx.tier);
        let cases: Vec<(usize, String, String)> = tx.iter().map(|s| (k, s.clone(), "wss".to_string())).chain(tx.iter().map(|s| (k, s.clone(), "0ss".to_string()))).chain(tx.iter().map(|s| (k, s.clone(), "1".to_string()))).collect();
        let got = match run_cases(&cx.scratch, &format!("{unit}"), &cases) { Ok(g) => g, Err(e) => return cx.fail(format!("{l:?}"), inp0, e) };
        for (c, g) in cases.iter().zip(&got) {
            cx.begin()?;
            cx.traces += 1;
            let inp = json!({"rules": l, "text": c.1, "requests": c.2});
            let key = format!("{l:?} {:?}", c.1);
            let (want, complete) = reference(&rs, &c.1);
            cx.transitions += want.len() as u64;
            for o in g.as_array().unwrap() { if !o["panic"].is_null() { return cx.fail(key, inp, format!("panic: {}", o["panic"])); } }
            if g.as_array().unwrap().len() != c.2.len() { return cx.fail(key, inp, "no answer"); }
            let list: Vec<GTok> = g[0]["l"].as_array().map(|v| v.iter().filter_map(gtok).collect()).unwrap_or_default();
            let expect: Vec<&GTok> = match c.2.as_bytes()[0] { b'w' => want.iter().collect(), b'0' => want.iter().filter(|t| Some(t.kind) != ws).collect(), _ => vec![] };
            let same = list.len() == expect.len() && list.iter().zip(&expect).all(|(a, b)| a.kind == b.kind && a.name == b.name && (a.text == b.text || a.kind == 1));
            if !same { return cx.fail(key, inp, format!("tokens {:?}, expected {:?}", list.iter().map(|t| (&t.name, &t.text)).collect::<Vec<_>>(), expect.iter().map(|t| (&t.name, &t.text)).collect::<Vec<_>>())); }
            if c.2.len() > 1 && (!g[1]["t"].is_null() || !g[2]["t"].is_null()) { return cx.fail(key, inp, "a token after the end or at an unmatchable character"); }
            if c.2 == "0ss" && !complete {
                let rest = &c.1[want.last().map_or(0, |t| t.stop)..];
                if !g[0]["out"].as_str().unwrap_or("").contains(rest) { return cx.fail(key, inp, "the unread rest is not printed"); }
            }
            cx.outcome(if complete { "matched completely" } else { "stopped at unmatchable text" });
        }
        cx.sample(if ws.is_some() { "with white space" } else { "without white space" }, || json!({"rules": l, "texts": tx.len()}));
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C11",
    rule: "Every rule list of up to 2 (thorough: 3) rules from a pool of overlapping patterns in every order, plus lists with awkward patterns, names and sizes: rendered with the real template, compiled against the real runtime, and the compiled lexers run on every text up to a depth; compared with direct longest-match over the rule list.",
    bounds: |t| json!({"rule_lists": lists(t).len(), "pool": POOL.iter().map(|p| p.1).collect::<Vec<_>>(), "texts": "all sequences of <= 4 atoms (3 when more than 6 atoms) over the characters of the list's patterns and a foreign one"}),
    assumptions: &["the regex crate decides what a single pattern matches", "token names are usable as Rust constants (not Self)"],
    units, run, stall_s: 120, workers: 64,
};
fn main() {
    let t = if std::env::args().any(|a| a == "thorough") { Tier::Thorough } else { Tier::Quick };
    let t = match std::env::args().skip_while(|a| a != "--replay").nth(1) { Some(f) => if std::fs::read_to_string(f).map_or(false, |s| s.contains("\"tier\": \"thorough\"")) { Tier::Thorough } else { Tier::Quick }, None => t };
    prepare("C11", &lists(t));
    mc::engine::main(&DEF)
}
