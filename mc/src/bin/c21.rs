//! C21: a lexer is one cursor over its token sequence, for every sequence of requests.
#[path = "../adapt/genlex.rs"] mod genlex;
use genlex::*;
use mc::engine::*;
use mc::interpose::guarded;
use mc::lexref::{lex, nth_seq, seq_count, HAND, HAND_SKIP, V1, V1_SKIP};
use serde_json::{json, Value};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::{syntaxis::syntaxis_lexer::SyntaxisLexer as Hand, v1::syntaxis_lexer::SyntaxisLexer as V1L};

const ATOMS: [&str; 6] = ["ab", " ", ";", "!", "é", "//c\n"];
/// scan one; collect channel 0; collect channel 1
const OPS: [char; 3] = ['s', '0', '1'];
/// (text atoms, number of requests)
fn spaces(t: Tier) -> Vec<(usize, usize)> { t.pick(vec![(3, 4), (4, 3)], vec![(3, 6), (4, 5), (5, 3)]) }
fn gen_rules() -> Vec<Rules> {
    let own = |x: &[(&str, &str)]| -> Rules { x.iter().map(|(a, b)| (a.to_string(), format!("^({b})"))).collect() };
    vec![own(&[("WORD", "[a-z]+"), ("SEMI", ";|//c\n"), ("WHITE_SPACE", "[ \n]+")]), own(&[("WORD", "[a-z]+"), ("SPACE", " "), ("EMPTY", "x*")])]
}

/// What one request must answer.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Ans { Tok(usize, String), Fail, List(Vec<(usize, String)>) }

/// The model: a position in the delivered sequence. `end` = an end token follows when everything matched.
struct Model { toks: Vec<(usize, String)>, skip: Vec<usize>, at: usize, rest: String }
impl Model {
    fn new(mut toks: Vec<(usize, String)>, skip: &[usize], reached: usize, text: &str, end: bool) -> Model {
        if end && reached == text.len() { toks.push((1, "_STOP".into())); }
        Model { toks, skip: skip.to_vec(), at: 0, rest: text[reached..].to_string() }
    }
    fn step(&mut self, op: char) -> Ans {
        match op {
            's' => match self.toks.get(self.at) { Some(t) => { self.at += 1; Ans::Tok(t.0, t.1.clone()) } None => Ans::Fail },
            c => { let v = self.toks[self.at..].iter().filter(|t| c == '0' && !self.skip.contains(&t.0)).cloned().collect(); self.at = self.toks.len(); Ans::List(v) }
        }
    }
}
fn same(a: &Ans, b: &Ans) -> bool {
    let eq = |x: &(usize, String), y: &(usize, String)| x.0 == y.0 && (x.1 == y.1 || x.0 == 1);
    match (a, b) {
        (Ans::Fail, Ans::Fail) => true,
        (Ans::Tok(x, s), Ans::Tok(y, t)) => eq(&(*x, s.clone()), &(*y, t.clone())),
        (Ans::List(x), Ans::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq(p, q)),
        _ => false,
    }
}

fn play(cx: &mut Ctx, who: &str, text: &str, ops: &str, mut m: Model, answers: Vec<Result<(Ans, String), String>>) -> Res {
    cx.traces += 1;
    for (i, op) in ops.chars().enumerate() {
        cx.transitions += 1;
        let want = m.step(op);
        let inp = || -> Value { json!({"lexer": who, "text": text, "requests": ops, "request": i}) };
        let key = format!("{who} {text:?} {ops}");
        match answers.get(i) {
            None => return cx.fail(key, inp(), "no answer"),
            Some(Err(p)) => return cx.fail(key, inp(), format!("panic: {p}")),
            Some(Ok((got, printed))) => {
                if !same(got, &want) { return cx.fail(key, inp(), format!("request {i} ({op}) answered {got:?}, expected {want:?}")); }
                if op != 's' && !m.rest.is_empty() && !printed.contains(&m.rest) { return cx.fail(key, inp(), format!("collecting printed {printed:?}, not the unread rest {:?}", m.rest)); }
                cx.outcome(match (op, &want) { ('s', Ans::Fail) => if m.rest.is_empty() { "scan after the end" } else { "scan at unmatchable text" }, ('s', Ans::Tok(1, _)) => "end token", ('s', _) => "token", (_, Ans::List(v)) if v.is_empty() => "empty collection", _ => "collection" });
            }
        }
    }
    Ok(())
}

fn drive(l: &mut dyn Lexer, ops: &str) -> Vec<Result<(Ans, String), String>> {
    let mut v = vec![];
    for op in ops.chars() {
        let (r, out) = guarded(|| match op {
            's' => match l.scan() { Ok(t) => Ans::Tok(t.token_type, t.text), Err(_) => Ans::Fail },
            c => Ans::List(l.scan_all_on_channel_tokens(channel(c)).into_iter().map(|t| (t.token_type, t.text)).collect()),
        });
        let stop = r.is_err();
        v.push(r.map(|a| (a, String::from_utf8_lossy(&out).to_string())));
        if stop { break; }
    }
    v
}

/// Longer texts with longer request sequences: every way to scan some, collect, scan some, collect again, and go on.
const LONG: [&str; 6] = ["ab cd;ef|gh ", "ab  ;\n//c\n/*d*/ 'x' é cd ;", "ab cd ef gh ij kl mn op qr", ";;;;;;;;;;;;", " \n \t //c\n", "ab ;cd!ef ;"];
fn long_ops() -> Vec<String> {
    let mut v = vec!["s".repeat(40), "0".repeat(12), "1".repeat(12), "s0".repeat(10), "01".repeat(6), "s1".repeat(10), "ss0".repeat(8)];
    for i in 0..16 { for j in 0..4 { for (a, b) in [("0", "0"), ("0", "1"), ("1", "0"), ("1", "1"), ("2", "0"), ("3", "0"), ("4", "0")] { v.push(format!("{}{a}{}{b}{}", "s".repeat(i), "s".repeat(j), "ss00")); } } }
    v
}
/// Texts of every length, of one token, of many, over many lines, and with the unmatchable character last.
fn lengths() -> Vec<usize> { (5..=300).chain([511, 512, 513, 640, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]).collect() }
fn of_length(kind: usize, n: usize) -> String {
    match kind { 0 => "a".repeat(n), 1 => ";".repeat(n), 2 => "ab ".repeat(n)[..n].to_string(), 3 => ";\n".repeat(n)[..n].to_string(), 4 => "a".repeat(n - 1) + "!", 5 => " ".repeat(n), _ => "cd;\n".repeat(n)[..n - 2].to_string() + "!x" }
}
const KINDS: usize = 7;
fn length_ops(tokens: usize) -> Vec<String> {
    let t = tokens;
    vec!["s".repeat(t + 5), "0sss0".into(), format!("{}0ss1s", "s".repeat(t / 2)), format!("{}0s0s", "s".repeat(t))]
}
const LEN_UNITS: usize = 64;
fn by_length(cx: &mut Ctx, unit: usize) -> Res {
    let pr = |v: Vec<mc::lexref::Tok>| v.into_iter().map(|t| (t.kind, t.text)).collect::<Vec<_>>();
    let mut gen_cases = vec![];
    for n in lengths().into_iter().skip(unit).step_by(LEN_UNITS) { for kind in 0..KINDS {
        let text = of_length(kind, n);
        cx.states += 1;
        let ((ht, hr), (vt, vr)) = (lex(&HAND, &text), lex(&V1, &text));
        let (ht, vt) = (pr(ht), pr(vt));
        for o in length_ops(ht.len()) { cx.begin()?; play(cx, "hand-written", &text, &o, Model::new(ht.clone(), &HAND_SKIP, hr, &text, false), drive(&mut Hand::new(&text), &o))?; }
        for o in length_ops(vt.len()) { cx.begin()?; play(cx, "shipped", &text, &o, Model::new(vt.clone(), &V1_SKIP, vr, &text, true), drive(&mut V1L::new(&text), &o))?; if n <= 300 { gen_cases.push((0, text.clone(), o)); } }
    } }
    generated(cx, &format!("len{unit}"), gen_cases)
}
/// Two lexers alive at the same time: every interleaving of their requests.
const DUET: [&str; 5] = ["ab ;", "ab!", ";é", "", ";ab\n//c\n;"];
const DUET_PAIRS: [(bool, bool); 3] = [(false, false), (false, true), (true, true)];
fn duet_ops(t: Tier) -> usize { t.pick(4, 6) }
fn duet(cx: &mut Ctx, a: &str, b: &str, kinds: (bool, bool)) -> Res {
    let n = duet_ops(cx.tier);
    let lexer = |v1: bool, t: &str| -> Box<dyn Lexer> { if v1 { Box::new(V1L::new(t)) } else { Box::new(Hand::new(t)) } };
    let name = |v1: bool| if v1 { "shipped" } else { "hand-written" };
    let model = |v1: bool, t: &str| { let (l, r) = if v1 { lex(&V1, t) } else { lex(&HAND, t) }; Model::new(l.into_iter().map(|t| (t.kind, t.text)).collect(), if v1 { &V1_SKIP } else { &HAND_SKIP }, r, t, v1) };
    cx.states += 1;
    for code in 0..4usize.pow(n as u32) {
        cx.begin()?;
        let (mut x, mut y) = (lexer(kinds.0, a), lexer(kinds.1, b));
        let (mut ox, mut oy) = (String::new(), String::new());
        let (mut ax, mut ay) = (vec![], vec![]);
        let mut k = code; let mut order = String::new();
        for _ in 0..n {
            let op = OPS[k % 4 % 2]; let first = k % 4 < 2; k /= 4;
            order.push(if first { 'A' } else { 'B' });
            if first { ox.push(op); ax.extend(drive(&mut *x, &op.to_string())); } else { oy.push(op); ay.extend(drive(&mut *y, &op.to_string())); }
        }
        if ox.is_empty() || oy.is_empty() { continue; }
        play(cx, &format!("{} (A of {order}, B: {} on {b:?} {oy})", name(kinds.0), name(kinds.1)), a, &ox, model(kinds.0, a), ax)?;
        play(cx, &format!("{} (B of {order}, A: {} on {a:?} {ox})", name(kinds.1), name(kinds.0)), b, &oy, model(kinds.1, b), ay)?;
    }
    Ok(())
}

/// channel numbers behind the request letters
fn channel(c: char) -> usize { match c { '2' => 256, '3' => 1 << 32, '4' => usize::MAX, _ => c.to_digit(10).unwrap() as usize } }
const CHUNK: usize = 8;
fn nth_text(i: usize) -> String { nth_seq(i, ATOMS.len()).into_iter().map(|x| ATOMS[x]).collect() }
fn all_ops(n: usize) -> Vec<String> { let base = seq_count(3, n - 1); (base..seq_count(3, n)).map(|i| nth_seq(i, 3).into_iter().map(|x| OPS[x]).collect()).collect() }
fn sp_units(s: &(usize, usize)) -> usize { (seq_count(ATOMS.len(), s.0) + CHUNK - 1) / CHUNK }
fn units(t: Tier) -> usize { spaces(t).iter().map(sp_units).sum::<usize>() + LONG.len() * 8 + duets() + LEN_UNITS }
fn duets() -> usize { DUET.len() * DUET.len() * DUET_PAIRS.len() }

/// The same requests on the lexers generated for this check.
fn generated(cx: &mut Ctx, tag: &str, gen_cases: Vec<(usize, String, String)>) -> Res {
    cx.begin()?;
    if binary().is_err() { cx.count("generated lexers not available", 1); return Ok(()); }
    let rules: Vec<Vec<(String, regex::Regex)>> = gen_rules().iter().map(|l| l.iter().map(|(n, p)| (n.clone(), regex::Regex::new(p).unwrap())).collect()).collect();
    let got = match run_cases(&cx.scratch, tag, &gen_cases) { Ok(g) => g, Err(e) => return cx.fail("generated", json!({"rules": gen_rules()}), e) };
    for (c, g) in gen_cases.iter().zip(&got) {
        cx.begin()?;
        let (toks, complete) = reference(&rules[c.0], &c.1);
        let toks: Vec<(usize, String)> = toks.into_iter().filter(|t| t.kind != 1).map(|t| (t.kind, t.text)).collect();
        let reached = if complete { c.1.len() } else { toks.iter().map(|t| t.1.len()).sum() };
        let skip: Vec<usize> = rules[c.0].iter().position(|r| r.0 == "WHITE_SPACE").map(|i| i + 2).into_iter().collect();
        let ans = g.as_array().unwrap().iter().map(|o| {
            if !o["panic"].is_null() { return Err(o["panic"].to_string()); }
            if let Some(l) = o["l"].as_array() { return Ok((Ans::List(l.iter().filter_map(gtok).map(|t| (t.kind, t.text)).collect()), o["out"].as_str().unwrap_or("").to_string())); }
            Ok((match gtok(&o["t"]) { Some(t) => Ans::Tok(t.kind, t.text), None => Ans::Fail }, String::new()))
        }).collect();
        play(cx, &format!("generated {}", c.0), &c.1, &c.2, Model::new(toks, &skip, reached, &c.1, true), ans)?;
    }
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    for s in spaces(cx.tier) {
        if u < sp_units(&s) {
            let ops = all_ops(s.1);
            let mut gen_cases = vec![];
            for i in u * CHUNK..((u + 1) * CHUNK).min(seq_count(ATOMS.len(), s.0)) {
                let text = nth_text(i);
                cx.states += 1;
                let (ht, hr) = lex(&HAND, &text); let (vt, vr) = lex(&V1, &text);
                let pr = |v: &Vec<mc::lexref::Tok>| v.iter().map(|t| (t.kind, t.text.clone())).collect::<Vec<_>>();
                for o in &ops {
                    cx.begin()?;
                    let a = drive(&mut Hand::new(&text), o);
                    play(cx, "hand-written", &text, o, Model::new(pr(&ht), &HAND_SKIP, hr, &text, false), a)?;
                    cx.begin()?;
                    let a = drive(&mut V1L::new(&text), o);
                    play(cx, "shipped", &text, o, Model::new(pr(&vt), &V1_SKIP, vr, &text, true), a)?;
                    for k in 0..gen_rules().len() { gen_cases.push((k, text.clone(), o.clone())); }
                }
                if text.contains('!') && text.starts_with("ab") { cx.sample("stops at unmatchable text", || json!({"text": text, "request_sequences": ops.len()})); }
            }
            return generated(cx, &unit.to_string(), gen_cases);
        }
        u -= sp_units(&s);
    }
    if u >= LONG.len() * 8 + duets() { return by_length(cx, u - LONG.len() * 8 - duets()); }
    if u >= LONG.len() * 8 { let i = u - LONG.len() * 8; let d = DUET.len(); return duet(cx, DUET[i % d], DUET[i / d % d], DUET_PAIRS[i / d / d]); }
    let text = LONG[u / 8];
    let pr = |v: Vec<mc::lexref::Tok>| v.into_iter().map(|t| (t.kind, t.text)).collect::<Vec<_>>();
    cx.states += 1;
    for o in long_ops().iter().skip(u % 8).step_by(8) {
        cx.begin()?;
        let (t, r) = lex(&HAND, text);
        play(cx, "hand-written", text, o, Model::new(pr(t), &HAND_SKIP, r, text, false), drive(&mut Hand::new(text), o))?;
        cx.begin()?;
        let (t, r) = lex(&V1, text);
        play(cx, "shipped", text, o, Model::new(pr(t), &V1_SKIP, r, text, true), drive(&mut V1L::new(text), o))?;
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C21",
    rule: "Every text up to a number of atoms (tokens, white space, comment, two unmatchable characters) x every sequence of requests (one token, collect channel 0, collect channel 1) up to a length, on the hand-written lexer, the shipped lexer and two lexers generated from the template; texts of every length up to 300 and of larger ones in seven kinds; every interleaving of requests to two lexers alive at once; each answer and printed rest compared with a cursor model.",
    bounds: |t| json!({"atoms": ATOMS, "spaces_(text_atoms,requests)": spaces(t), "generated": gen_rules(), "long_texts": LONG, "long_request_sequences": long_ops().len(), "lengths": "5..=300, 511..513, 640, 1000, 1023..1025, 2048, 4095..4097 x 7 kinds of text x 4 request sequences", "two_lexers_at_once": {"texts": DUET, "interleaved_requests": duet_ops(t)}}),
    assumptions: &[],
    units, run, stall_s: 60, workers: 64,
};
fn main() { prepare("C21", &gen_rules()); mc::engine::main(&DEF) }
