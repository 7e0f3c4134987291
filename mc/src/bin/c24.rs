//! C24: shipped front end vs. shipped description vs. documented notation; and the command-line program.
#[path = "../adapt/desc.rs"] mod desc;
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/parse.rs"] mod parse;
#[path = "../adapt/front.rs"] mod front;
#[path = "../adapt/genlex.rs"] mod genlex;
#[path = "../adapt/browser.rs"] mod browser;
use front::*;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use mc::lexref::{lex, nth_seq, seq_count, V1};
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer as VL, syntaxis_parser::SyntaxisParser as VP};

const DESCRIPTION: &str = "/repo/src/tool/syntaxis/syntaxis2.json";
fn described() -> Result<desc::Pipe, String> {
    let (ast, _) = guarded(|| syntaxis::tool::serde_ast::from_reader(std::fs::File::open(DESCRIPTION).expect("shipped description")).map_err(|_| "the shipped description does not load".to_string()));
    let ast = ast.map_err(|p| format!("loading panicked: {p}"))??;
    desc::pipeline(&ast).0.map_err(|e| format!("translating panicked: {e}"))
}

/// The documented notation, written down independently of the description.
fn notation() -> Cfg {
    use Sym::{N, T};
    let p = |l: usize, r: &[Sym]| Prod { l, r: r.to_vec() };
    // 0..8 as documented; helpers: 9 alternatives' rest, 10 elements, 11 optional suffix, 12 optional question
    Cfg { nts: (0..13).collect(), ts: (2..16).collect(), prods: vec![
        p(0, &[]), p(0, &[N(1), N(0)]), p(0, &[N(7), N(0)]),
        p(1, &[T(RULE_REF), T(COLON), N(2), T(SEMI)]),
        p(2, &[N(3), N(9)]), p(9, &[]), p(9, &[T(OR), N(3), N(9)]),
        p(3, &[N(5), N(10)]), p(3, &[N(4)]), p(10, &[]), p(10, &[N(5), N(10)]),
        p(4, &[T(EPSILON)]),
        p(5, &[T(TOKEN_REF), N(11)]), p(5, &[T(STRING), N(11)]), p(5, &[T(RULE_REF), N(11)]), p(5, &[T(LPAREN), N(2), T(RPAREN), N(11)]),
        p(11, &[]), p(11, &[N(6)]),
        p(6, &[T(STAR), N(12)]), p(6, &[T(PLUS), N(12)]), p(6, &[T(QUESTION), N(12)]), p(12, &[]), p(12, &[T(QUESTION)]),
        p(7, &[T(TOKEN_REF), T(COLON), N(8), T(SEMI)]), p(8, &[T(REGULAR)]),
    ] }
}

/// Reference parser of grammar texts: plain recursive descent over (kind, text).
struct Rd<'a> { t: &'a [(usize, String)], i: usize }
impl Rd<'_> {
    fn peek(&self) -> usize { self.t.get(self.i).map_or(1, |x| x.0) }
    fn eat(&mut self, k: usize, ch: &mut Vec<PT>) -> Option<()> { if self.peek() != k { return None; } ch.push(PT::L(k, self.t[self.i].1.clone())); self.i += 1; Some(()) }
    fn list(&mut self) -> Option<PT> { let mut c = vec![]; while self.i < self.t.len() { c.push(if self.peek() == RULE_REF { self.prule()? } else { self.lrule()? }); } Some(PT::N(0, c)) }
    fn prule(&mut self) -> Option<PT> { let mut c = vec![]; self.eat(RULE_REF, &mut c)?; self.eat(COLON, &mut c)?; c.push(self.block()?); self.eat(SEMI, &mut c)?; Some(PT::N(1, c)) }
    fn lrule(&mut self) -> Option<PT> { let mut c = vec![]; self.eat(TOKEN_REF, &mut c)?; self.eat(COLON, &mut c)?; let mut r = vec![]; self.eat(REGULAR, &mut r)?; c.push(PT::N(8, r)); self.eat(SEMI, &mut c)?; Some(PT::N(7, c)) }
    fn block(&mut self) -> Option<PT> { let mut c = vec![self.alt()?]; while self.peek() == OR { self.eat(OR, &mut c)?; c.push(self.alt()?); } Some(PT::N(2, c)) }
    fn alt(&mut self) -> Option<PT> {
        if self.peek() == EPSILON { let mut c = vec![]; self.eat(EPSILON, &mut c)?; return Some(PT::N(3, vec![PT::N(4, c)])); }
        let mut c = vec![self.elem()?]; while matches!(self.peek(), TOKEN_REF | STRING | RULE_REF | LPAREN) { c.push(self.elem()?); } Some(PT::N(3, c))
    }
    fn elem(&mut self) -> Option<PT> {
        let mut c = vec![];
        match self.peek() { LPAREN => { self.eat(LPAREN, &mut c)?; c.push(self.block()?); self.eat(RPAREN, &mut c)?; } k @ (TOKEN_REF | STRING | RULE_REF) => self.eat(k, &mut c)?, _ => return None }
        if let k @ (STAR | PLUS | QUESTION) = self.peek() { let mut s = vec![]; self.eat(k, &mut s)?; if self.peek() == QUESTION { self.eat(QUESTION, &mut s)?; } c.push(PT::N(6, s)); }
        Some(PT::N(5, c))
    }
}
fn reference_tree(text: &str) -> Option<PT> {
    let (toks, _) = lex(&V1, text);
    let t: Vec<(usize, String)> = toks.into_iter().filter(|t| t.kind != 15).map(|t| (t.kind, t.text)).collect();
    Rd { t: &t, i: 0 }.list()
}
fn as_context(t: &PT) -> RuleContext {
    let PT::N(n, ch) = t else { unreachable!() };
    RuleContext { rule_index: *n, rule_name: RNAMES[*n].into(), children: ch.iter().map(|c| match c { PT::N(..) => ASTContext::Rule(as_context(c)), PT::L(k, s) => ASTContext::Terminal(TerminalContext { symbol: Token::new(*k, KIND_NAMES[*k], s) }) }).collect() }
}

/// The program's built-in text: taken from its source where it stands as a raw string, else the text as shipped.
const BUILT_IN: &str = include_str!("../../builtin.txt");
fn built_in() -> String {
    let src = std::fs::read_to_string("/repo/src/main.rs").unwrap_or_default();
    let found: Vec<&str> = src.split("r####\"").skip(1).filter_map(|x| x.split_once("\"####").map(|y| y.0)).filter(|x| x.contains("rule_list")).collect();
    if found.len() == 1 { found[0].to_string() } else { BUILT_IN.to_string() }
}
/// Builds the unmodified program and the hash-seed library, once, in the top-level process.
fn prepare_program() {
    if std::env::args().any(|a| a == "--worker" || a == "--one") { return; }
    let dir = genlex::verif().join("mc/gen/c24_program");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("gen dir");
    let out = genlex::cargo_with(&dir, "gen_c24_program", "build", "[[bin]]\nname = \"gen_c24_program\"\npath = \"/repo/src/main.rs\"\n");
    if !out.status.success() { eprintln!("engine error: cannot build the program:\n{}", String::from_utf8_lossy(&out.stderr)); std::process::exit(2); }
    let so = genlex::verif().join("mc/target/hashseed.so");
    let st = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(genlex::verif().join("mc/c/seed.c")).status().expect("gcc");
    if !st.success() { eprintln!("engine error: cannot build the hash-seed library"); std::process::exit(2); }
    std::env::set_var("PROGRAM_BIN", genlex::verif().join("mc/target/release/gen_c24_program"));
    std::env::set_var("PROGRAM_SO", so);
}
fn copy_tree(from: &std::path::Path, to: &std::path::Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() { let t = to.join(e.file_name()); if e.path().is_dir() { copy_tree(&e.path(), &t) } else { std::fs::copy(e.path(), &t).unwrap(); } }
}
fn program(cx: &mut Ctx, seeds: std::ops::Range<u64>) -> Res {
    let text = built_in();
    let want = reference_tree(&text).map(|t| as_context(&t));
    let mut b = browser::Browser::start();
    let dir = cx.scratch.join(format!("program-{}", seeds.start));
    copy_tree(std::path::Path::new("/repo/src/tool"), &dir.join("src/tool"));
    for s in seeds {
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += 1;
        let doc = dir.join("parser2.html");
        // a longer document of an earlier run must not shine through
        if s % 2 == 0 { let _ = std::fs::remove_file(&doc); } else { std::fs::write(&doc, vec![b'z'; 400_000]).unwrap(); }
        let out = Command::new(std::env::var("PROGRAM_BIN").unwrap()).current_dir(&dir).env("LD_PRELOAD", std::env::var("PROGRAM_SO").unwrap()).env("HASH_SEED", s.to_string()).stdin(Stdio::null()).output().expect("run the program");
        let fail = |e: String| -> Res { Err(Viol { key: "program".into(), input: json!({"hash_seed": s}), detail: e }) };
        if !out.status.success() { return fail(format!("the program fails: {} {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())); }
        let Ok(d) = std::fs::read(&doc) else { return fail("the program writes no document".into()) };
        let Some(want) = &want else { return fail("the built-in text is not in the notation".into()) };
        if let Err(e) = browser::judge(&mut b, &d, want) { return fail(format!("the program's document is not the tree of its text: {e}")); }
        cx.outcome("program's document exact");
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

const ATOMS: [&str; 27] = ["ra", "AA", "a", "A", "9", "_", "::=", ":", "=", "->", "-", ">", ";", "|", "ε", "epsilon", "*", "+", "?", "(", ")", "'", "\\", "/", " ", "\n", "#"];
const CORE: [&str; 14] = ["'", "\\", "/", "a", "n", "u{1f}", "\u{c}", "\r\n", "é", "1", "\u{7}", "\t", "0x", "d"];
fn d_atoms(t: Tier) -> usize { t.pick(3, 4) }
fn d_core(t: Tier) -> usize { t.pick(4, 5) }
fn d_words(t: Tier) -> usize { t.pick(5, 6) }
fn vtok(t: &Token) -> Value { json!([t.token_type, t.token_name, t.text, t.start.line, t.start.char_position, t.stop.line, t.stop.char_position, t.channel, t.token_index, t.char_start_index, t.char_stop_index]) }

const S: usize = 64;
fn units(_: Tier) -> usize { 1 + 3 * S + 16 + 16 }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    if unit == 0 { return numbers(cx); }
    let (kind, k) = ((unit - 1) / S, (unit - 1) % S);
    match kind {
        0 => texts(cx, &ATOMS, d_atoms(cx.tier), k),
        1 => texts(cx, &CORE, d_core(cx.tier), k),
        2 => language(cx, k),
        _ if k >= 16 => { let v = characters(cx.tier); compare(cx, v.into_iter().skip(k - 16).step_by(16).collect()) }
        _ => { let n = cx.tier.pick(4, 40) as u64; program(cx, k as u64 * n..(k as u64 + 1) * n) }
    }
}
fn numbers(cx: &mut Ctx) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1;
    let p = match described() { Ok(p) => p, Err(e) => return cx.fail("load", json!({"file": DESCRIPTION}), e) };
    let f = |cx: &mut Ctx, e: String| cx.fail(e.clone(), json!({"file": DESCRIPTION}), e);
    macro_rules! c { ($t:ident: $($n:ident)*) => { vec![$((stringify!($n), $t::$n)),*] }; }
    let toks = c!(VL: _START _STOP RULE_REF TOKEN_REF COLON SEMI OR EPSILON STAR PLUS QUESTION LPAREN RPAREN STRING_LITERAL REGULAR_LITERAL WHITE_SPACE);
    let rules = c!(VP: RULE_LIST PARSER_RULE BLOCK ALTERNATIVE EPSILON ELEMENT EBNF_SUFFIX LEXER_RULE REGULAR);
    let v = &p.grammar.vocabulary;
    for (n, k) in &toks { if v.get_terminal_id_by_name(n) != Some(*k) { return f(cx, format!("token {n}: shipped number {k}, described {:?}", v.get_terminal_id_by_name(n))); } }
    for (n, k) in &rules { if v.get_nonterminal_id_by_name(&n.to_lowercase()) != Some(*k) { return f(cx, format!("rule {n}: shipped number {k}, described {:?}", v.get_nonterminal_id_by_name(&n.to_lowercase()))); } }
    if v.get_all_terminals().len() != toks.len() { return f(cx, format!("{} tokens described, {} shipped", v.get_all_terminals().len(), toks.len())); }
    let named = v.get_all_nonterminals().iter().filter(|r| v.get_nonterminal_name_by_id(**r).is_some()).count();
    if named != rules.len() { return f(cx, format!("{named} named rules described, {} shipped", rules.len())); }
    if p.data.len() != toks.len() - 2 { return f(cx, format!("{} token rules for {} tokens", p.data.len(), toks.len() - 2)); }
    if let Err(e) = Front::load() { return f(cx, e); }
    let t = reference_tree(&built_in());
    if t.is_none() { return f(cx, "the program's built-in text is not in the notation".into()); }
    cx.outcome("numbers agree");
    cx.sample("numbers", || json!({"tokens": toks, "rules": rules}));
    Ok(())
}
/// Single characters in every kind of place.
const PLACES: [(&str, &str); 6] = [("", ""), ("'", "'"), ("'\\", "'"), ("/", "/"), ("ab", "c"), ("'a", "b' ra: ;")];
fn characters(t: Tier) -> Vec<String> {
    let top = t.pick(0x500, 0x3000);
    let chars = (0..top).chain((top..0x11_0000).filter(|c| t.pick(c % 1024 < 2, c % 256 < 4))).chain([0x2028, 0x2029, 0x3000, 0xfeff, 0xfffd, 0x3b5, 0x1f600]).filter_map(char::from_u32);
    chars.flat_map(|c| PLACES.iter().map(move |p| format!("{}{c}{}", p.0, p.1))).collect()
}
fn texts(cx: &mut Ctx, atoms: &[&str], d: usize, k: usize) -> Res {
    compare(cx, (k..seq_count(atoms.len(), d)).step_by(S).map(|i| nth_seq(i, atoms.len()).into_iter().map(|a| atoms[a]).collect()).collect())
}
fn compare(cx: &mut Ctx, all: Vec<String>) -> Res {
    if let Err(e) = genlex::binary() { cx.begin()?; return cx.fail("generate", e.clone(), format!("no lexer can be generated from the shipped description: {e}")); }
    for (n, part) in all.chunks(4000).enumerate() {
        cx.begin()?;
        let cases: Vec<(usize, String, String)> = part.iter().map(|t| (0, t.clone(), "w".into())).collect();
        let fresh = match genlex::run_cases(&cx.scratch.clone(), &format!("{}_{n}", cx.unit), &cases) { Ok(v) => v, Err(e) => return cx.fail("generated lexer died", json!({}), e) };
        for (t, g) in part.iter().zip(&fresh) {
            cx.begin()?;
            cx.states += 1; cx.traces += 1; cx.transitions += g[0]["l"].as_array().map_or(0, |a| a.len() as u64);
            let (mine, _) = guarded(|| { let mut l = VL::new(t); let mut v = vec![]; while let Ok(x) = l.scan() { v.push(vtok(&x)); if v.len() > t.len() + 2 { break; } } v });
            let mine = match mine { Ok(v) => json!({"l": v}), Err(p) => json!({"panic": p}) };
            if mine != g[0] { return cx.fail(format!("text {t:?}"), json!({"text": t}), format!("shipped lexer {mine}, freshly generated {}", g[0])); }
            cx.outcome(if g[0]["l"].as_array().is_some_and(|a| a.last().is_some_and(|x| x[0] == 1)) { "matched to the end" } else { "unmatchable character" });
            if t.chars().count() > 4 { cx.sample("text", || json!(t)); }
        }
    }
    Ok(())
}
fn language(cx: &mut Ctx, k: usize) -> Res {
    cx.begin()?;
    let p = match described() { Ok(p) => p, Err(e) => return cx.fail("load", json!({"file": DESCRIPTION}), e) };
    let real = match desc::to_cfg(&p.grammar) { Ok(c) => c, Err(e) => return cx.fail("productions", json!({"file": DESCRIPTION}), e) };
    if (0..9).any(|r| !real.nts.contains(&r)) { return cx.fail("rules", json!({"file": DESCRIPTION}), "the description lacks a rule of the notation"); }
    let doc = notation();
    let judge = |cx: &mut Ctx, w: &[usize]| -> Res {
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += w.len() as u64;
        let (a, b) = (Chart::new(&real, w), Chart::new(&doc, w));
        for r in 0..9 { let (x, y) = (a.derives(r, 0, w.len()), b.derives(r, 0, w.len())); if x != y { let names: Vec<&str> = w.iter().map(|&t| KIND_NAMES[t]).collect(); return cx.fail(format!("{} {names:?}", RNAMES[r]), json!({"rule": RNAMES[r], "tokens": names}), format!("{} {names:?}: description says {x}, documented notation says {y}", RNAMES[r])); } }
        cx.outcome(if b.derives(0, 0, w.len()) { "a grammar text" } else { "not a grammar text" });
        Ok(())
    };
    for i in (k..seq_count(13, d_words(cx.tier))).step_by(S) { let w: Vec<usize> = nth_seq(i, 13).into_iter().map(|x| x + 2).collect(); judge(cx, &w)?; }
    // longer sentences, generated from either side
    for g in [&real, &doc] {
        if !g.is_ll1() { return cx.fail("ll1", json!({"file": DESCRIPTION}), "the described grammar is not LL(1)"); }
        let (ss, _) = parse::sentences(g, cx.tier.pick(9, 11), cx.tier.pick(40_000, 400_000));
        for w in ss.iter().skip(k).step_by(S) { judge(cx, w)?; if w.len() > 7 { cx.sample("sentence", || json!(w.iter().map(|&t| KIND_NAMES[t]).collect::<Vec<_>>())); } }
    }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C24",
    rule: "All token and rule constants against the numbers the shipped description yields; every text up to a length over two sets of pieces through the shipped lexer and through a lexer generated and compiled afresh from the description; every token string up to a length, and longer sentences generated from either side, judged for each of the nine rules by the description's productions and by the documented notation; the unmodified program run in a scratch directory under enumerated hash seeds, its document evaluated.",
    bounds: |t| json!({"characters": t.pick("U+0000..U+04FF and 2 of every 1024", "U+0000..U+2FFF and 4 of every 256"), "places_of_characters": PLACES, "pieces": ATOMS, "length": d_atoms(t), "delicate_pieces": CORE, "delicate_length": d_core(t), "token_strings": format!("all <= {} over 13 kinds", d_words(t)), "sentences": t.pick("length <= 9, first 40000", "length <= 11, first 400000"), "program_runs": 16 * t.pick(4, 40)}),
    assumptions: &["the documented notation is the grammar in the program's built-in text with element+ written as element element*", "the program's built-in text is found as a raw string in main.rs, else the shipped copy is used"],
    units, run, stall_s: 120, workers: 64,
};
fn main() {
    if !std::env::args().any(|a| a == "--worker" || a == "--one") {
        let rules: genlex::Rules = described().map(|p| p.data.iter().map(|d| (d.token_name.clone(), d.regex.clone())).collect()).unwrap_or_default();
        genlex::prepare("C24", &[rules]);
        prepare_program();
    }
    mc::engine::main(&DEF)
}
