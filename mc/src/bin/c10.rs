//! C10: positions, offsets, texts and sequence numbers of tokens.
#[path = "../adapt/genlex.rs"] mod genlex;
use genlex::*;
use mc::engine::*;
use mc::interpose::guarded;
use mc::lexref::{chars, nth_seq, seq_count};
use serde_json::{json, Value};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::{syntaxis::syntaxis_lexer::SyntaxisLexer as Hand, v1::syntaxis_lexer::SyntaxisLexer as V1L};

/// alphabets for the two built-in lexers: (name, atoms, quick depth, thorough depth)
fn families() -> Vec<(&'static str, Vec<&'static str>, usize, usize)> {
    vec![
        ("every kind of character", vec!["ab", "Bc", "7", " ", "\n", "\t", "\r", ":", "|", ";", "*", "?", "(", "#", "'", "/", "\\", "ε", "é", "字", "😀"], 3, 4),
        ("line structure", vec!["\n", "\r", " ", "ab", ";", "ε", "\u{c}", "\u{2028}"], 5, 6),
        ("multi-line and multi-byte slash literals and comments", vec!["/", "*", "\n", "é", "a", "😀", "\\"], 5, 6),
        ("comments and tokens", vec!["/*", "*/", "//", "\n", "ab", "é", ";", " "], 4, 6),
        ("multi-byte string literals", vec!["'", "é", "字", "😀", "\\n", "ab", " ", "\n"], 4, 6),
    ]
}
/// Generated lexers and their atoms.
fn gen_lists() -> Vec<(Rules, Vec<&'static str>)> {
    let own = |x: &[(&str, &str)]| -> Rules { x.iter().map(|(a, b)| (a.to_string(), format!("^({b})"))).collect() };
    vec![
        (own(&[("LETTERS", "[a-zé字]+"), ("WHITE_SPACE", "[ \\n\\r\\t]+")]), vec!["a", "é", "字", " ", "\n", "\r", "!"]),
        (own(&[("ANY", "(?s).")]), vec!["a", "\n", "é", "😀", "\r"]),
        (own(&[("LINE", "[^\\n]*\\n"), ("REST", "[^\\n]+")]), vec!["a", "\n", "é", "\r", "\n\n"]),
        (own(&[("BLOCK", "(?s)<.*?>"), ("NL", "\\n"), ("WORD", "[a-z]+"), ("WHITE_SPACE", " ")]), vec!["<", ">", "\n", "é", "a", " "]),
        (own(&[("EMPTY", ""), ("EMPTY2", "b*"), ("AA", "a")]), vec!["a", "b", "\n", "c"]),
    ]
}
const CHUNK: usize = 256;
fn fam_units(n: usize) -> usize { (n + CHUNK - 1) / CHUNK }
fn gen_depth(t: Tier) -> usize { t.pick(4, 6) }
fn units(t: Tier) -> usize {
    families().iter().map(|f| fam_units(seq_count(f.1.len(), t.pick(f.2, f.3)))).sum::<usize>() + gen_lists().iter().map(|g| fam_units(seq_count(g.1.len(), gen_depth(t)))).sum::<usize>() + char_units(t) + 7 + 1 + RUN_UNITS + TURN_UNITS
}
/// Tokens and white space over many line breaks: body repeated, then a tail without a line break, in every surrounding.
const RUN_UNITS: usize = 16;
fn runs(t: Tier, i: usize) -> Vec<String> {
    let mut v = vec![];
    for (k, n) in (0..=t.pick(40, 130)).chain([255usize, 256, 257, 1023]).enumerate() {
        if k % RUN_UNITS != i { continue; }
        for body in ["\n", "\r\n", " \n", "\né", "\n\t", "a\n", "\n//\n", "é", " ", "\u{c}"] {
            for tail in ["", " ", "   ", "\r", "\t\u{c}", "é", "\n", " \n "] {
                for (open, close) in [("", ""), ("ab", "cd"), ("ab;", ";"), ("/", "/;ab"), ("/*", "*/ab"), ("ab /", "/ ab\n"), ("é/*\n", "*/\r\nab")] { v.push(format!("{open}{}{tail}{close}", body.repeat(n))); }
            }
        }
    }
    v
}
fn char_units(t: Tier) -> usize { fam_units(chars(t.pick(0x300, 0x10000)).len()) }

fn conv(t: &Token) -> GTok { GTok { kind: t.token_type, name: t.token_name.clone(), text: t.text.clone(), line: t.start.line, col: t.start.char_position, line2: t.stop.line, col2: t.stop.char_position, channel: t.channel, index: t.token_index, start: t.char_start_index, stop: t.char_stop_index } }
fn scan_all(l: &mut dyn Lexer, cap: usize) -> Vec<GTok> { let mut v = vec![]; while let Ok(t) = l.scan() { v.push(conv(&t)); if v.len() > cap { break; } } v }

fn short(s: &str) -> String { s.chars().take(60).collect() }
/// What the statement says about a sequence of tokens delivered one by one.
fn verify(text: &str, toks: &[GTok], has_end: bool) -> Result<(), String> {
    let (mut at, mut here) = (0, (0usize, 0usize));
    for (i, t) in toks.iter().enumerate() {
        if t.index != i { return Err(format!("token {i} has sequence number {}", t.index)); }
        let is_end = has_end && t.kind == 1 && at == text.len();
        if t.start != at { return Err(format!("token {i} {:?} starts at offset {}, expected {at}", t.text, t.start)); }
        if t.stop < t.start || t.stop > text.len() { return Err(format!("token {i} {:?} stops at offset {}, input length {}", t.text, t.stop, text.len())); }
        if is_end { if t.stop != at { return Err("the end token is not empty".into()); } if i + 1 != toks.len() { return Err("tokens after the end token".into()); } }
        else {
            if t.stop == t.start { return Err(format!("token {i} is empty")); }
            if text.get(t.start..t.stop) != Some(&t.text[..]) { return Err(format!("token {i}: offsets {}..{} do not slice the input to its text {:?}", t.start, t.stop, t.text)); }
        }
        let a = here;
        for x in &text.as_bytes()[t.start..t.stop] { if *x == b'\n' { here = (here.0 + 1, 0); } else { here.1 += 1; } }
        let b = here;
        if (t.line, t.col) != a { return Err(format!("token {i} {:?} starts at line/column {:?}, expected {a:?}", short(&t.text), (t.line, t.col))); }
        if (t.line2, t.col2) != b { return Err(format!("token {i} {:?} stops at line/column {:?}, expected {b:?}", short(&t.text), (t.line2, t.col2))); }
        at = t.stop;
    }
    Ok(())
}

fn judge(cx: &mut Ctx, who: &str, text: &str, toks: Result<Vec<GTok>, String>, has_end: bool) -> Res {
    cx.traces += 1;
    let key = format!("{who} {text:?}");
    let inp = || -> Value { json!({"lexer": who, "text": short(text), "length": text.len()}) };
    let toks = match toks { Ok(t) => t, Err(p) => return cx.fail(key, inp(), format!("panic: {p}")) };
    cx.transitions += toks.len() as u64;
    if let Err(e) = verify(text, &toks, has_end) { return cx.fail(key, inp(), e); }
    let multi = toks.iter().any(|t| t.line2 > t.line && t.kind != 1);
    cx.outcome(if multi { "has a token spanning lines" } else if toks.iter().any(|t| !t.text.is_ascii()) { "has a multi-byte token" } else { "plain" });
    if toks.len() > 3 && multi { cx.sample(who, || json!({"text": text, "tokens": toks.iter().map(|t| json!([t.name, t.start, t.stop, t.line, t.col])).collect::<Vec<_>>()})); }
    Ok(())
}

fn builtin(cx: &mut Ctx, text: &str) -> Res {
    cx.states += 1;
    let cap = text.len() + 3;
    cx.begin()?;
    let (h, _) = guarded(|| scan_all(&mut Hand::new(text), cap));
    judge(cx, "hand-written", text, h.clone(), false)?;
    cx.begin()?;
    let (v, _) = guarded(|| scan_all(&mut V1L::new(text), cap));
    judge(cx, "shipped", text, v.clone(), true)?;
    // collecting delivers the same tokens, fields included, minus the skipped ones
    cx.begin()?;
    let (mut h, mut v) = (h.unwrap(), v.unwrap());
    v.retain(|t| t.kind != V1L::WHITE_SPACE);
    h.retain(|t| ![Hand::WS, Hand::LINE_COMMENT, Hand::BLOCK_COMMENT].contains(&t.kind));
    let (col, _) = guarded(|| V1L::new(text).scan_all_on_channel_tokens(0).iter().map(conv).collect::<Vec<_>>());
    if col.as_ref() != Ok(&v) { return cx.fail(format!("collect shipped {text:?}"), json!({"lexer": "shipped", "text": text}), "collected tokens differ from the ones delivered one by one"); }
    let (col, _) = guarded(|| Hand::new(text).scan_all_on_channel_tokens(0).iter().map(conv).collect::<Vec<_>>());
    if col.as_ref() != Ok(&h) { return cx.fail(format!("collect hand {text:?}"), json!({"lexer": "hand-written", "text": text}), "collected tokens differ from the ones delivered one by one"); }
    cx.traces += 2;
    Ok(())
}

/// Two lexers taking turns: every merge of three requests to each, the second one made before or after the first begins.
/// Every request must be answered as if the other lexer did not exist.
const TURN_TEXTS: [&str; 8] = ["", "ab", "ab cd", "\n\nab;", "'é\nx'; ab", " ; ", "AA: /a/;", "!"];
const TURN_UNITS: usize = 2 * TURN_TEXTS.len();
const MERGES: [u8; 20] = { let mut v = [0u8; 20]; let (mut m, mut k) = (0u8, 0); while m < 64 { if m.count_ones() == 3 { v[k] = m; k += 1; } m += 1; } v };
fn participant(i: usize) -> Box<dyn Lexer> { let t = TURN_TEXTS[i / 2]; if i % 2 == 0 { Box::new(Hand::new(t)) } else { Box::new(V1L::new(t)) } }
fn ask(l: &mut dyn Lexer) -> Option<GTok> { l.scan().ok().map(|t| conv(&t)) }
fn turns(cx: &mut Ctx, a: usize) -> Res {
    let alone = |i: usize| { let mut l = participant(i); (0..3).map(|_| ask(&mut *l)).collect::<Vec<_>>() };
    for b in 0..TURN_UNITS {
        let want = match guarded(|| [alone(a), alone(b)]).0 { Ok(w) => w, Err(e) => return cx.fail(format!("alone {a} {b}"), json!({"texts": [TURN_TEXTS[a / 2], TURN_TEXTS[b / 2]]}), format!("panic: {e}")) };
        for m in MERGES { for late in [false, true] {
            cx.begin()?; cx.states += 1; cx.traces += 1; cx.transitions += 6;
            let key = format!("turns {a} {b} {m:06b} {late}");
            let inp = json!({"lexers": (([a, b]).map(|i| (["hand-written", "shipped"][i % 2], TURN_TEXTS[i / 2]))), "turns": format!("{m:06b}"), "second_made_late": late});
            let got = guarded(|| {
                let mut l: [Option<Box<dyn Lexer>>; 2] = [Some(participant(a)), if late { None } else { Some(participant(b)) }];
                let mut got: [Vec<Option<GTok>>; 2] = [vec![], vec![]];
                for i in 0..6 { let w = (m >> i & 1) as usize; let x = l[w].get_or_insert_with(|| participant(b)); got[w].push(ask(&mut **x)); }
                got
            }).0;
            match got { Err(e) => return cx.fail(key, inp, format!("panic: {e}")), Ok(g) => if g != want { return cx.fail(key, inp, "answers differ from those given when the lexers are used one after the other"); } }
        } }
        cx.outcome("two lexers in turns");
    }
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    for (_, al, q, th) in families() {
        let n = seq_count(al.len(), cx.tier.pick(q, th));
        if u < fam_units(n) {
            for i in u * CHUNK..((u + 1) * CHUNK).min(n) { builtin(cx, &nth_seq(i, al.len()).into_iter().map(|x| al[x]).collect::<String>())?; }
            return Ok(());
        }
        u -= fam_units(n);
    }
    for (k, (rules, al)) in gen_lists().into_iter().enumerate() {
        let n = seq_count(al.len(), gen_depth(cx.tier));
        if u < fam_units(n) {
            cx.begin()?;
            // whether a generated lexer compiles is another property's question
            if let Err(v) = binary() { cx.count("generated lexers not available", 1); let _ = v; return Ok(()); }
            let cases: Vec<(usize, String, String)> = (u * CHUNK..((u + 1) * CHUNK).min(n)).map(|i| (k, nth_seq(i, al.len()).into_iter().map(|x| al[x]).collect(), "w".to_string())).collect();
            let got = match run_cases(&cx.scratch, &unit.to_string(), &cases) { Ok(g) => g, Err(e) => return cx.fail(format!("generated {k}"), json!({"rules": rules}), e) };
            for (c, g) in cases.iter().zip(&got) {
                cx.begin()?; cx.states += 1;
                let r = if !g[0]["panic"].is_null() { Err(g[0]["panic"].to_string()) } else { Ok(g[0]["l"].as_array().unwrap().iter().filter_map(gtok).collect()) };
                judge(cx, &format!("generated from {rules:?}"), &c.1, r, true)?;
            }
            return Ok(());
        }
        u -= fam_units(n);
    }
    if u < char_units(cx.tier) {
        for c in chars(cx.tier.pick(0x300, 0x10000)).into_iter().skip(u * CHUNK).take(CHUNK) { builtin(cx, &format!("/{c}\n{c}{c}/ /*{c}\n{c}*/ //{c}\n'{c}' ab"))?; builtin(cx, &format!("ab{c};"))?; }
        return Ok(());
    }
    u -= char_units(cx.tier);
    const HUGE: [&str; 7] = ["ab\n", "é;", "'字'\n ", "", "é", "x\n", "ab  "];
    if u < HUGE.len() {
        let a = HUGE[u];
        // many tokens, or one long token
        return builtin(cx, &match u { 3 => format!("{}ab ;\n ab", " ".repeat(70_000)), 4 => format!("'{}' ab\n;", a.repeat(70_000)), 5 => format!("/{}/ ab\n;", a.repeat(70_000)), 6 => format!("{}\nab", a.repeat(280_000)), _ => a.repeat(70_000) + "ab\n;" });
    }
    u -= HUGE.len();
    if u < RUN_UNITS { for text in runs(cx.tier, u) { builtin(cx, &text)?; } return Ok(()); }
    u -= RUN_UNITS;
    if u < TURN_UNITS { return turns(cx, u); }
    // long inputs
    for n in (1..=130usize).chain([255, 256, 257, 1000, 4000]) { for a in ["ab\n", "é;", "'字'\n ", "/x\ny/", "/*\n*/", "// é\n", "\n", " ", "ab CD\r\n"] { builtin(cx, &a.repeat(n))?; builtin(cx, &format!("ab\n{};", a.repeat(n)))?; } }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C10",
    rule: "Every text that is a sequence of atoms up to a depth over five alphabets (line structure, multi-line and multi-byte tokens), for the hand-written and the shipped lexer, and over per-lexer alphabets for five lexers generated from the template; every field of every token checked against the input itself.",
    bounds: |t| json!({"turns": format!("two lexers of {} kinds and texts, 3 requests each, all 20 merges, second made early or late", TURN_UNITS), "builtin": families().iter().map(|f| json!({"family": f.0, "atoms": f.1.len(), "max_atoms": t.pick(f.2, f.3)})).collect::<Vec<_>>(), "generated": gen_lists().iter().map(|g| json!({"rules": g.0, "max_atoms": gen_depth(t)})).collect::<Vec<_>>(), "characters": "every character (as in C09) inside literals, comments and names", "long_inputs": "9 repeated pieces, 1 to 130, 255 to 257, 1000 and 4000 repetitions; 6 inputs of 70000 tokens or characters"}),
    assumptions: &["columns and offsets are in bytes"],
    units, run, stall_s: 60, workers: 64,
};
fn main() {
    prepare("C10", &gen_lists().into_iter().map(|g| g.0).collect::<Vec<_>>());
    mc::engine::main(&DEF)
}
