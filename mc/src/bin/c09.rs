//! C09: both lexers split every text by longest match / first kind, with the right kind numbers and names.
use mc::engine::*;
use mc::interpose::guarded;
use mc::lexref::*;
use serde_json::json;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::{syntaxis::syntaxis_lexer::SyntaxisLexer as Hand, v1::syntaxis_lexer::SyntaxisLexer as V1L};

/// (name, alphabet, quick depth, thorough depth)
fn families() -> Vec<(&'static str, Vec<&'static str>, usize, usize)> {
    vec![
        ("every kind of character", vec!["a", "B", "_", "7", " ", "\n", "\t", "\r", "\u{c}", ":", "=", "-", ">", "|", ";", "*", "+", "?", ".", "~", "(", ")", "#", "'", "/", "\\", "ε", "é", "\u{b}", "\u{7}", "٣", "字", "\u{a0}", "{", "%"], 3, 3),
        ("words and arrows", vec!["ab", "Ab", "x", "fragment", "epsilon", "ε", "_", "0", "::=", ":=", ":", "=", "->", "=>", "-", "..", "."], 3, 4),
        ("string literals", vec!["'", "\\", "n", "d", "u", "{", "0", "x", "f", "}", "A", "\n", " "], 4, 5),
        ("string literal interior", vec!["'", "\\\\", "\\'", "\\u{", "0x", "1f", "}", "'a", "\t", "é", "\\q", "٣"], 4, 5),
        ("slash literals and comments", vec!["/", "*", "\\", "a", "\n", " ", "\r"], 5, 6),
        ("comments around tokens", vec!["/*", "*/", "//", "\n", "ab", "/", "\\/", ";"], 4, 6),
        ("white space", vec![" ", "\t", "\r", "\n", "\u{c}", "ab", "\u{b}", "\u{2028}"], 4, 6),
    ]
}
const CHUNK: usize = 128;
fn units(t: Tier) -> usize { families().iter().map(|f| (seq_count(f.1.len(), t.pick(f.2, f.3)) + CHUNK - 1) / CHUNK).sum::<usize>() + char_units(t) + 1 }
/// every character: on its own, in an identifier, in literals, in comments
fn all_chars(t: Tier) -> Vec<char> { chars(t.pick(0x500, 0x10000)) }
fn char_units(t: Tier) -> usize { (all_chars(t).len() + CHUNK - 1) / CHUNK }
fn char_texts(c: char) -> [String; 5] { [format!("{c} ab"), format!("aB{c};"), format!("Z{c}'{c}' ab"), format!("/{c}/ /*{c}*/ //{c}\nab"), format!("'\\{c}' ;")] }

fn scan_all(l: &mut dyn Lexer, cap: usize) -> Vec<Token> { let mut v = vec![]; while let Ok(t) = l.scan() { v.push(t); if v.len() > cap { break; } } v }

fn check(cx: &mut Ctx, text: &str) -> Res {
    for (name, kinds) in [("hand-written", &HAND[..]), ("shipped", &mc::lexref::V1[..])] {
        cx.begin()?;
        cx.traces += 1;
        let (want, end) = lex(kinds, text);
        let cap = text.len() + 3;
        let (r, _) = guarded(|| if name == "shipped" { scan_all(&mut V1L::new(text), cap) } else { scan_all(&mut Hand::new(text), cap) });
        let inp = json!({"lexer": name, "text": text});
        let key = format!("{name} {text:?}");
        let mut got = match r { Ok(v) => v, Err(p) => return cx.fail(key, inp, format!("panic: {p}")) };
        if name == "shipped" && end == text.len() && got.last().map(|t| t.token_type) == Some(1) { got.pop(); }
        cx.transitions += want.len() as u64;
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.token_type == w.kind && g.token_name == w.name && g.text == w.text);
        if !same { return cx.fail(key, inp, format!("tokens {:?}, expected {:?}", got.iter().map(|t| (t.token_type, &t.token_name, &t.text)).collect::<Vec<_>>(), want.iter().map(|t| (t.kind, t.name, &t.text)).collect::<Vec<_>>())); }
        for w in &want { cx.outcome(w.name); }
        if end < text.len() { cx.outcome("(unmatchable)"); }
        if want.len() >= 3 { cx.sample(name, || json!({"text": text, "tokens": want.iter().map(|t| t.name).collect::<Vec<_>>()})); }
    }
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let mut u = unit;
    for (_, al, q, th) in families() {
        let n = seq_count(al.len(), cx.tier.pick(q, th));
        let k = (n + CHUNK - 1) / CHUNK;
        if u < k {
            for i in u * CHUNK..((u + 1) * CHUNK).min(n) {
                let text: String = nth_seq(i, al.len()).into_iter().map(|x| al[x]).collect();
                cx.states += 1;
                check(cx, &text)?;
            }
            return Ok(());
        }
        u -= k;
    }
    if u < char_units(cx.tier) {
        for c in all_chars(cx.tier).into_iter().skip(u * CHUNK).take(CHUNK) { for t in char_texts(c) { cx.states += 1; cx.count("single-character texts", 1); check(cx, &t)?; } }
        return Ok(());
    }
    // constants and long tokens
    cx.begin()?;
    let consts_hand = [Hand::LINE_COMMENT, Hand::BLOCK_COMMENT, Hand::WS, Hand::FRAGMENT, Hand::TOKEN_REF, Hand::RULE_REF, Hand::COLON, Hand::OR, Hand::SEMI, Hand::STAR, Hand::PLUS, Hand::QUESTION, Hand::DOT, Hand::NOT, Hand::LPAREN, Hand::RPAREN, Hand::POUND, Hand::STRING_LITERAL, Hand::RANGE, Hand::REGULAR_LITERAL, Hand::EPSILON];
    let consts_v1 = [V1L::RULE_REF, V1L::TOKEN_REF, V1L::COLON, V1L::SEMI, V1L::OR, V1L::EPSILON, V1L::STAR, V1L::PLUS, V1L::QUESTION, V1L::LPAREN, V1L::RPAREN, V1L::STRING_LITERAL, V1L::REGULAR_LITERAL, V1L::WHITE_SPACE];
    for (c, k) in consts_hand.iter().zip(&HAND) { if *c != k.1 { return cx.fail("const", json!({"lexer": "hand-written"}), format!("constant {} is {c}", k.2)); } }
    for (c, k) in consts_v1.iter().zip(&mc::lexref::V1) { if *c != k.1 { return cx.fail("const", json!({"lexer": "shipped"}), format!("constant {} is {c}", k.2)); } }
    if [Hand::_START, Hand::_STOP, V1L::_START, V1L::_STOP] != [0, 1, 0, 1] { return cx.fail("const", json!({}), "reserved numbers changed"); }
    for n in [1usize, 2, 3, 10, 100, 257, 1000, 5000] {
        for (a, b, c) in [("", "a", ""), ("A", "b", ""), ("'", "x", "'"), ("'", "\\\\", "'"), ("'", "\\'", "'"), ("/", "x", "/"), ("/", "\\/", "/"), ("/", "x\n", "/"), ("", " ", "ab"), ("", "\n", ""), ("//", "c", "\n"), ("/*", "*", "*/"), ("/*", "/", "*/"), ("", ";", ""), ("ab", ":", ""), ("'\\u{", "0", "}'"), ("", "ab CD", ""), ("", ".", "")] {
            cx.states += 1;
            check(cx, &format!("{a}{}{c}", b.repeat(n)))?;
        }
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C09",
    rule: "Every text that is a sequence of atoms up to a depth, over seven alphabets aimed at every token kind and their overlaps, every single character in five contexts, plus long repetitions; both real lexers scanned token by token and compared with a hand-written scanner.",
    bounds: |t| json!({"families": families().iter().map(|f| json!({"family": f.0, "atoms": f.1.len(), "max_atoms": t.pick(f.2, f.3)})).collect::<Vec<_>>(), "characters": t.pick("U+0000..U+04FF, 4 of every block of 256, a list of delicate ones", "the whole basic plane and a list of others")}),
    assumptions: &["the notation's kinds are those listed in the statement; the reference scanner is written from the documented notation"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
