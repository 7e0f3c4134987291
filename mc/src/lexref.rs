//! Reference tokenisers for the grammar notation, written as plain character scanning. Nothing here uses the code under test
//! or the regex crate.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    LineComment, BlockComment, WsHand, WsV1, Fragment, TokenRef, RuleRef, Colon, Or, Semi, Star, Plus, Question, Dot, Not, Lparen, Rparen,
    Pound, StringLiteral, Range, RegularLiteral, Epsilon,
}
use Kind::*;

/// Kinds of the hand-written lexer in priority order with number and name.
pub const HAND: [(Kind, usize, &str); 21] = [
    (LineComment, 2, "LINE_COMMENT"), (BlockComment, 3, "BLOCK_COMMENT"), (WsHand, 4, "WS"), (Fragment, 5, "FRAGMENT"), (TokenRef, 6, "TOKEN_REF"),
    (RuleRef, 7, "RULE_REF"), (Colon, 8, "COLON"), (Or, 9, "OR"), (Semi, 10, "SEMI"), (Star, 11, "STAR"), (Plus, 12, "PLUS"), (Question, 13, "QUESTION"),
    (Dot, 14, "DOT"), (Not, 15, "NOT"), (Lparen, 16, "LPAREN"), (Rparen, 17, "RPAREN"), (Pound, 18, "POUND"), (StringLiteral, 19, "STRING_LITERAL"),
    (Range, 20, "RANGE"), (RegularLiteral, 21, "REGULAR_LITERAL"), (Epsilon, 22, "EPSILON"),
];
/// Kinds of the shipped generated lexer.
pub const V1: [(Kind, usize, &str); 14] = [
    (RuleRef, 2, "RULE_REF"), (TokenRef, 3, "TOKEN_REF"), (Colon, 4, "COLON"), (Semi, 5, "SEMI"), (Or, 6, "OR"), (Epsilon, 7, "EPSILON"), (Star, 8, "STAR"),
    (Plus, 9, "PLUS"), (Question, 10, "QUESTION"), (Lparen, 11, "LPAREN"), (Rparen, 12, "RPAREN"), (StringLiteral, 13, "STRING_LITERAL"),
    (RegularLiteral, 14, "REGULAR_LITERAL"), (WsV1, 15, "WHITE_SPACE"),
];
pub const HAND_SKIP: [usize; 3] = [2, 3, 4];
pub const V1_SKIP: [usize; 1] = [15];

fn lit(s: &[char], w: &str) -> Option<usize> { let w: Vec<char> = w.chars().collect(); if s.len() >= w.len() && s[..w.len()] == w[..] { Some(w.len()) } else { None } }
fn run(s: &[char], f: impl Fn(char) -> bool) -> usize { s.iter().take_while(|c| f(**c)).count() }
fn ident(s: &[char], first: impl Fn(char) -> bool) -> Option<usize> {
    if s.is_empty() || !first(s[0]) { return None; }
    let n = run(&s[1..], |c| c.is_ascii_alphanumeric() || c == '_');
    if n == 0 { None } else { Some(1 + n) }
}
fn string(s: &[char]) -> Option<usize> {
    if s.first() != Some(&'\'') { return None; }
    let mut i = 1;
    loop {
        match s.get(i)? {
            '\'' => return Some(i + 1),
            '\\' => match s.get(i + 1)? {
                '\\' | '\'' | 'a' | 'd' | 'n' | 'r' | 't' | 'f' | 'v' => i += 2,
                'u' => {
                    if s.get(i + 2)? != &'{' { return None; }
                    let mut k = i + 3;
                    if s.get(k) == Some(&'0') && s.get(k + 1) == Some(&'x') { k += 2; }
                    let n = run(&s[k..], |c| c.is_ascii_digit() || ('a'..='f').contains(&c));
                    if n == 0 || s.get(k + n)? != &'}' { return None; }
                    i = k + n + 1;
                }
                _ => return None,
            },
            '\u{7}' | '\n' | '\r' | '\t' | '\u{c}' | '\u{b}' => return None,
            _ => i += 1,
        }
    }
}
fn regular(s: &[char]) -> Option<usize> {
    if s.len() < 3 || s[0] != '/' || s[1] == '/' { return None; }
    let mut last = None;
    for j in 2..s.len() { if s[j] == '/' { if s[j - 1] != '\\' { return Some(j + 1); } last = Some(j + 1); } }
    last
}

/// Length (in characters) of the match of kind k at the start of s.
pub fn matches(k: Kind, s: &[char]) -> Option<usize> {
    match k {
        LineComment => { lit(s, "//")?; let n = run(&s[2..], |c| c != '\n'); if s.get(2 + n) == Some(&'\n') { Some(3 + n) } else { None } }
        BlockComment => { lit(s, "/*")?; let mut i = 2; while i + 1 < s.len() { if s[i] == '*' && s[i + 1] == '/' { return Some(i + 2); } i += 1; } None }
        WsHand => { let n = run(s, |c| matches!(c, ' ' | '\t' | '\r' | '\n')); if n > 0 { Some(n) } else { None } }
        WsV1 => { let n = run(s, |c| matches!(c, ' ' | '\t' | '\r' | '\n' | '\u{c}')); if n > 0 { Some(n) } else { None } }
        Fragment => lit(s, "fragment"),
        TokenRef => ident(s, |c| c.is_ascii_uppercase()),
        RuleRef => ident(s, |c| c.is_ascii_lowercase()),
        Colon => ["::=", ":=", "->", "=>", ":", "="].iter().find_map(|w| lit(s, w)),
        Or => lit(s, "|"), Semi => lit(s, ";"), Star => lit(s, "*"), Plus => lit(s, "+"), Question => lit(s, "?"), Dot => lit(s, "."), Not => lit(s, "~"),
        Lparen => lit(s, "("), Rparen => lit(s, ")"), Pound => lit(s, "#"), Range => lit(s, ".."),
        StringLiteral => string(s), RegularLiteral => regular(s),
        Epsilon => lit(s, "ε").or_else(|| lit(s, "epsilon")),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok { pub kind: usize, pub name: &'static str, pub text: String, pub start: usize, pub stop: usize, pub line: usize, pub col: usize, pub line2: usize, pub col2: usize }

/// All tokens up to the end or the first unmatchable character; returns them and the byte offset reached.
pub fn lex(kinds: &[(Kind, usize, &'static str)], text: &str) -> (Vec<Tok>, usize) {
    let s: Vec<char> = text.chars().collect();
    let (mut i, mut byte, mut line, mut col) = (0, 0, 0, 0);
    let mut out = vec![];
    while i < s.len() {
        let mut best: Option<(usize, usize, &'static str)> = None;
        for (k, id, name) in kinds { if let Some(n) = matches(*k, &s[i..]) { if n > best.map_or(0, |b| b.0) { best = Some((n, *id, name)); } } }
        let Some((n, kind, name)) = best else { break };
        let t: String = s[i..i + n].iter().collect();
        let (mut l2, mut c2) = (line, col);
        for c in t.chars() { if c == '\n' { l2 += 1; c2 = 0; } else { c2 += c.len_utf8(); } }
        out.push(Tok { kind, name, start: byte, stop: byte + t.len(), line, col, line2: l2, col2: c2, text: t.clone() });
        byte += t.len(); i += n; line = l2; col = c2;
    }
    (out, byte)
}

/// The i-th sequence in length-then-lexicographic order over `n` symbols.
pub fn nth_seq(mut i: usize, n: usize) -> Vec<usize> {
    let mut len = 0; let mut c = 1;
    while i >= c { i -= c; c *= n; len += 1; }
    let mut v = vec![0; len];
    for k in (0..len).rev() { v[k] = i % n; i /= n; }
    v
}
pub fn seq_count(n: usize, max: usize) -> usize { (0..=max).map(|l| n.pow(l as u32)).sum() }

/// Characters tried one by one: all below `all`, the first and last of every block of 256 of the basic plane, and a list of delicate ones.
pub fn chars(all: u32) -> Vec<char> {
    let mut v: Vec<u32> = (0..all).collect();
    for b in 0..256u32 { v.extend([b << 8, b << 8 | 0x0a, b << 8 | 0x2f, b << 8 | 0xff]); }
    v.extend([0x1680, 0x180e, 0x2000, 0x2003, 0x200b, 0x200c, 0x200d, 0x2018, 0x2019, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x2126, 0x212a, 0x2160, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff0f, 0xff10, 0xff1a, 0xff21, 0xff41, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1000a, 0x1d7ce, 0x1f600, 0x2ffff, 0xe0001, 0x10000a, 0x10ffff]);
    v.sort(); v.dedup();
    v.into_iter().filter_map(char::from_u32).collect()
}
