//! C25: the printed form of tokens and positions shows every field; a new token carries what was given.
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use syntaxis::runtime::ast::{error_context::ErrorContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};

/// values of the numeric fields
fn values(t: Tier) -> Vec<usize> { t.pick(vec![0, 12, 1 << 32], vec![0, 1, 99, 65_536, usize::MAX]) }
/// single fields over more values
const WIDE: [usize; 18] = [0, 1, 9, 10, 11, 99, 100, 127, 128, 255, 256, 999, 1000, 65_535, 65_536, u32::MAX as usize, 1 << 32, usize::MAX];
const TEXTS: [&str; 14] = ["", "a", "'", "''", "é字🎉", "\n", "\r\n\t", "\\n", "{}", "{0}", "[@0, 0:1='x', <A>, <2>]", " a ", "\0", "<no text>"];
const NAMES: [&str; 5] = ["", "PLUS", "_STOP", "T 1", "字>"];
const FIELDS: usize = 8;
fn combos(t: Tier) -> usize { values(t).len().pow(FIELDS as u32) }
const CHUNK: usize = 256;
fn units(t: Tier) -> usize { (combos(t) + CHUNK - 1) / CHUNK + 2 }

fn token(n: &[usize; FIELDS], channel: usize, name: &str, text: &str) -> Token {
    let mut t = Token::new(n[3], name, text);
    (t.token_index, t.char_start_index, t.char_stop_index, t.channel) = (n[0], n[1], n[2], channel);
    (t.start, t.stop) = (Position { line: n[4], char_position: n[5] }, Position { line: n[6], char_position: n[7] });
    t
}
fn pos(l: usize, c: usize) -> String { format!("line: {l}, position: {c}") }
fn check(cx: &mut Ctx, n: &[usize; FIELDS], channel: usize, name: &str, text: &str) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1; cx.transitions += 1;
    let t = token(n, channel, name, text);
    let want = format!("[@{}, {}:{}='{text}', <{name}>, <{}>, start: <{}>, stop: <{}>]", n[0], n[1], n[2], n[3], pos(n[4], n[5]), pos(n[6], n[7]));
    let inp = || json!({"index": n[0], "start": n[1], "stop": n[2], "number": n[3], "positions": n[4..], "channel": channel, "name": name, "text": text});
    let key = || format!("{n:?} {channel} {name:?} {text:?}");
    let (r, _) = guarded(|| (t.to_string(), t.start.to_string(), t.stop.to_string(), t.clone().to_string()));
    match r {
        Err(p) => return cx.fail(key(), inp(), format!("panic: {p}")),
        Ok((a, b, c, d)) => {
            if a != want { return cx.fail(key(), inp(), format!("printed as {a:?}, expected {want:?}")); }
            if b != pos(n[4], n[5]) || c != pos(n[6], n[7]) { return cx.fail(key(), inp(), format!("positions printed as {b:?} and {c:?}")); }
            if d != want { return cx.fail(key(), inp(), format!("a copy prints as {d:?}")); }
        }
    }
    cx.outcome(if text.is_empty() { "empty text" } else { "text" });
    Ok(())
}
/// A fresh token and the leaves made of it.
fn fresh(cx: &mut Ctx, number: usize, name: &str, text: &str) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1; cx.transitions += 1;
    let inp = json!({"number": number, "name": name, "text": text});
    let key = format!("new {number} {name:?} {text:?}");
    let (r, _) = guarded(|| { let t = Token::new(number, name, text); let (x, y) = (TerminalContext { symbol: t.clone() }, ErrorContext { symbol: t.clone() }); (x.get_text().to_string(), y.get_text().to_string(), x.to_string(), y.to_string(), t) });
    let (x, y, p, q, t) = match r { Ok(v) => v, Err(p) => return cx.fail(key, inp, format!("panic: {p}")) };
    if (t.token_type, t.token_name.as_str(), t.text.as_str()) != (number, name, text) { return cx.fail(key, inp, format!("a new token carries {t:?}")); }
    if [t.start.line, t.start.char_position, t.stop.line, t.stop.char_position, t.token_index, t.channel, t.char_start_index, t.char_stop_index] != [0; 8] { return cx.fail(key, inp, format!("a new token is not at the origin: {t:?}")); }
    if x != text || y != text { return cx.fail(key, inp, format!("leaves give the texts {x:?} and {y:?}")); }
    if p != name || q != name { return cx.fail(key, inp, format!("leaves print as {p:?} and {q:?}")); }
    cx.outcome("new token");
    Ok(())
}
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let vals = values(cx.tier); let n = combos(cx.tier);
    let chunks = (n + CHUNK - 1) / CHUNK;
    if unit == chunks {
        for f in 0..FIELDS { for v in WIDE { for base in [0, 3] { for text in TEXTS { for name in NAMES { for channel in [0, 7] {
            let mut x = [base; FIELDS]; x[f] = v;
            check(cx, &x, channel, name, text)?;
        } } } } } }
        for len in (1..=300).chain([1000, 4095, 4096, 4097, 5000, 66_000]) { let l: String = "aé".chars().cycle().take(len).collect(); check(cx, &[1; FIELDS], 0, &l, "x")?; check(cx, &[1; FIELDS], 0, "N", &l)?; fresh(cx, 1, &l, "x")?; fresh(cx, 1, "N", &l)?; }
        return Ok(());
    }
    if unit > chunks { for v in WIDE { for name in NAMES { for text in TEXTS { fresh(cx, v, name, text)?; } } } return Ok(()); }
    for i in unit * CHUNK..((unit + 1) * CHUNK).min(n) {
        let mut x = [0; FIELDS]; let mut k = i;
        for f in 0..FIELDS { x[f] = vals[k % vals.len()]; k /= vals.len(); }
        for text in ["", "a'b\né"] { for name in ["PLUS", "字>"] { check(cx, &x, i % 2, name, text)?; } }
        if i % 997 == 5 { cx.sample("token", || json!({"printed": token(&x, 0, "PLUS", "a").to_string()})); }
    }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C25",
    rule: "Every combination of a set of values over the eight numeric fields of a token x texts x names, and every single field over a wider set x all texts and names: printed form compared with the form rebuilt from the fields; every new token's fields and its leaves' texts compared with what was given.",
    bounds: |t| json!({"values": values(t), "single_field_values": WIDE, "texts": TEXTS, "names": NAMES}),
    assumptions: &[],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
