//! C13: loading trees from JSON, from strings and from readers.
#[path = "../adapt/trees.rs"] mod trees;
use mc::engine::*;
use mc::interpose::guarded;
use mc::jsonref::{parse, tree, T};
use mc::lexref::{nth_seq, seq_count};
use serde_json::json;
use std::io::Read;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::tool::serde_ast::{from_reader, from_str};

/// Nesting up to this depth must load; deeper documents may be refused.
const DEPTH: usize = 100;

fn real(r: &RuleContext) -> T {
    T::Rule(r.rule_index as u64, r.rule_name.clone(), r.children.iter().map(|c| match c { ASTContext::Rule(x) => real(x), ASTContext::Terminal(x) => T::Tok(x.symbol.token_type as u64, x.symbol.token_name.clone(), x.symbol.text.clone()), ASTContext::Error(x) => T::Tok(u64::MAX, format!("error leaf {}", x.symbol.token_name), x.symbol.text.clone()) }).collect())
}

/// A reader that hands out the bytes as scripted.
#[derive(Clone, Debug)]
enum Step { Give(usize), Interrupt, Fail }
struct Script<'a> { data: &'a [u8], at: usize, steps: Vec<Step>, i: usize, then: usize, failed: bool }
impl Read for Script<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = match self.steps.get(self.i) { Some(Step::Give(n)) => *n, Some(Step::Interrupt) => { self.i += 1; return Err(std::io::ErrorKind::Interrupted.into()); } Some(Step::Fail) => { self.failed = true; return Err(std::io::ErrorKind::Other.into()); } None => self.then };
        self.i += 1;
        let n = n.min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
enum Want { Exactly(Option<T>), MaybeRefuse(Option<T>) }
fn want(doc: &[u8]) -> Want { match parse(doc) { Err(()) => Want::Exactly(None), Ok((v, d)) => if d <= DEPTH { Want::Exactly(tree(&v)) } else { Want::MaybeRefuse(tree(&v)) } } }
fn ok(w: &Want, got: &Option<T>) -> bool { match w { Want::Exactly(t) => t == got, Want::MaybeRefuse(t) => got.is_none() || got == t } }

fn verdict(cx: &mut Ctx, doc: &[u8], how: &str, w: &Want, got: Result<Option<T>, String>) -> Result<Option<T>, Viol> {
    cx.traces += 1;
    let s = String::from_utf8_lossy(doc).to_string();
    let inp = || json!({"document": s, "how": how});
    let e = match got { Err(p) => format!("panic: {p}"), Ok(g) => if ok(w, &g) { return Ok(g); } else { let (Want::Exactly(t) | Want::MaybeRefuse(t)) = w; format!("loaded as {g:?}, expected {t:?}") } };
    cx.fail(format!("{how} {s}"), inp(), e)?;
    Ok(None)
}
fn load_reader(doc: &[u8], steps: Vec<Step>, then: usize) -> Result<Option<T>, String> {
    let (r, _) = guarded(|| from_reader(Script { data: doc, at: 0, steps, i: 0, then, failed: false }).ok().map(|x| real(&x)));
    r
}
fn check(cx: &mut Ctx, doc: &[u8]) -> Res {
    cx.begin()?;
    cx.states += 1; cx.transitions += doc.len() as u64;
    let w = want(doc);
    if let Ok(s) = std::str::from_utf8(doc) {
        let (r, _) = guarded(|| from_str(s).ok().map(|x| real(&x)));
        let a = verdict(cx, doc, "string", &w, r)?;
        cx.outcome(if a.is_some() { "loads" } else if parse(doc).is_ok() { "valid JSON, not a tree" } else { "not JSON" });
    } else { cx.outcome("not UTF-8"); }
    verdict(cx, doc, "reader", &w, load_reader(doc, vec![], usize::MAX))?;
    verdict(cx, doc, "reader, one byte at a time", &w, load_reader(doc, vec![], 1))?;
    Ok(())
}

fn bases() -> Vec<&'static str> { vec![
    r#"{"rule_index":0,"rule_name":"a","children":[{"token_type":2,"token_name":"AA","text":"x\n"},{"rule_index":10,"rule_name":"é","children":[]}]}"#,
    r#" { "children" : [ { "token_type" : 12 , "token_name" : "\u00e9\ud83d\ude00" } , { "children" : [ { "text":null, "token_name":"" , "token_type":0 } ], "rule_name" : "b" , "rule_index" : 3 } ] , "rule_index":18446744073709551615,"rule_name":"\\\"/"}
"#,
    r#"{"rule_index":1,"rule_index":2,"rule_name":"r","children":[],"more":[true,false,null,-1.5e+3,{"x":{}}]}"#,
] }
const BYTES: &[u8] = b"{}[]\":,0-.eE\\u/ \n\x00\x7fnta\xc3\xa9\xff";

const INT: [&str; 13] = ["0", "5", "18446744073709551615", "", "null", "-1", "1.0", "1.5", "\"1\"", "true", "[]", "{}", "18446744073709551616"];
const STR: [&str; 8] = ["\"a\"", "\"\"", "\"\\u0000\\\"\\\\é`${\"", "", "null", "1", "[\"a\"]", "{}"];
const KIDS: [&str; 16] = ["[]", "", "null", "{}", "\"x\"", "1", "false", "[T]", "[R]", "[T,R,T]", "[null]", "[1]", "[\"x\"]", "[[]]", "[T,{}]", "[R,null]"];
const TEXT: [&str; 7] = ["\"x\"", "\"\"", "\"\\t\\ud83d\\ude00\"", "", "null", "7", "[]"];
const TT: &str = r#"{"token_type":2,"token_name":"AA","text":"t"}"#;
const RR: &str = r#"{"rule_index":3,"rule_name":"rr","children":[]}"#;
fn obj(fields: &[(&str, &str)]) -> String { format!("{{{}}}", fields.iter().filter(|f| !f.1.is_empty()).map(|f| format!("\"{}\":{}", f.0, f.1)).collect::<Vec<_>>().join(",")) }
fn rule(i: usize, s: usize, k: usize) -> String { obj(&[("rule_index", INT[i]), ("rule_name", STR[s]), ("children", &KIDS[k].replace('T', TT).replace('R', RR))]) }
fn tok(i: usize, s: usize, t: usize, extra: usize) -> String { let e: [(&str, &str); 4] = [("", ""), ("children", "null"), ("rule_index", "1"), ("children", "[]")]; obj(&[("token_type", INT[i]), ("token_name", STR[s]), ("text", TEXT[t]), e[extra]]) }

/// formats of the same document
fn render(t: &T, f: usize) -> String {
    let st = |s: &str| -> String { if f == 1 { format!("\"{}\"", s.encode_utf16().map(|u| format!("\\u{u:04X}")).collect::<String>()) } else { serde_json::to_string(s).unwrap() } };
    let (c, o) = if f == 2 { (" ,\n", " : ") } else { (",", ":") };
    match t {
        T::Rule(n, s, ch) => { let k = format!("[{}]", ch.iter().map(|x| render(x, f)).collect::<Vec<_>>().join(c)); if f == 2 { format!("{{ \"children\"{o}{k}{c}\"rule_name\"{o}{}{c}\"rule_index\"{o}{n} }}", st(s)) } else { format!("{{\"rule_index\"{o}{n}{c}\"rule_name\"{o}{}{c}\"children\"{o}{k}}}", st(s)) } }
        T::Tok(n, s, x) => format!("{{\"token_type\"{o}{n}{c}\"token_name\"{o}{}{c}\"text\"{o}{}}}", st(s), st(x)),
    }
}
fn model(n: usize, ch: &[trees::MT]) -> T { T::Rule(n as u64, ["ra", "字\"`", "<r c>"][n % 3].into(), ch.iter().map(|c| match c { trees::MT::Rule(n, x) => model(*n, x), trees::MT::Term(k) => T::Tok(*k as u64, format!("TK{k}"), ["x", "\n\u{1}", "😀 </script>"][k % 3].into()), trees::MT::Err(_) => unreachable!() }).collect()) }
fn space() -> trees::Space { trees::Space::new(&[0, 1], &[trees::MT::Term(2), trees::MT::Term(3)], 8) }
fn shape_depth(t: Tier) -> usize { t.pick(7, 8) }

const SMALL: [&str; 12] = ["{", "}", "[", "]", "\"", ":", ",", "1", "a", " ", "null", "\"children\""];
/// Keys that are not the documented ones but could be mistaken for them.
const UNKNOWN: [&str; 40] = ["token_text", "symbol_text", "symbol", "token", "value", "content", "lexeme", "name", "type", "kind", "id", "index", "token_index", "tokenType", "tokenName", "token-type", "Text", "TEXT", "text ", " text", "texts", "tex", "text_", "rule", "ruleName", "ruleIndex", "rule_type", "rule_id", "rule_names", "rule-index", "child", "childs", "kids", "nodes", "elements", "items", "", "\\u0000", "channel", "error"];
const UNKNOWN_VALUES: [&str; 5] = ["\"zz\"", "7", "[T]", "null", "{\"text\":\"zz\"}"];
// unit blocks
const S: usize = 32;
fn units(_: Tier) -> usize { S * 9 }

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let (kind, k) = (unit / S, unit % S);
    let mut i = 0usize;
    let mut mine = move || { i += 1; i % S == k };
    match kind {
        // every combination of field values for a rule, at the root and below
        0 => for a in 0..INT.len() { for b in 0..STR.len() { for c in 0..KIDS.len() { if !mine() { continue; }
            let r = rule(a, b, c);
            check(cx, r.as_bytes())?;
            check(cx, format!("{{\"rule_index\":0,\"rule_name\":\"top\",\"children\":[{TT},{r},{RR}]}}").as_bytes())?;
            check(cx, format!("[{r}]").as_bytes())?;
        } } },
        1 => for a in 0..INT.len() { for b in 0..STR.len() { for c in 0..TEXT.len() { for e in 0..4 { if !mine() { continue; }
            let t = tok(a, b, c, e);
            check(cx, format!("{{\"rule_index\":0,\"rule_name\":\"top\",\"children\":[{t}]}}").as_bytes())?;
            check(cx, format!("{{\"rule_index\":0,\"rule_name\":\"top\",\"children\":[{RR},{t},{TT}]}}").as_bytes())?;
            if e == 0 { check(cx, t.as_bytes())?; }
        } } } },
        // every shape
        2 => { let s = space(); for j in 0..s.upto(shape_depth(cx.tier)) { if !mine() { continue; } let m = model(j % 3, &s.nth_upto(j)); for f in 0..3 {
            let d = render(&m, f);
            cx.begin()?; cx.states += 1; cx.traces += 2;
            // the document was made from the tree, so no JSON reader takes part in the verdict
            for (how, r) in [("string", guarded(|| from_str(&d).ok().map(|x| real(&x))).0), ("reader", load_reader(d.as_bytes(), vec![], 7))] {
                match r { Ok(Some(t)) if t == m => {} x => return cx.fail(d.clone(), json!({"document": d, "how": how}), format!("loaded as {x:?}, expected {m:?}")) }
            }
            if d.len() > 200 { cx.sample("shape", || json!(d)); }
            cx.outcome("loads");
        } } }
        // every single-byte change of the base documents
        3 => for b in bases() { let b = b.as_bytes(); for p in 0..=b.len() {
            if !mine() { continue; }
            check(cx, &b[..p])?;
            check(cx, &b[p..])?;
            if p < b.len() { let mut x = b.to_vec(); x.remove(p); check(cx, &x)?; }
            if p + 1 < b.len() { let mut x = b.to_vec(); x.swap(p, p + 1); check(cx, &x)?; }
            for &c in BYTES { let mut x = b.to_vec(); x.insert(p, c); check(cx, &x)?; if p < b.len() { let mut x = b.to_vec(); x[p] = c; check(cx, &x)?; } }
        } },
        // readers: every chunk size, an interruption before every read, a failure after every prefix
        4 => for b in bases() { let d = b.as_bytes(); let w = want(d); for p in 0..=d.len() {
            if !mine() { continue; }
            cx.states += 1;
            cx.begin()?; verdict(cx, d, &format!("chunks of {}", p + 1), &w, load_reader(d, vec![], p + 1))?;
            cx.begin()?; verdict(cx, d, &format!("split at {p}"), &w, load_reader(d, vec![Step::Give(p.max(1))], usize::MAX))?;
            cx.begin()?; verdict(cx, d, &format!("interrupted after {p} bytes"), &w, load_reader(d, (0..p).map(|_| Step::Give(1)).chain([Step::Interrupt, Step::Interrupt]).collect(), 3))?;
            cx.begin()?; verdict(cx, d, &format!("interrupted before every byte, chunks of {}", p % 9 + 1), &w, load_reader(d, (0..d.len() + 2).flat_map(|_| [Step::Interrupt, Step::Give(p % 9 + 1)]).collect(), 1))?;
            cx.begin()?; cx.outcome("failing reader");
            verdict(cx, d, &format!("read error after {p} bytes"), &Want::Exactly(None), load_reader(d, (0..p).map(|_| Step::Give(1)).chain([Step::Fail]).collect(), 1))?;
            if p > 0 { verdict(cx, d, &format!("read error after one read of {p} bytes"), &Want::Exactly(None), load_reader(d, vec![Step::Give(p), Step::Fail], 1))?; }
            // the stream ends early: as the truncated document
            cx.begin()?; verdict(cx, &d[..p], "stream ends early", &want(&d[..p]), load_reader(&d[..p], vec![], 2))?;
        } },
        5 => { let d = cx.tier.pick(5, 7); for j in 0..seq_count(SMALL.len(), d) { if !mine() { continue; } let s: String = nth_seq(j, SMALL.len()).into_iter().map(|x| SMALL[x]).collect(); check(cx, s.as_bytes())?; } }
        // something before, after and around a whole document
        7 => {
            let around = ["", "\u{feff}", " ", "\t", "\r\n", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\0", "// c\n", "/* c */", "# c\n", ",", ";", "]", "}", "null", "0", "\"\"", ")]}'\n", "json", "\u{1e}"];
            let mut docs: Vec<String> = bases().iter().map(|b| b.to_string()).collect();
            docs.extend([RR.to_string(), TT.to_string(), "[]".into(), "{}".into(), "null".into(), "\"x\"".into(), "1".into(), String::new()]);
            for d in &docs { for a in around { for b in around { if !mine() { continue; } check(cx, format!("{a}{d}{b}").as_bytes())?; } } }
            for d in &docs { for e in &docs { for sep in ["", " ", "\n", ","] { if !mine() { continue; } check(cx, format!("{d}{sep}{e}").as_bytes())?; } } }
            for u in UNKNOWN { for v in UNKNOWN_VALUES { let v = v.replace('T', TT); if !mine() { continue; } for missing in 0..4 { for first in [false, true] {
                let t: Vec<String> = [r#""token_type":2"#, r#""token_name":"AA""#, r#""text":"t""#].iter().enumerate().filter(|x| x.0 + 1 != missing).map(|x| x.1.to_string()).collect();
                let r: Vec<String> = [r#""rule_index":3"#, r#""rule_name":"rr""#, &format!(r#""children":[{TT}]"#)].iter().enumerate().filter(|x| x.0 + 1 != missing).map(|x| x.1.to_string()).collect();
                for mut f in [t, r] { let k = format!("\"{u}\":{v}"); if first { f.insert(0, k) } else { f.push(k) } let o = format!("{{{}}}", f.join(",")); check(cx, o.as_bytes())?; check(cx, format!("{{\"rule_index\":0,\"rule_name\":\"top\",\"children\":[{o}]}}").as_bytes())?; }
            } } } }
            // leniencies other JSON dialects allow, and other encodings of the same document
            for d in [RR, TT].iter().map(|s| s.to_string()).chain(bases().iter().map(|s| s.to_string())) {
                if !mine() { continue; }
                for x in [d.replace('"', "'"), d.replace("}", ",}"), d.replace("]", ",]"), d.replace(":", "="), d.replace(",", ";"), d.replace("\"rule_index\"", "rule_index"), d.replace("rule_index", "RULE_INDEX"), d.replace("rule_index", "ruleIndex"), d.replace("rule_name", "rule_name "),
                    d.replace("children", "Children"), d.replace(":0", ":00"), d.replace(":1", ":+1"), d.replace(":3", ":0x3"), d.replace(":3", ":3e0"), d.replace(":3", ":NaN"), d.to_uppercase()] { check(cx, x.as_bytes())?; }
                let w: Vec<u8> = d.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(); check(cx, &w)?;
                let w: Vec<u8> = d.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(); check(cx, &w)?;
                let mut w = vec![0xff, 0xfe]; w.extend(d.encode_utf16().flat_map(|u| u.to_le_bytes())); check(cx, &w)?;
            }
        }
        // documents of many kilobytes, shifted byte by byte, through readers with small and large buffers
        8 => for (bi, big) in [4096usize, 8192, 16384, 65536, 140_000].into_iter().enumerate() { for shift in 0..12 { for shape in 0..5 {
            if !mine() { continue; }
            let piece = "é字😀\"\n\\";
            let pad = "x".repeat(shift);
            let text = match shape { 0 => String::new(), 1 | 2 => pad.clone() + &piece.repeat(big / 24 + 10), _ => "w".repeat(big + shift - 5) };
            let m = match shape {
                0 => T::Rule(1, pad, (0..big / 60 + 9).map(|i| if i % 5 == 4 { T::Rule(i as u64, "字".into(), vec![]) } else { T::Tok(i as u64, "é".into(), piece.into()) }).collect()),
                1 | 3 => T::Rule(1, pad, vec![T::Tok(2, "T".into(), text)]),
                _ => T::Rule(1, pad + &text, vec![T::Rule(2, text, vec![])]),
            };
            let d = render(&m, [0, 2, 1][shift % 3]);
            cx.begin()?; cx.states += 1;
            let mut got = vec![("string".to_string(), guarded(|| from_str(&d).ok().map(|x| real(&x))).0)];
            for then in [usize::MAX, 1, 7, 1000, 4095, 4096, 8191, 8192, 8193, 65535, 65536] { if then > 1 || bi < 2 { got.push((format!("reader, reads of {then}"), load_reader(d.as_bytes(), vec![], then))); } }
            got.push(("reader, interrupted".into(), load_reader(d.as_bytes(), vec![Step::Give(4096), Step::Interrupt, Step::Give(4096), Step::Interrupt, Step::Interrupt, Step::Give(1)], 8192)));
            for (how, r) in got { cx.traces += 1; match r { Ok(Some(t)) if t == m => {} x => return cx.fail(format!("big {big} {shift} {shape} {how}"), json!({"size": d.len(), "shift": shift, "shape": shape, "how": how}), format!("not loaded as written: {}", format!("{x:?}").chars().take(300).collect::<String>())) } }
            for cut in [4096, 8192, d.len() - 1, d.len() - 8, d.len() / 2] { if cut >= d.len() { continue; } cx.begin()?; cx.traces += 1; if !matches!(load_reader(&d.as_bytes()[..cut], vec![], 8192), Ok(None)) { return cx.fail(format!("big {big} {shift} {shape} cut {cut}"), json!({"size": d.len(), "shift": shift, "shape": shape, "cut": cut}), "a document cut short was not refused"); } }
            cx.outcome("loads");
        } } },
        // nesting and width
        _ => for n in (1..=60).chain([63, 64, 65, 100, 127, 128, 129, 500, 20000]) { if !mine() { continue; }
            let mut d = String::from(RR);
            d = format!("{}{}{}", "{\"rule_index\":1,\"rule_name\":\"n\",\"children\":[".repeat(n), d, "]}".repeat(n));
            if n <= 1000 { check(cx, d.as_bytes())?; } else { cx.begin()?; cx.states += 1; cx.traces += 1; if guarded(|| from_str(&d).is_ok()).0.is_err() || load_reader(d.as_bytes(), vec![], 100).is_err() { return cx.fail(format!("deep {n}"), json!({"nesting": n}), "panic on a deep document"); } }
            check(cx, format!("{{\"rule_index\":1,\"rule_name\":\"w\",\"children\":[{}]}}", vec![TT; match n { 500 => 1000, 129 => 4100, 128 => 17_000, 127 => 66_000, 20000 => 140_000, n => n }].join(",")).as_bytes())?;
            check(cx, format!("{{\"rule_index\":1,\"rule_name\":\"{}\",\"children\":[]}}", "é".repeat(n)).as_bytes())?;
            check(cx, "[".repeat(n).as_bytes())?;
        },
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C13",
    rule: "Every combination of field values for rules and tokens at the root and below, every tree shape up to a size in three formats, every single-byte change (truncate, delete, swap, insert, replace) of three documents, every text up to a length over JSON's pieces, something before, after or around whole documents (byte order marks, white space, comments, second documents), dialects and other encodings, deep, wide and long documents; and for readers every chunk size, an interruption at every point, a failure after every prefix. Verdict from a JSON reader of our own.",
    bounds: |t| json!({"field_values": {"numbers": INT, "strings": STR, "children": KIDS, "texts": TEXT}, "shape_nodes": shape_depth(t), "base_documents": bases(), "bytes": BYTES.len(), "pieces": SMALL, "pieces_length": t.pick(5, 7), "unknown_keys": UNKNOWN.to_vec(), "unknown_values": UNKNOWN_VALUES, "nesting": 20000, "long_documents": "4 to 140 kB of multi-byte text, 12 shifts, 3 shapes, 11 read sizes"}),
    assumptions: &["documents nested deeper than 100 levels may be refused", "numbers beyond the range of a double are not generated"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
