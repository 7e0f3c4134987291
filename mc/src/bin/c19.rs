//! C19: tokens made from string literals.
#[path = "../adapt/desc.rs"] mod desc;
use desc::{rc, t};
use mc::engine::*;
use mc::interpose::guarded;
use mc::lexref::{nth_seq, seq_count};
use serde_json::json;
use syntaxis::runtime::ast::rule_context::RuleContext;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as L;
use syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser as P;
use syntaxis::tool::visitor::lexer_rule_visitor::StringLiteralVisitor;

/// (spelling, what it denotes)
const ATOMS: [(&str, &str); 56] = [
    ("a", "a"), ("n", "n"), ("t", "t"), ("r", "r"), ("u", "u"), ("d", "d"), ("Z", "Z"), ("0", "0"), ("7", "7"), ("_", "_"), ("-", "-"), (" ", " "),
    (".", "."), ("*", "*"), ("+", "+"), ("?", "?"), ("(", "("), (")", ")"), ("[", "["), ("]", "]"), ("{", "{"), ("}", "}"), ("|", "|"), ("^", "^"), ("$", "$"), ("/", "/"), ("#", "#"), ("&", "&"), ("~", "~"),
    ("\"", "\""), ("`", "`"), (",", ","), (":", ":"), ("=", "="), ("<", "<"), (">", ">"), ("!", "!"), ("é", "é"), ("字", "字"), ("😀", "😀"),
    ("\\\\", "\\"), ("\\'", "'"), ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\a", "\u{7}"), ("\\f", "\u{c}"), ("\\v", "\u{b}"),
    ("\\u{41}", "A"), ("\\u{e9}", "é"), ("\\u{0x2b}", "+"), ("\\u{1f600}", "😀"), ("\\u{0a}", "\n"), ("\\u{5c}", "\\"), ("\\u{0}", "\0"), ("\\u{24}", "$"),
];
/// the ones that can combine into something else
const CORE: [usize; 22] = [0, 1, 5, 7, 10, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 40, 41, 42, 48];
const OTHERS: [&str; 19] = ["N", "f", "K", "a", "n", "\\", "\n", "'", "+", "x", "0", " ", "é", ".", "(", "$", "\0", "A", "\t"];

fn tree(lits: &[String], layout: usize) -> RuleContext {
    let lit = |s: &String| desc::r(P::ELEMENT, "element", vec![t(L::STRING_LITERAL, "STRING_LITERAL", s)]);
    let alt = |v: Vec<_>| desc::r(P::ALTERNATIVE, "alternative", v);
    let block = |v: Vec<_>| desc::r(P::BLOCK, "block", v);
    let rule = |n: &str, b| desc::r(P::PARSER_RULE, "parser_rule", vec![t(L::RULE_REF, "RULE_REF", n), t(L::COLON, "COLON", ":"), b, t(L::SEMI, "SEMI", ";")]);
    let decoy = || desc::lexer_rule_ast("AA", "/'x'/");
    let other = || desc::r(P::ELEMENT, "element", vec![t(L::TOKEN_REF, "TOKEN_REF", "'AA'")]);
    rc(P::RULE_LIST, "rule_list", match layout {
        0 => vec![rule("ra", block(vec![alt(lits.iter().map(lit).collect())]))],
        1 => { let mut v: Vec<_> = lits.iter().enumerate().map(|(i, s)| rule(&format!("r{i}"), block(vec![alt(vec![other(), lit(s)])]))).collect(); v.insert(0, decoy()); v.push(decoy()); v }
        _ => { let mut b = block(vec![alt(vec![other()])]); for s in lits.iter().rev() { b = block(vec![alt(vec![lit(s)]), t(L::OR, "OR", "|"), alt(vec![desc::r(P::ELEMENT, "element", vec![t(L::LPAREN, "LPAREN", "("), b, t(L::RPAREN, "RPAREN", ")"), desc::r(P::EBNF_SUFFIX, "ebnf_suffix", vec![t(L::STAR, "STAR", "*")])])])]); } vec![rule("ra", b), decoy()] }
    })
}
/// Everything the pattern is tried on: the text itself, continued, cut short, changed, displaced, and unrelated short texts.
fn probes(d: &str) -> Vec<String> {
    let cs: Vec<char> = d.chars().collect();
    let mut v = vec![d.to_string(), format!("{d}{d}"), String::new()];
    for o in OTHERS {
        v.push(format!("{d}{o}")); v.push(format!("{o}{d}")); v.push(o.to_string());
        for i in 0..cs.len() { v.push(cs[..i].iter().collect::<String>() + o + &cs[i + 1..].iter().collect::<String>()); v.push(cs[..i].iter().collect::<String>() + o + &cs[i..].iter().collect::<String>()); }
    }
    for i in 0..cs.len() { v.push(cs[..i].iter().collect()); v.push(cs[i + 1..].iter().collect()); let mut x = cs.clone(); x.remove(i); v.push(x.into_iter().collect()); let mut x = cs.clone(); x.insert(i, cs[i]); v.push(x.into_iter().collect()); }
    v.push(d.to_uppercase()); v.push(d.to_lowercase()); v.push(format!("\n{d}")); v.push(d.replace('\n', "\\n")); v.push(format!("'{d}'"));
    v
}
fn judge(spell: &str, d: &str, pattern: &str) -> Result<usize, String> {
    let re = regex::Regex::new(pattern).map_err(|e| format!("literal {spell:?} gets pattern {pattern:?}, which is not valid: {e}"))?;
    let ps = probes(d);
    for p in &ps {
        let got = re.find(p).map(|m| (m.start(), m.end()));
        let want = if p.starts_with(d) { Some((0, d.len())) } else { None };
        if got != want { return Err(format!("literal {spell:?} denotes {d:?}; its pattern {pattern:?} matches {got:?} of {p:?}, expected {want:?}")); }
    }
    Ok(ps.len())
}
fn check(cx: &mut Ctx, lits: &[(String, String)], layout: usize) -> Res {
    cx.begin()?;
    cx.states += 1; cx.transitions += lits.len() as u64;
    let spell: Vec<String> = lits.iter().map(|l| format!("'{}'", l.0)).collect();
    let inp = || json!({"literals": spell, "layout": layout});
    let key = format!("{spell:?} {layout}");
    let ast = tree(&spell, layout);
    let (r, _) = guarded(|| { let mut v = StringLiteralVisitor::new(); RuleListContext::accept(&ast, &mut v); (v.data, v.next_token_type) });
    let (data, next) = match r { Ok(x) => x, Err(p) => return cx.fail(key, inp(), format!("panic: {p}")) };
    let mut want: Vec<&(String, String)> = vec![];
    for l in lits { if !want.iter().any(|w| w.0 == l.0) { want.push(l) } }
    if data.len() != want.len() || next != 2 + want.len() { return cx.fail(key, inp(), format!("{} tokens (next number {next}) for {} distinct literals", data.len(), want.len())); }
    let mut names = std::collections::HashSet::new();
    for (i, (x, w)) in data.iter().zip(&want).enumerate() {
        if x.token_type != 2 + i { return cx.fail(key, inp(), format!("literal {:?} numbered {}, expected {}", w.0, x.token_type, 2 + i)); }
        if !names.insert(&x.token_name) { return cx.fail(key, inp(), format!("token name {:?} used twice", x.token_name)); }
        match judge(&w.0, &w.1, &x.regex) { Ok(n) => cx.traces += n as u64, Err(e) => return cx.fail(key, inp(), e) }
    }
    cx.outcome(&format!("{} distinct literals", want.len().min(4)));
    Ok(())
}
fn lit(ix: &[usize]) -> (String, String) { (ix.iter().map(|&i| ATOMS[i].0).collect(), ix.iter().map(|&i| ATOMS[i].1).collect()) }
fn d1(t: Tier) -> usize { t.pick(3, 3) }
fn d2(t: Tier) -> usize { t.pick(3, 4) }
const S: usize = 64;
fn units(_: Tier) -> usize { 3 * S }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let (kind, k) = (unit / S, unit % S);
    match kind {
        0 => for i in (k..seq_count(ATOMS.len(), d1(cx.tier))).step_by(S) { let l = lit(&nth_seq(i, ATOMS.len())); if i > 4000 { cx.sample("literal", || json!(l)); } check(cx, &[l], 0)?; },
        1 => for i in (k..seq_count(CORE.len(), d2(cx.tier))).step_by(S) { let ix: Vec<usize> = nth_seq(i, CORE.len()).into_iter().map(|x| CORE[x]).collect(); check(cx, &[lit(&ix)], 2)?; },
        // sequences of literals with repeats, in every layout
        _ => {
            let pool: Vec<(String, String)> = [&[0usize][..], &[42], &[50], &[13], &[], &[40], &[0, 1], &[40, 1]].iter().map(|x| lit(x)).collect();
            for i in (k..seq_count(pool.len(), cx.tier.pick(4, 5))).step_by(S) { let ls: Vec<_> = nth_seq(i, pool.len()).into_iter().map(|x| pool[x].clone()).collect(); for layout in 0..3 { check(cx, &ls, layout)?; } }
            // spellings that are easily taken for one another, and what they denote: pairs and triples in every layout
            let near: Vec<(String, String)> = ["if", "IF", "If", "if ", " if", "i f", "iff", "i", "\u{ff49}f", "\u{131}f", "e\u{301}", "\u{e9}", "", " ", "  ", "0", "00", "-0", "\"if\"", "_if", "K", "\u{212a}", "k", "\u{df}", "ss"].iter().map(|s| (s.to_string(), s.to_string()))
                .chain([("\\u{69}f".into(), "if".into()), ("i\\u{66}".into(), "if".into()), ("\\t".into(), "\t".into()), ("\\\\t".into(), "\\t".into()), ("\\u{9}".into(), "\t".into()), ("\\u{09}".into(), "\t".into())]).collect();
            for i in (k..near.len() * near.len() * near.len()).step_by(S) { let n = near.len(); let ls = [near[i % n].clone(), near[i / n % n].clone(), near[i / n / n].clone()]; check(cx, &ls[..2], i % 3)?; check(cx, &ls, i % 3)?; }
            // every code point escape in a range, many literals at once, long literals
            for c in (k as u32..0x3000).step_by(S).chain((0x10fff0 + k as u32..0x110000).step_by(S)) { if let Some(ch) = char::from_u32(c) { for f in [format!("\\u{{{c:x}}}"), format!("\\u{{0x{c:x}}}"), format!("\\u{{0{c:x}}}"), format!("\\u{{0x0000{c:x}}}")] { check(cx, &[(format!("a{f}b"), format!("a{ch}b"))], 0)?; } if ch >= ' ' && ch != '\\' && ch != '\'' { check(cx, &[(ch.to_string(), ch.to_string())], 1)?; } } }
            let n = 1 + k * 7;
            let many: Vec<_> = (0..n).map(|i| lit(&nth_seq(i % 60, ATOMS.len()))).collect();
            for layout in 0..2 { check(cx, &many, layout)?; }
            // near spellings after many other literals
            if k % 4 == 0 {
                let n = [40usize, 70, 130, 260, 520, 1030][k / 4 % 6];
                let mut ls: Vec<(String, String)> = (0..n).map(|i| (format!("k{i}"), format!("k{i}"))).collect();
                ls.extend((0..6).flat_map(|i| [format!("K{i}"), format!("k{i} "), format!("k{i}")]).map(|x| (x.clone(), x)));
                ls.extend(near.iter().cloned());
                check(cx, &ls, k / 24 % 3)?;
            }
            let long: Vec<usize> = (0..n).map(|i| (i * 7 + k) % ATOMS.len()).collect();
            check(cx, &[lit(&long)], 0)?;
        }
    }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C19",
    rule: "Every literal of up to 3 pieces over 56 pieces (letters, digits, every regex metacharacter, every escape, non-ASCII) and up to 3 (thorough: 4) over the 22 that can combine, every code point escape in a range in four spellings, every pair and triple of 31 spellings easily taken for one another, every sequence of up to 4 (5) literals with repeats in three layouts; each pattern tried on the text itself, continuations, cuts, one-character changes, displacements and unrelated texts.",
    bounds: |t| json!({"pieces": ATOMS.len(), "length": d1(t), "combining_pieces": CORE.len(), "combining_length": d2(t), "sequence": t.pick(4, 5), "code_points": "0..0x3000 and the last 16"}),
    assumptions: &["escapes: \\a bell, \\f form feed, \\v vertical tab, \\u{..} hexadecimal with optional 0x", "escapes of numbers that are no characters denote nothing and are not generated"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
