//! C12: grammar text -> shipped lexer -> table of the shipped description -> shipped parser gives the description back.
#[path = "../adapt/desc.rs"] mod desc;
#[path = "../adapt/front.rs"] mod front;
use front::*;
use mc::ebnf::*;
use mc::engine::*;
use mc::interpose::guarded;
use mc::lexref::{nth_seq, seq_count};
use serde_json::{json, Value};

const GAPS: [&str; 4] = ["", " ", "\r\n", "\t\u{c} "];

/// Joins leaf texts; `gap(i)` is wanted before leaf i (and after the last one); a space is put where words would merge.
fn layout(leaves: &[(usize, String)], gap: &dyn Fn(usize) -> &'static str) -> String {
    let mut s = String::new();
    for (i, (k, t)) in leaves.iter().enumerate() {
        let g = gap(i);
        s += g;
        if g.is_empty() && i > 0 && word(*k) && word(leaves[i - 1].0) { s.push(' ') }
        s += t;
    }
    s + gap(leaves.len())
}
fn word(k: usize) -> bool { k == RULE_REF || k == TOKEN_REF }

fn check(cx: &mut Ctx, fe: &Front, want: &PT, text: &str) -> Res {
    cx.begin()?;
    cx.traces += 1;
    let inp = || -> Value { json!({"text": text}) };
    let (r, out) = guarded(|| fe.parse(text));
    let tree = match r { Ok(t) => t, Err(p) => return cx.fail(text, inp(), format!("panic: {p}")) };
    if !out.iter().all(|b| b.is_ascii_whitespace()) { return cx.fail(text, inp(), format!("diagnostic printed: {}", String::from_utf8_lossy(&out))); }
    if let Some(d) = diff(&tree, want) { return cx.fail(text, inp(), d); }
    cx.transitions += want.leaves().len() as u64;
    // the covered text of the whole tree is the text between its first and last token
    if tree.get_text(text) != text.trim_matches(|c| " \r\n\t\u{c}".contains(c)) { return cx.fail(text, inp(), "the tree does not cover the text"); }
    Ok(())
}

/// Parsing from a typed entry point; the parts are followed by what may follow them in a text.
fn entry(cx: &mut Ctx, fe: &Front, want: &PT, follow: &str) -> Res {
    cx.begin()?;
    cx.traces += 1;
    let text = layout(&want.leaves(), &|_| " ") + follow;
    let PT::N(rule, _) = want else { unreachable!() };
    let inp = || -> Value { json!({"text": text, "entry_point": trees_name(*rule)}) };
    let key = format!("entry {} {text}", trees_name(*rule));
    let (r, out) = guarded(|| fe.entry(*rule, &text));
    let (tree, back) = match r { Ok(t) => t, Err(p) => return cx.fail(key, inp(), format!("panic: {p}")) };
    if !out.iter().all(|b| b.is_ascii_whitespace()) { return cx.fail(key, inp(), format!("diagnostic printed: {}", String::from_utf8_lossy(&out))); }
    if let Some(d) = diff(&tree, want) { return cx.fail(key, inp(), d); }
    let expect = want.accessors();
    if back != expect { return cx.fail(key, inp(), format!("typed accessors give {back}, expected {expect}")); }
    cx.outcome(&format!("entry {}", trees_name(*rule)));
    Ok(())
}

fn gen(n: usize) -> Gen { Gen::new(&[0, 1], &[0], true, n) }
/// (max size with every uniform layout, max size with one layout, max size for entry points)
fn sizes(t: Tier) -> (usize, usize, usize) { t.pick((4, 5, 4), (5, 6, 5)) }
const SLICES: usize = 64;
// unit kinds: 0..SLICES blocks; then slots, gaps, rule lists
fn units(_: Tier) -> usize { SLICES * 4 }

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let fe = match Front::load() { Ok(f) => f, Err(e) => { cx.begin()?; return cx.fail("load", json!({"file": "src/tool/syntaxis/syntaxis2.json"}), e); } };
    let (kind, k) = (unit / SLICES, unit % SLICES);
    let mut i = 0usize;
    let mut mine = || { i += 1; i % SLICES == k };
    let (all, one, ent) = sizes(cx.tier);
    match kind {
        0 => {
            let g = gen(one.max(ent) - 1);
            for n in 1..=one {
                g.for_blocks(n, &mut |b: Block| {
                    if !mine() { return Ok(()); }
                    cx.states += 1;
                    let want = list(vec![parser_rule("ra", ":", &b)]);
                    let l = want.leaves();
                    for (j, g) in GAPS.iter().enumerate() { if n <= all || j == cx.states as usize % GAPS.len() { let t = layout(&l, &|_| g); check(cx, &fe, &want, &t)?; } }
                    if n == one { cx.sample("one rule", || json!(layout(&l, &|_| " "))); }
                    if n <= ent {
                        entry(cx, &fe, &block(&b), " ;")?; entry(cx, &fe, &block(&b), " ) ra")?;
                        for a in &b { entry(cx, &fe, &alt(a), " | ra ;")?; entry(cx, &fe, &alt(a), ";")?; for e in a { for f in ["ra ;", "AA", "'x'", "(ra)", "| ra", ")", ";"] { entry(cx, &fe, &elem(e), &format!(" {f}"))?; } } }
                        entry(cx, &fe, &parser_rule("rb", "->", &b), "")?;
                        entry(cx, &fe, &list(vec![parser_rule("rb", "::=", &b), lexer_rule("AA", "=", "/a/")]), "")?;
                    }
                    Ok(())
                })?;
            }
        }
        1 => {
            // every spelling in every slot
            for a in ARROWS { for n in RULE_NAMES { for e in elem_spellings() { for r in REGULARS { for t in TOKEN_NAMES {
                if !mine() { continue; }
                cx.states += 1;
                let want = list(vec![PT::N(1, vec![PT::L(RULE_REF, n.into()), PT::L(COLON, a.into()), PT::N(2, vec![PT::N(3, vec![e.clone(), e.clone()])]), PT::L(SEMI, ";".into())]), lexer_rule(t, a, r)]);
                let l = want.leaves();
                let g = GAPS[cx.states as usize % GAPS.len()];
                let text = layout(&l, &|_| g);
                check(cx, &fe, &want, &text)?;
                if cx.states % 16 == 0 { let PT::N(_, ch) = &want else { unreachable!() }; entry(cx, &fe, &ch[0], "")?; entry(cx, &fe, &ch[1], "")?; entry(cx, &fe, &PT::N(8, vec![PT::L(REGULAR, r.into())]), ";")?; entry(cx, &fe, &e, ";")?; }
            } } } } }
            if k == 0 {
                for s in ["*", "+", "?", "*?", "+?", "??"] {
                    let want = PT::N(6, s.chars().map(|c| PT::L(match c { '*' => STAR, '+' => PLUS, _ => QUESTION }, c.to_string())).collect());
                    // a suffix may be followed by anything that can follow an element
                    for f in ["ra", "AA", "'x'", "( ra )", "|", ")", ";"] { entry(cx, &fe, &want, &format!(" {f}"))?; }
                }
                entry(cx, &fe, &PT::N(4, vec![PT::L(EPSILON, "ε".into())]), ";")?;
                entry(cx, &fe, &list(vec![]), "")?;
            }
        }
        2 => {
            // every choice of white space in every gap, for short texts
            let shorts: Vec<PT> = vec![
                list(vec![]),
                list(vec![lexer_rule("AA", ":", "/a/")]),
                list(vec![parser_rule("ra", "=", &vec![vec![]])]),
                list(vec![parser_rule("ra", "->", &vec![vec![Elem { atom: Atom::Tok(0), suf: Suf::Star, lazy: true }]])]),
                list(vec![parser_rule("ra", ":=", &vec![vec![Elem::plain(Atom::Rule(0)), Elem::plain(Atom::Tok(0))]])]),
                list(vec![parser_rule("ra", "=>", &vec![vec![Elem::plain(Atom::Block(vec![vec![]]))]])]),
            ];
            for want in &shorts {
                let l = want.leaves();
                let n = l.len() + 1;
                for c in 0..GAPS.len().pow(n as u32) {
                    if !mine() { continue; }
                    cx.states += 1;
                    let t = layout(&l, &|i| GAPS[c / GAPS.len().pow(i as u32) % GAPS.len()]);
                    check(cx, &fe, want, &t)?;
                }
            }
        }
        _ => {
            // rule lists: every sequence of definitions up to a length
            let tk = |x| Elem::plain(Atom::Tok(x));
            let pool: Vec<PT> = vec![
                lexer_rule("AA", ":", "/a/"), lexer_rule("BB", "=", "/\\//"), lexer_rule("WHITE_SPACE", "::=", "/[ \\n]+/"),
                parser_rule("ra", ":", &vec![vec![tk(0)]]), parser_rule("rb", "->", &vec![vec![]]), parser_rule("rc", ":", &vec![vec![tk(0), tk(1)], vec![]]),
                parser_rule("rd", ":", &vec![vec![Elem { atom: Atom::Block(vec![vec![tk(0)], vec![Elem::plain(Atom::Rule(0))]]), suf: Suf::Plus, lazy: false }]]),
            ];
            let d = cx.tier.pick(4, 5);
            for i in 0..seq_count(pool.len(), d) {
                if !mine() { continue; }
                cx.states += 1;
                let want = list(nth_seq(i, pool.len()).into_iter().map(|x| pool[x].clone()).collect());
                let g = GAPS[i % GAPS.len()];
                let t = layout(&want.leaves(), &|_| g);
                check(cx, &fe, &want, &t)?;
                if i % 4 == 0 { entry(cx, &fe, &want, "")?; }
            }
            // nesting and length
            for n in LONG {
                if !mine() { continue; }
                let mut e = tk(0); for _ in 0..n.min(300) { e = Elem { atom: Atom::Block(vec![vec![e]]), suf: Suf::Star, lazy: true }; }
                let want = list(vec![parser_rule("ra", ":", &vec![vec![e]])]);
                check(cx, &fe, &want, &layout(&want.leaves(), &|_| ""))?;
                let want = list(vec![parser_rule("ra", ":", &(0..n).map(|i| vec![tk(0); i % 3 + 1]).collect())]);
                check(cx, &fe, &want, &layout(&want.leaves(), &|_| "\n"))?;
                let want = list((0..n).map(|i| lexer_rule(&format!("TK_{i}"), ":", "/x/")).collect());
                check(cx, &fe, &want, &layout(&want.leaves(), &|_| "\n"))?;
            }
        }
    }
    Ok(())
}

const LONG: [usize; 7] = [5, 20, 60, 130, 300, 1100, 5000];
static DEF: CheckDef = CheckDef {
    id: "C12",
    rule: "Every one-rule description up to a size in every uniform layout, every spelling (arrows, identifiers, string and slash literals) in every slot, every choice of white space in every gap of short texts, every sequence of definitions up to a length, deep and long texts; each run through the real shipped lexer, the real table of the shipped description and the real shipped parser, and at every typed entry point including its accessors.",
    bounds: |t| json!({"long_texts": LONG, "one_rule_size_all_layouts": sizes(t).0, "one_rule_size": sizes(t).1, "entry_point_size": sizes(t).2, "layouts": GAPS, "rule_list_length": t.pick(4, 5), "spellings": {"arrows": ARROWS, "rules": RULE_NAMES, "tokens": TOKEN_NAMES, "slash_literals": REGULARS, "string_literals": STRINGS}}),
    assumptions: &["identifiers have at least two characters and epsilon is written as its sign (documented limits of the notation)", "a part parsed from a typed entry point is followed by a token that can follow it in a text"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
