//! C23: description -> JSON -> loader -> visitors -> analysis -> table -> parser follows the described rules.
#[path = "../adapt/desc.rs"] mod desc;
#[path = "../adapt/grammar.rs"] mod adapt;
#[path = "../adapt/parse.rs"] mod parse;
use desc::*;
use mc::ebnf::*;
use mc::engine::*;
use mc::gram::*;
use mc::interpose::guarded;
use parse::{show_real, show_tree, tokens, tree_diff};
use serde_json::json;
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::{parser::ll1_parser::LL1Parser, v1::syntaxis_parser::SyntaxisParser as V1Parser};
use syntaxis::tool::serde_ast;

fn check(cx: &mut Ctx, d: &Desc, ws: &[Vec<usize>], layout: usize) -> Res {
    cx.count("descriptions", 1);
    // only descriptions whose translation is LL(1); decided on the reference translation
    let t = translate(d);
    if !t.is_ll1() { return Ok(()); }
    cx.begin()?;
    cx.states += 1;
    cx.count("ll1_descriptions", 1);
    let inp = |w: &[usize]| json!({"description": d.describe(), "layout": layout, "tokens": w.iter().map(|&t| TOKENS[t]).collect::<Vec<_>>()});
    let key = format!("{:?}", d.defs);
    let text = ast_json(&desc_ast_in(d, layout)).to_string();
    let build = || -> Result<(Pipe, parse::Table), String> {
        let (a, _) = guarded(|| serde_ast::from_str(&text));
        let ast = match a { Ok(Ok(x)) => x, Ok(Err(_)) => return Err("the description's JSON was rejected".into()), Err(p) => return Err(format!("loader panicked: {p}")) };
        let (p, _) = pipeline(&ast);
        let p = p.map_err(|e| format!("pipeline panicked: {e}"))?;
        let table = parse::real_table(&p.grammar)?;
        Ok((p, table))
    };
    let first = match build() { Ok(x) => x, Err(e) => return cx.fail(key, inp(&[]), e) };
    let mut pipe = Some(first);
    // larger token sets: the sentences themselves (and each with its last token dropped or doubled) besides the short strings
    let mut more: Vec<Vec<usize>> = vec![];
    if d.tokens > 2 || d.rules > 2 {
        for w in parse::sentences(&t, 12, 24).0 {
            let w: Vec<usize> = w.iter().map(|x| x - 2).collect();
            if let Some(l) = w.last() { let mut a = w.clone(); a.push(*l); more.push(a); more.push(w[..w.len() - 1].to_vec()); }
            more.push(w);
        }
    }
    for w in ws.iter().chain(&more) {
        cx.begin()?;
        cx.transitions += 1; cx.traces += 1;
        let m = Matcher::new(d, w);
        let mut tw: Vec<usize> = w.iter().map(|t| t + 2).collect(); tw.push(STOP);
        let toks = tokens(&tw);
        let (p, table) = pipe.take().unwrap();
        let mut parser = LL1Parser::new(toks.clone(), table, p.grammar);
        let (r, out) = guarded(|| parser.parse());
        let vocabulary = std::mem::replace(&mut parser.grammar.vocabulary, Vocabulary::new());
        let mut shipped = V1Parser::new(toks.clone(), std::mem::take(&mut parser.table), vocabulary);
        let (r2, out2) = guarded(|| shipped.parse());
        parser.grammar.vocabulary = std::mem::replace(&mut shipped.vocabulary, Vocabulary::new());
        for (who, r, out) in [("generic", r, out), ("shipped", r2, out2)] {
        let printed = !out.iter().all(|b| b.is_ascii_whitespace());
        let name = |n: usize| RULES[n].to_string();
        let bad = if let Some(want) = m.tree(0, 0, w.len()) {
            cx.outcome("start rule matches");
            match &r {
                Err(p) => Some(format!("panic on a matching string: {p}")),
                Ok(_) if printed => Some("diagnostic printed for a matching string".into()),
                Ok(x) => tree_diff(x, &want, &toks, &name).map(|e| format!("{e}; got {}, expected {}", show_real(x), show_tree(&want, &name))),
            }
        } else {
            match &r {
                Ok(x) if !printed => {
                    let mut n = 0; count(x, &mut n);
                    cx.outcome("no match, silent parse of a shorter prefix");
                    if n >= w.len() { Some(format!("silent complete parse of a string the start rule does not match: {}", show_real(x))) } else { None }
                }
                _ => { cx.outcome("no match, reported"); None }
            }
        };
        if let Some(b) = bad { return cx.fail(key, inp(w), format!("{who} parser: {b}")); }
        if w.len() >= 3 && d.size() >= 4 { if let Ok(x) = &r { if !printed { cx.sample("parsed", || json!({"description": d.describe(), "word": w, "tree": show_real(x)})); } } }
        }
        // the parser owns grammar and table: take them back for the next string
        let t = std::mem::take(&mut shipped.table);
        let g = std::mem::replace(&mut parser.grammar, syntaxis::tool::grammar::Grammar::new(""));
        pipe = Some((Pipe { grammar: g, data: vec![], token_cnt: 0, rule_cnt: 0, next_rule: 0 }, t));
    }
    Ok(())
}
fn count(x: &syntaxis::runtime::ast::rule_context::RuleContext, n: &mut usize) {
    use syntaxis::runtime::ast::ast_context::ASTContext::*;
    for c in &x.children { match c { Rule(r) => count(r, n), _ => *n += 1 } }
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let fams = std_families(cx.tier.pick(0, 1));
    let f = &fams[unit / Fam::SLICES];
    let tier = cx.tier;
    let mut ws: std::collections::HashMap<usize, Vec<Vec<usize>>> = Default::default();
    f.run(unit % Fam::SLICES, &mut |d| {
        let w = ws.entry(d.tokens).or_insert_with(|| words(&(0..d.tokens).collect::<Vec<_>>(), if d.tokens <= 2 { tier.pick(4, 5) } else if d.tokens <= 4 { 3 } else if d.tokens <= 8 { 2 } else { 1 }));
        for l in 0..LAYOUTS { check(cx, d, w, l)?; }
        Ok(())
    })
}

static DEF: CheckDef = CheckDef {
    id: "C23",
    rule: "Every description of the families whose reference translation is LL(1), written as JSON, loaded, translated, analysed and used to parse every token string up to the bound with the real code; result compared with matching the string against the description directly.",
    bounds: |t| json!({"families": std_families(t.pick(0, 1)).iter().map(|f| f.name()).collect::<Vec<_>>(), "strings": t.pick("all <= 4 over 2 tokens, <= 3 over 4, <= 2 over 8, <= 1 over more", "all <= 5 over 2 tokens, <= 3 over 4, <= 2 over 8, <= 1 over more"), "sentences": "the first 24 sentences up to 12 tokens of descriptions with more tokens or rules, each also with its last token dropped and doubled", "layouts": "4 orders of parser and token rules"}),
    assumptions: &["descriptions without string literals (see C19)", "LL(1) is decided on the documented translation (X+ as N: X N | X, which makes + never LL(1))"],
    units: |t| std_units(t.pick(0, 1)), run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
