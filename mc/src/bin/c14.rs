//! C14: queries on syntax trees.
#[path = "../adapt/trees.rs"] mod trees;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, to_rule::ToRule};
use syntaxis::runtime::token::Token;
use trees::*;

fn space() -> Space { Space::new(&[0, 1], &[MT::Term(2), MT::Term(1), MT::Err(2)], 8) }
fn depth(t: Tier) -> usize { t.pick(7, 8) }
const CHUNK: usize = 2048;
const BIG: [usize; 14] = [127, 128, 255, 256, 258, 5000, 32768, 65535, 65536, 65538, (1 << 31) + 2, (1 << 32) + 2, usize::MAX - 1, usize::MAX];
fn units(t: Tier) -> usize { (space().upto(depth(t)) + CHUNK - 1) / CHUNK + TAIL }
const TAIL: usize = 16;

/// leaves below r in document order: (address, is error, token)
fn leaves<'a>(r: &'a RuleContext, out: &mut Vec<(usize, bool, &'a Token)>) {
    for c in &r.children { match c { ASTContext::Rule(x) => leaves(x, out), ASTContext::Terminal(x) => out.push((addr(x), false, &x.symbol)), ASTContext::Error(x) => out.push((addr(x), true, &x.symbol)) } }
}
fn same(a: &Option<Token>, b: Option<&Token>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.token_index == b.token_index && a.token_type == b.token_type && a.token_name == b.token_name && a.text == b.text && a.channel == b.channel && a.char_start_index == b.char_start_index && a.char_stop_index == b.char_stop_index && a.start.line == b.start.line && a.start.char_position == b.start.char_position && a.stop.line == b.stop.line && a.stop.char_position == b.stop.char_position, _ => false }
}

/// The numbers to ask for: 0 to 3, every number of a child, and what it would be with high or low bits lost or off by one.
fn kinds(r: &RuleContext) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3];
    for c in &r.children {
        let k = match c { ASTContext::Rule(x) => x.rule_index, ASTContext::Terminal(x) => x.symbol.token_type, ASTContext::Error(x) => x.symbol.token_type };
        if k > 3 { v.extend([k, k - 1, k.wrapping_add(1), k & 0x7f, k & 0xff, k & 0x7fff, k & 0xffff, k & 0x7fff_ffff, k & 0xffff_ffff, k ^ 1 << 8, k ^ 1 << 16, k ^ 1 << 32]); }
    }
    v.sort(); v.dedup();
    v
}
/// Everything the statement says about one node.
fn judge(r: &RuleContext, source: &str) -> Result<(), String> {
    if r.get_child_count() != r.children.len() || r.get_rule_index() != r.rule_index || addr(r.get_children()) != addr(&r.children) || addr(r.as_rule()) != addr(r) { return Err("basic accessors".into()); }
    for k in kinds(r) {
        let wt: Vec<usize> = r.children.iter().filter_map(|c| match c { ASTContext::Terminal(x) if x.symbol.token_type == k => Some(addr(x)), _ => None }).collect();
        let we: Vec<usize> = r.children.iter().filter_map(|c| match c { ASTContext::Error(x) if x.symbol.token_type == k => Some(addr(x)), _ => None }).collect();
        let wr: Vec<usize> = r.children.iter().filter_map(|c| match c { ASTContext::Rule(x) if x.rule_index == k => Some(addr(x)), _ => None }).collect();
        let gt: Vec<usize> = r.get_terminals(k).into_iter().map(addr).collect();
        let ge: Vec<usize> = r.get_errornodes(k).into_iter().map(addr).collect();
        let gr: Vec<usize> = r.get_rule_contexts(k).into_iter().map(addr).collect();
        if gt != wt { return Err(format!("get_terminals({k}) returns {} nodes, expected the {} matching ones in order", gt.len(), wt.len())); }
        if ge != we { return Err(format!("get_errornodes({k}) returns {} nodes, expected the {} matching ones in order", ge.len(), we.len())); }
        if gr != wr { return Err(format!("get_rule_contexts({k}) returns {} nodes, expected the {} matching ones in order", gr.len(), wr.len())); }
        let few = r.children.len() > 1200;
        for i in (0..=r.children.len() + 1).filter(|&i| !few || i < 20 || i.is_power_of_two() || (i + 1).is_power_of_two() || i + 20 > wt.len() && i < wt.len() + 2 || i + 20 > wr.len() && i < wr.len() + 2 || i + 20 > we.len() && i < we.len() + 2).chain([usize::MAX, 1 << 8, 1 << 16, 1 << 32]) {
            if r.get_terminal(k, i).map(addr) != wt.get(i).copied() { return Err(format!("get_terminal({k}, {i})")); }
            if r.get_errornode(k, i).map(addr) != we.get(i).copied() { return Err(format!("get_errornode({k}, {i})")); }
            if r.get_rule_context(k, i).map(addr) != wr.get(i).copied() { return Err(format!("get_rule_context({k}, {i})")); }
        }
    }
    let mut l = vec![]; leaves(r, &mut l);
    if !same(&r.get_start_token(), l.first().map(|x| x.2)) { return Err(format!("start token is {:?}, expected {:?}", r.get_start_token().map(|t| t.token_index), l.first().map(|x| x.2.token_index))); }
    if !same(&r.get_stop_token(), l.last().map(|x| x.2)) { return Err(format!("stop token is {:?}, expected {:?}", r.get_stop_token().map(|t| t.token_index), l.last().map(|x| x.2.token_index))); }
    if l.iter().all(|x| !x.1) {
        if r.get_first_terminal().map(addr) != l.first().map(|x| x.0) { return Err(format!("first terminal is {:?}, expected {:?}", r.get_first_terminal().map(|t| t.symbol.token_index), l.first().map(|x| x.2.token_index))); }
        if r.get_last_terminal().map(addr) != l.last().map(|x| x.0) { return Err(format!("last terminal is {:?}, expected {:?}", r.get_last_terminal().map(|t| t.symbol.token_index), l.last().map(|x| x.2.token_index))); }
    }
    // the covered text only where the outermost leaves are somewhere in the text, in order
    let want = match (l.first(), l.last()) { (Some(a), Some(b)) => source.get(a.2.char_start_index..b.2.char_stop_index), _ => Some("") };
    if let Some(want) = want { let got = r.get_text(source); if got != want { return Err(format!("covered text {got:?}, expected {want:?}")); } }
    for c in &r.children { match c {
        ASTContext::Terminal(x) => if x.get_text() != x.symbol.text { return Err("leaf text".into()); },
        ASTContext::Error(x) => if x.get_text() != x.symbol.text { return Err("error leaf text".into()); },
        ASTContext::Rule(x) => judge(x, source)?,
    } }
    Ok(())
}

fn check(cx: &mut Ctx, ch: &[MT]) -> Res {
    for blank in 0..2 { check_with(cx, ch, blank, 0)?; }
    for p in 1..PLACES.len() { if size(ch) <= cx.tier.pick(6, 7) || size(ch) > 100 && size(ch) <= 2000 { check_with(cx, ch, 0, p)?; } }
    Ok(())
}
/// Where the leaves say they are.
const PLACES: [&str; 12] = ["in the text", "nowhere, as loaded from JSON", "of no width, at the start of the text, numbered", "of no width, at the end of the text", "in the text, numbered backwards, on other channels", "ending before they start", "odd ones ending before they start", "even ones ending before they start", "beyond the text", "odd ones beyond the text", "in reverse order", "all in one place, lines and columns alternating, named and skipped alike"];
fn place(r: &mut RuleContext, p: usize, end: usize, n: &mut usize) {
    for c in &mut r.children { 
        let t = match c { ASTContext::Rule(x) => { place(x, p, end, n); continue; } ASTContext::Terminal(x) => &mut x.symbol, ASTContext::Error(x) => &mut x.symbol };
        *n += 1;
        match p {
            1 => { *t = Token::new(t.token_type, &t.token_name, &t.text); }
            2 => { t.char_start_index = 0; t.char_stop_index = 0; t.token_index = *n; }
            3 => { t.char_start_index = end; t.char_stop_index = end; }
            4 => { t.token_index = usize::MAX - *n; t.channel = *n; t.start.line = usize::MAX - *n; t.stop.char_position = 0; }
            5 | 6 | 7 => if p == 5 || *n % 2 == p % 2 { (t.char_start_index, t.char_stop_index) = (end + *n, t.char_start_index / 2); std::mem::swap(&mut t.start, &mut t.stop); },
            8 | 9 => if p == 8 || *n % 2 == 1 { t.char_start_index = usize::MAX - *n; t.char_stop_index = usize::MAX; t.stop.line = usize::MAX; },
            10 => { (t.char_start_index, t.char_stop_index) = (end.saturating_sub(t.char_stop_index), end.saturating_sub(t.char_start_index)); t.token_index = 1000 - (*n).min(1000); t.start.line = t.token_index; },
            11 => { t.token_index = 0; t.char_start_index = 0; t.char_stop_index = end; t.start.line = *n % 2; t.stop.line = (*n + 1) % 2; t.start.char_position = *n % 3; t.token_name = "x".into(); t.channel = 1; }
            _ => {}
        }
    }
}
/// `blank`: which leaves have an empty text, the even or the odd ones.
fn check_with(cx: &mut Ctx, ch: &[MT], blank: usize, places: usize) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1;
    let mut b = Builder::blank(blank);
    let mut root = b.rule(0, ch);
    let n = b.leaves.len();
    if places > 0 { let end = b.source.len(); place(&mut root, places, end, &mut 0); }
    cx.transitions += size(ch) as u64 + 1;
    let before = addr(&root);
    if addr(root.as_mut_rule()) != before { return cx.fail("as_mut_rule", json!({}), "as_mut_rule is not the node itself"); }
    let (r, _) = guarded(|| judge(&root, &b.source));
    let e = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {p}")) };
    if let Some(e) = e { return cx.fail(format!("{} blank {blank} places {places}", show(0, ch)), json!({"tree": show(0, ch), "empty_texts": (["even leaves", "odd leaves"][blank]), "leaves_are": (PLACES[places])}), e); }
    cx.outcome(match n { 0 => "no leaves", 1 => "one leaf", _ => "several leaves" });
    if n > 1 && size(ch) > 4 { cx.sample("tree", || json!(show(0, ch))); }
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let s = space(); let n = s.upto(depth(cx.tier));
    let first = (n + CHUNK - 1) / CHUNK;
    if unit >= first {
        let mut k = 0; let mut mine = || { k += 1; (k - 1) % TAIL == unit - first };
        // numbers of any size, in ones, twos and threes
        let big: Vec<MT> = BIG.iter().flat_map(|&k| [MT::Term(k), MT::Err(k), MT::Rule(k, vec![MT::Term(k)])]).collect();
        for a in &big { if !mine() { continue; } check(cx, &[a.clone()])?; for b in &big { check(cx, &[a.clone(), b.clone()])?; check(cx, &[b.clone(), MT::Term(2), a.clone(), b.clone()])?; } }
        for (n, ch) in numbered() { if mine() { check(cx, &[MT::Rule(n, ch.clone())])?; check(cx, &ch)?; } }
        for ch in large(&BIG, &MT::Term(BIG[3])) { if mine() && size(&ch) <= 5002 { check(cx, &ch)?; } }
        for l in [MT::Term(2), MT::Err(2)] { for ch in large(&[0, 1], &l) { if mine() { check(cx, &ch)?; } } }
        return Ok(());
    }
    for i in unit * CHUNK..((unit + 1) * CHUNK).min(n) { check(cx, &s.nth_upto(i))?; }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C14",
    rule: "Every tree with up to a number of nodes below the root over two rule numbers, two terminal kinds and an error kind (token and rule numbers overlapping), plus chains and wide trees; the texts of the even or of the odd leaves empty; every query with every relevant argument on every node compared with a direct traversal, nodes compared by identity.",
    bounds: |t| json!({"nodes_below_root": depth(t), "trees": space().upto(depth(t)), "leaves_are": PLACES, "large": LARGE, "all_pairs_of_numbers": NUMBERS, "large_numbers": BIG}),
    assumptions: &["the covered text is specified where the first leaf starts before the last one ends, both in the text", "first/last terminal are only specified in trees without error leaves"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
