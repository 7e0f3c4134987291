//! C20: typed accessors return exactly the named direct children.
#[path = "../adapt/trees.rs"] mod trees;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use trees::*;

/// (accessor, the part it is named after, expected number, is it a rule, single-valued, result as addresses)
pub struct Acc { name: &'static str, number: usize, rule: bool, single: bool, got: Vec<usize> }

macro_rules! family { ($m:ident, $fam:ident) => { mod $m {
    use super::*;
    use syntaxis::tool::$fam::syntaxis_context::*;
    use syntaxis::tool::$fam::syntaxis_lexer::SyntaxisLexer as L;
    use syntaxis::tool::$fam::syntaxis_parser::SyntaxisParser as P;
    pub fn all(r: &RuleContext) -> Vec<Acc> {
        let mut v = vec![];
        macro_rules! t { ($c:ident $f:ident $k:ident) => { v.push(Acc { name: concat!(stringify!($c), "::", stringify!($f)), number: L::$k, rule: false, single: true, got: <RuleContext as $c>::$f(r).into_iter().map(addr).collect() }) }; }
        macro_rules! ts { ($c:ident $f:ident $k:ident) => { v.push(Acc { name: concat!(stringify!($c), "::", stringify!($f)), number: L::$k, rule: false, single: false, got: <RuleContext as $c>::$f(r).into_iter().map(addr).collect() }) }; }
        macro_rules! n { ($c:ident $f:ident $k:ident) => { v.push(Acc { name: concat!(stringify!($c), "::", stringify!($f)), number: P::$k, rule: true, single: true, got: <RuleContext as $c>::$f(r).into_iter().map(|x| addr(x.as_rule())).collect() }) }; }
        macro_rules! ns { ($c:ident $f:ident $k:ident) => { v.push(Acc { name: concat!(stringify!($c), "::", stringify!($f)), number: P::$k, rule: true, single: false, got: <RuleContext as $c>::$f(r).into_iter().map(|x| addr(x.as_rule())).collect() }) }; }
        ns!(RuleListContext parser_rule_list PARSER_RULE); ns!(RuleListContext lexer_rule_list LEXER_RULE);
        t!(ParserRuleContext rule_ref RULE_REF); t!(ParserRuleContext colon COLON); n!(ParserRuleContext block BLOCK); t!(ParserRuleContext semi SEMI);
        ns!(BlockContext alternative_list ALTERNATIVE); ts!(BlockContext or_list OR);
        ns!(AlternativeContext element_list ELEMENT); n!(AlternativeContext epsilon EPSILON);
        t!(EpsilonContext epsilon EPSILON);
        t!(ElementContext token_ref TOKEN_REF); t!(ElementContext string_literal STRING_LITERAL); t!(ElementContext rule_ref RULE_REF); t!(ElementContext lparen LPAREN); t!(ElementContext rparen RPAREN); n!(ElementContext block BLOCK); n!(ElementContext ebnf_suffix EBNF_SUFFIX);
        t!(EbnfSuffixContext star STAR); t!(EbnfSuffixContext plus PLUS); ts!(EbnfSuffixContext question_list QUESTION);
        t!(LexerRuleContext token_ref TOKEN_REF); t!(LexerRuleContext colon COLON); t!(LexerRuleContext semi SEMI); n!(LexerRuleContext regular REGULAR);
        t!(RegularContext regular_literal REGULAR_LITERAL);
        v
    }
    /// rule numbers of the family, in the documented order
    pub fn rules() -> [usize; 9] { [P::RULE_LIST, P::PARSER_RULE, P::BLOCK, P::ALTERNATIVE, P::EPSILON, P::ELEMENT, P::EBNF_SUFFIX, P::LEXER_RULE, P::REGULAR] }
} }; }
family!(loaded, syntaxis);
family!(shipped, v1);

/// Child alphabet: every rule number (with decoy grandchildren), every terminal number, some error numbers.
fn kids() -> Vec<MT> {
    let decoy: Vec<MT> = (0..10).map(|n| MT::Rule(n, vec![])).chain((0..24).map(MT::Term)).collect();
    let mut v: Vec<MT> = (0..10).map(|n| MT::Rule(n, decoy.clone())).collect();
    v.extend((0..24).map(MT::Term));
    v.extend((2..23).map(MT::Err));
    v
}
/// Numbers that equal a documented one only in their low bits.
fn strangers() -> Vec<MT> {
    let mut v = vec![];
    for b in [128usize, 256, 32768, 65536, 1 << 31, 1 << 32, 1 << 63] { v.extend((0..9).map(|n| MT::Rule(b + n, vec![]))); v.extend((2..23).map(|n| MT::Term(b + n))); }
    v
}
fn judge(r: &RuleContext) -> Result<(), String> {
    for (fam, accs) in [("loaded descriptions", loaded::all(r)), ("shipped front end", shipped::all(r))] {
        for a in accs {
            let mut want: Vec<usize> = r.children.iter().filter_map(|c| match c { ASTContext::Rule(x) if a.rule && x.rule_index == a.number => Some(addr(x)), ASTContext::Terminal(x) if !a.rule && x.symbol.token_type == a.number => Some(addr(x)), _ => None }).collect();
            if a.single { want.truncate(1); }
            if a.got != want { return Err(format!("{fam}: {} returned {} node(s), expected {} ({} number {})", a.name, a.got.len(), want.len(), if a.rule { "rule" } else { "token" }, a.number)); }
        }
    }
    Ok(())
}
fn check(cx: &mut Ctx, n: usize, ch: &[MT]) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 52; cx.transitions += ch.len() as u64;
    let root = Builder::new().rule(n, ch);
    let (r, _) = guarded(|| judge(&root));
    let e = match r { Ok(Ok(())) => { cx.outcome(match ch.len() { 0 => "no children", 1 => "one child", _ => "several children" }); return Ok(()); } Ok(Err(e)) => e, Err(p) => format!("panic: {p}") };
    let brief: Vec<String> = ch.iter().map(|c| match c { MT::Rule(n, _) => format!("rule {n}"), MT::Term(k) => format!("token {k}"), MT::Err(k) => format!("error {k}") }).collect();
    cx.fail(format!("{n} {brief:?} {e}"), json!({"node": n, "children": brief}), e)
}
/// (children, over how many of the alphabet)
fn len(t: Tier) -> usize { t.pick(3, 4) }
fn total(t: Tier) -> usize { mc::lexref::seq_count(kids().len(), len(t)) }
const CHUNK: usize = 2048;
fn units(t: Tier) -> usize { (total(t) + CHUNK - 1) / CHUNK + 1 }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let k = kids();
    let n = total(cx.tier);
    if unit * CHUNK >= n {
        cx.begin()?;
        let want = [0, 1, 2, 3, 4, 5, 6, 7, 8];
        if loaded::rules() != want || shipped::rules() != want { return cx.fail("rule numbers", json!({}), format!("rule numbers {:?} / {:?}, expected {want:?}", loaded::rules(), shipped::rules())); }
        // long child lists: every kind several times
        for s in strangers() { for x in &k { check(cx, 0, &[s.clone(), x.clone()])?; check(cx, 0, &[x.clone(), s.clone(), x.clone()])?; } }
        for m in (1..=140).chain([150usize, 255, 256, 257, 300, 1100, 5000]) { let ch: Vec<MT> = (0..m).flat_map(|i| k.iter().enumerate().filter(move |(j, _)| (i + j) % 3 != 0).map(move |(_, x)| match x { MT::Rule(n, _) => MT::Rule(*n, vec![MT::Term(i % 24)]), y => y.clone() })).collect(); for n in 0..9 { check(cx, n, &ch)?; } }
        return Ok(());
    }
    for i in unit * CHUNK..((unit + 1) * CHUNK).min(n) {
        let ch: Vec<MT> = mc::lexref::nth_seq(i, k.len()).into_iter().map(|x| k[x].clone()).collect();
        check(cx, i % 9, &ch)?;
        if ch.len() == len(cx.tier) { cx.sample("children", || json!(ch.iter().map(|c| match c { MT::Rule(n, _) => format!("rule {n} with decoys"), x => format!("{x:?}") }).collect::<Vec<_>>())); }
    }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C20",
    rule: "Every node with up to 3 (thorough: 4) children drawn from every rule number (each holding decoy grandchildren of every number), every token number and error leaves of the same numbers, plus long child lists; all 26 accessors of both families on each, results compared by identity.",
    bounds: |t| json!({"children": len(t), "child_alphabet": kids().len(), "nodes": total(t), "stranger_numbers": strangers().len(), "long_lists": "up to 20, 50, 150, 300, 1100 and 5000 of nearly every kind"}),
    assumptions: &["the part an accessor is named after is identified by the constant of that name"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
