// Building real description trees / JSON from the reference EBNF model and running the real pipeline (included per binary).
#![allow(dead_code)]
use mc::ebnf::*;
use mc::gram::*;
use mc::interpose::guarded;
use serde_json::{json, Value};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Grammar, ProductionItem};
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as L;
use syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser as P;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::LexerRuleData;

pub fn t(kind: usize, name: &str, text: &str) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: Token::new(kind, name, text) }) }
pub fn r(ix: usize, name: &str, ch: Vec<ASTContext>) -> ASTContext { ASTContext::Rule(rc(ix, name, ch)) }
pub fn rc(ix: usize, name: &str, ch: Vec<ASTContext>) -> RuleContext { RuleContext { rule_name: name.to_string(), rule_index: ix, children: ch } }

pub fn block_ast(b: &Block) -> ASTContext {
    let mut ch = vec![];
    for (i, a) in b.iter().enumerate() { if i > 0 { ch.push(t(L::OR, "OR", "|")) } ch.push(alt_ast(a)); }
    r(P::BLOCK, "block", ch)
}
pub fn alt_ast(a: &Alt) -> ASTContext {
    if a.is_empty() { return r(P::ALTERNATIVE, "alternative", vec![r(P::EPSILON, "epsilon", vec![t(L::EPSILON, "EPSILON", "ε")])]); }
    r(P::ALTERNATIVE, "alternative", a.iter().map(elem_ast).collect())
}
pub fn elem_ast(e: &Elem) -> ASTContext {
    let mut ch = match &e.atom {
        Atom::Tok(x) => vec![t(L::TOKEN_REF, "TOKEN_REF", TOKENS[*x])],
        Atom::Rule(x) => vec![t(L::RULE_REF, "RULE_REF", RULES[*x])],
        Atom::Block(b) => vec![t(L::LPAREN, "LPAREN", "("), block_ast(b), t(L::RPAREN, "RPAREN", ")")],
    };
    if e.suf != Suf::None {
        let mut s = vec![match e.suf { Suf::Star => t(L::STAR, "STAR", "*"), Suf::Plus => t(L::PLUS, "PLUS", "+"), _ => t(L::QUESTION, "QUESTION", "?") }];
        if e.lazy { s.push(t(L::QUESTION, "QUESTION", "?")) }
        ch.push(r(P::EBNF_SUFFIX, "ebnf_suffix", s));
    }
    r(P::ELEMENT, "element", ch)
}
pub fn parser_rule_ast(name: &str, b: &Block) -> ASTContext {
    r(P::PARSER_RULE, "parser_rule", vec![t(L::RULE_REF, "RULE_REF", name), t(L::COLON, "COLON", ":"), block_ast(b), t(L::SEMI, "SEMI", ";")])
}
pub fn lexer_rule_ast(name: &str, literal: &str) -> ASTContext {
    r(P::LEXER_RULE, "lexer_rule", vec![t(L::TOKEN_REF, "TOKEN_REF", name), t(L::COLON, "COLON", ":"), r(P::REGULAR, "regular", vec![t(L::REGULAR_LITERAL, "REGULAR_LITERAL", literal)]), t(L::SEMI, "SEMI", ";")])
}
pub fn desc_ast(d: &Desc) -> RuleContext { desc_ast_in(d, 0) }
pub const LAYOUTS: usize = 4;
/// Layouts: parser rules first, token rules first, alternating from either kind.
pub fn desc_ast_in(d: &Desc, layout: usize) -> RuleContext {
    let mut p: std::collections::VecDeque<ASTContext> = d.defs.iter().map(|(n, b)| parser_rule_ast(RULES[*n], b)).collect();
    let mut l: std::collections::VecDeque<ASTContext> = (0..d.tokens).map(|i| lexer_rule_ast(TOKENS[i], &format!("/{}/", PATTERNS[i]))).collect();
    let mut ch: Vec<ASTContext> = vec![];
    match layout {
        0 => { ch.extend(p); ch.extend(l); }
        1 => { ch.extend(l); ch.extend(p); }
        k => while !p.is_empty() || !l.is_empty() {
            let (a, b) = if k == 2 { (l.pop_front(), p.pop_front()) } else { (p.pop_front(), l.pop_front()) };
            ch.extend(a); ch.extend(b);
        }
    }
    rc(P::RULE_LIST, "rule_list", ch)
}
pub fn ast_json(x: &RuleContext) -> Value {
    json!({"rule_index": x.rule_index, "rule_name": x.rule_name, "children": x.children.iter().map(|c| match c {
        ASTContext::Rule(r) => ast_json(r),
        ASTContext::Terminal(t) => json!({"token_type": t.symbol.token_type, "token_name": t.symbol.token_name, "text": t.symbol.text}),
        ASTContext::Error(_) => unreachable!(),
    }).collect::<Vec<_>>()})
}

pub struct Pipe { pub grammar: Grammar, pub data: Vec<LexerRuleData>, pub token_cnt: usize, pub rule_cnt: usize, pub next_rule: usize }

/// The pipeline exactly as the program runs it. Err on panic.
pub fn pipeline(ast: &RuleContext) -> (Result<Pipe, String>, Vec<u8>) {
    guarded(|| {
        let mut grammar = Grammar::new("g");
        let (token_cnt, data) = { let mut v = StringLiteralToTokenVisitor::new(&mut grammar, 2); ast.accept(&mut v); (v.next_token_id, v.data) };
        let (token_cnt, rule_cnt, data) = { let mut v = SymbolVisitor::new(&mut grammar, token_cnt, 0, data); ast.accept(&mut v); (v.next_token_id, v.next_rule_id, v.data) };
        let next_rule = { let mut v = ProductionVisitor::new(&mut grammar, rule_cnt); ast.accept(&mut v); v.next_rule_id };
        Pipe { grammar, data, token_cnt, rule_cnt, next_rule }
    })
}

/// The real productions as a reference grammar; Err if a symbol is not registered or a number is out of range.
pub fn to_cfg(g: &Grammar) -> Result<Cfg, String> { to_cfg_up_to(g, 120) }
pub fn to_cfg_up_to(g: &Grammar, max: usize) -> Result<Cfg, String> {
    let mut prods = vec![];
    for p in &g.productions {
        if !g.vocabulary.is_nonterminal_id(p.left) { return Err(format!("production for unregistered rule {}", p.left)); }
        for i in &p.right { match i {
            ProductionItem::NonTerminal(n) => if !g.vocabulary.is_nonterminal_id(*n) { return Err(format!("unregistered rule {n} in a right side")); },
            ProductionItem::Terminal(n) => if !g.vocabulary.is_terminal_id(*n) || *n > max { return Err(format!("unregistered terminal {n} in a right side")); },
        } }
        prods.push(Prod { l: p.left, r: p.right.iter().map(|i| match i { ProductionItem::Terminal(t) => Sym::T(*t), ProductionItem::NonTerminal(n) => Sym::N(*n) }).collect() });
    }
    prods.sort();
    let mut nts: Vec<usize> = g.vocabulary.get_all_nonterminals().iter().copied().collect(); nts.sort();
    let mut ts: Vec<usize> = g.vocabulary.get_all_terminals().iter().copied().filter(|&x| x > 1).collect(); ts.sort();
    Ok(Cfg { nts, ts, prods })
}

/// Families of descriptions, each unit a slice of one family.
pub enum Fam { One { max: usize, lazy: bool }, Two { total: usize }, Pairs { esize: usize }, Repeat { total: usize }, Many { max: usize } }
impl Fam {
    pub fn name(&self) -> String { match self {
        Fam::One { max, lazy } => format!("one rule, 2 tokens, size <= {max}{}", if *lazy { ", with lazy suffixes" } else { "" }),
        Fam::Two { total } => format!("two mutually referring rules, 2 tokens, total size <= {total}"),
        Fam::Pairs { esize } => format!("six rules sharing numbers with the tokens, first two elements of size <= {esize} over tokens and rules of equal number"),
        Fam::Repeat { total } => format!("repeated definitions of one rule, total size <= {total}"),
        Fam::Many { max } => format!("fixed and size-swept larger descriptions, size <= {max}"),
    } }
    pub const SLICES: usize = 64;
    /// Calls f on every description of slice `k` of this family.
    pub fn run<E>(&self, k: usize, f: &mut dyn FnMut(&Desc) -> Result<(), E>) -> Result<(), E> {
        let mut i = 0usize;
        let mut put = |d: &dyn Fn() -> Desc| -> Result<(), E> { i += 1; if i % Self::SLICES == k { f(&d()) } else { Ok(()) } };
        match self {
            Fam::One { max, lazy } => {
                let g = Gen::new(&[0, 1], &[0], *lazy, *max - 1);
                for n in 1..=*max { g.for_blocks(n, &mut |b| put(&|| Desc { tokens: 2, rules: 1, defs: vec![(0, b.clone())] }))?; }
            }
            Fam::Two { total } => {
                let g = Gen::new(&[0, 1], &[0, 1], false, *total - 1);
                for n in 2..=*total { for a in 1..n { for x in g.blocks(a) { for y in g.blocks(n - a) { put(&|| Desc { tokens: 2, rules: 2, defs: vec![(0, x.clone()), (1, y.clone())] })?; } } } }
            }
            Fam::Pairs { esize } => {
                // tokens 0..3 get numbers 2..5; rules 2..5 have the same numbers
                let g = Gen::new(&[0, 1], &[2, 3], false, *esize);
                let es: Vec<&Elem> = (1..=*esize).flat_map(|n| g.elems(n).iter()).collect();
                let tok = |x: usize| vec![vec![Elem::plain(Atom::Tok(x))]];
                for a in &es { for b in &es {
                    put(&|| Desc { tokens: 4, rules: 6, defs: vec![(0, vec![vec![(*a).clone(), Elem::plain(Atom::Rule(1))]]), (1, vec![vec![Elem::plain(Atom::Tok(2)), (*b).clone()], vec![]]), (2, tok(2)), (3, tok(3)), (4, tok(0)), (5, tok(1))] })?;
                } }
            }
            Fam::Repeat { total } => {
                let g = Gen::new(&[0, 1], &[0, 1], false, *total - 1);
                for n in 2..=*total { for a in 1..n { for x in g.blocks(a) { for y in g.blocks(n - a) {
                    put(&|| Desc { tokens: 2, rules: 2, defs: vec![(0, x.clone()), (1, vec![vec![Elem::plain(Atom::Tok(1))]]), (0, y.clone())] })?;
                } } } }
            }
            Fam::Many { max } => { for d in many(*max) { put(&|| d.clone())?; } }
        }
        Ok(())
    }
}

/// Larger descriptions: nesting, long sequences, long alternations, shared blocks, a realistic one.
pub fn many(max: usize) -> Vec<Desc> {
    let tk = |x: usize| Elem::plain(Atom::Tok(x));
    let ru = |x: usize| Elem::plain(Atom::Rule(x));
    let bl = |b: Block, suf: Suf| Elem { atom: Atom::Block(b), suf, lazy: false };
    let mut v = vec![];
    let one = |b: Block| Desc { tokens: 2, rules: 1, defs: vec![(0, b)] };
    let reps = |n: usize, suf: Suf| Elem { atom: Atom::Tok(n), suf, lazy: false };
    for n in 1..=2 * max {
        let n = n.min(38);
        for suf in [Suf::None, Suf::Star, Suf::Plus, Suf::Quest] {
            let d = |b: Block| Desc { tokens: n.max(2), rules: 1, defs: vec![(0, b)] };
            // n alternatives, each its own token: of the rule, of a block, of a block next to another element
            v.push(d((0..n).map(|k| vec![reps(k, suf)]).collect()));
            v.push(d(vec![vec![bl((0..n).map(|k| vec![tk(k)]).collect(), suf)]]));
            v.push(d(vec![vec![bl((0..n - 1).map(|k| vec![tk(k)]).chain([vec![]]).collect(), suf), tk(n - 1)]]));
            // a sequence of n distinct tokens, bare and as a block
            v.push(d(vec![(0..n).map(|k| reps(k, if k % 3 == 0 { suf } else { Suf::None })).collect()]));
            v.push(d(vec![vec![bl(vec![(0..n).map(tk).collect()], suf)]]));
            // n rules, each its own token, as alternatives / in a row / in a chain
            let mut defs = vec![(0, (0..n).map(|k| vec![Elem { atom: Atom::Rule(k + 1), suf, lazy: false }]).collect::<Block>())];
            defs.extend((0..n).map(|k| (k + 1, vec![vec![tk(k)]])));
            v.push(Desc { tokens: n.max(2), rules: n + 1, defs });
            let mut defs = vec![(0, vec![(0..n).map(|k| Elem { atom: Atom::Rule(k + 1), suf, lazy: false }).collect::<Alt>()])];
            defs.extend((0..n).map(|k| (k + 1, vec![vec![tk(k)]])));
            v.push(Desc { tokens: n.max(2), rules: n + 1, defs });
            let mut defs: Vec<(usize, Block)> = (0..n).map(|k| (k, vec![vec![reps(k, suf), ru(k + 1)]])).collect();
            defs.push((n, vec![vec![]]));
            v.push(Desc { tokens: n.max(2), rules: n + 1, defs });
        }
    }
    for n in 1..=max {
        for suf in [Suf::None, Suf::Star, Suf::Plus, Suf::Quest] {
            // n nested blocks around one token, suffix at every level / innermost / outermost
            for mode in 0..3 {
                let mut e = tk(0);
                for k in 0..n { let here = match mode { 0 => true, 1 => k == 0, _ => k + 1 == n }; e = bl(vec![vec![e]], if here { suf } else { Suf::None }); }
                v.push(one(vec![vec![e, tk(1)]]));
            }
            // n elements in a row, every second with the suffix
            v.push(one(vec![(0..n).map(|k| Elem { atom: Atom::Tok(k % 2), suf: if k % 2 == 0 { suf } else { Suf::None }, lazy: false }).collect()]));
            // n times the same block
            v.push(one(vec![(0..n).map(|k| bl(vec![vec![tk(0)], vec![tk(1)]], if k == n / 2 { suf } else { Suf::None })).collect()]));
            // blocks that differ only in order
            v.push(one(vec![(0..n).map(|k| if k % 2 == 0 { bl(vec![vec![tk(0)], vec![tk(1)]], suf) } else { bl(vec![vec![tk(1), tk(0)]], suf) }).collect()]));
            // n alternatives of growing length
            v.push(one((0..n).map(|k| (0..=k % 4).map(|j| Elem { atom: Atom::Tok((k + j) % 2), suf: if j == 0 { suf } else { Suf::None }, lazy: false }).collect()).collect()));
            // a chain of n rules, the last optional
            if n <= 38 {
                let mut defs: Vec<(usize, Block)> = (0..n - 1).map(|k| (k, vec![vec![Elem { atom: Atom::Tok(k % 2), suf, lazy: false }, ru(k + 1)]])).collect();
                defs.push((n - 1, vec![vec![Elem { atom: Atom::Tok(1), suf, lazy: false }], vec![]]));
                v.push(Desc { tokens: 2, rules: n, defs });
            }
            // the same element with every suffix used in several rules
            if n <= 38 {
                v.push(Desc { tokens: 2, rules: n, defs: (0..n).map(|k| (k, vec![vec![Elem { atom: Atom::Tok(0), suf, lazy: false }, Elem { atom: Atom::Rule((k + 1) % n), suf, lazy: k % 2 == 0 && suf != Suf::None }], vec![tk(1)]])).collect() });
            }
        }
    }
    v
}

pub const BIG: [usize; 10] = [20, 33, 49, 64, 65, 100, 129, 200, 257, 300];
/// Descriptions with n tokens, alternatives, elements, rules or nested blocks.
pub fn big(n: usize) -> Vec<Desc> {
    let el = |x: usize, suf: Suf| Elem { atom: Atom::Tok(x), suf, lazy: false };
    let tk = |x: usize| el(x, Suf::None);
    let ru = |x: usize| Elem::plain(Atom::Rule(x));
    let bl = |b: Block, suf: Suf| Elem { atom: Atom::Block(b), suf, lazy: false };
    const S: [Suf; 4] = [Suf::None, Suf::Star, Suf::Plus, Suf::Quest];
    let mut v = vec![];
    let mut one = |b: Block| v.push(Desc { tokens: n, rules: 1, defs: vec![(0, b)] });
    for q in 0..4 {
        one(vec![(0..n).map(|k| el(k, S[(k + q) % 4])).collect()]);
        one(vec![(0..n).map(|k| el(k, S[q])).chain([el(0, S[q])]).collect()]);
        one((0..n).map(|k| vec![el(k, S[(k + q) % 4]), el((k + 1) % n, S[(k / 4) % 4])]).collect());
        one(vec![vec![bl((0..n).map(|k| vec![tk(k)]).collect(), S[q])]]);
        one(vec![vec![bl(vec![(0..n).map(tk).collect()], S[q])]]);
        // nested on the left and on the right
        let mut a = tk(0); let mut b = tk(n - 1);
        for k in 1..n { a = bl(vec![vec![a, tk(k)]], S[if k % 5 == 0 { q } else { 0 }]); b = bl(vec![vec![tk(n - 1 - k), b], vec![tk(k)]], S[if k % 7 == 0 { q } else { 0 }]); }
        one(vec![vec![a]]); one(vec![vec![b]]);
    }
    // two long blocks that differ in one place, in the last element, in one suffix, in how they are split
    for k in [1, n / 2, n - 2, n - 1] {
        let x: Alt = (0..n).map(tk).collect();
        let mut y = x.clone(); y[k] = tk((k + 1) % n);
        one(vec![vec![bl(vec![x.clone()], Suf::None), bl(vec![y.clone()], Suf::None)]]);
        one(vec![vec![bl(vec![x.clone()], Suf::Star), bl(vec![y], Suf::Star)]]);
        let mut y = x.clone(); y[k] = el(k, Suf::Quest);
        one(vec![vec![bl(vec![x.clone()], Suf::Star), bl(vec![y], Suf::Plus)]]);
        one(vec![vec![bl(vec![x[..k].to_vec(), x[k..].to_vec()], Suf::Star), bl(vec![x[..k - 1].to_vec(), x[k - 1..].to_vec()].into_iter().filter(|a| !a.is_empty()).collect(), Suf::Plus)]]);
        let alts = |m: usize| -> Block { (0..m).map(|k| vec![tk(k)]).collect() };
        one(vec![vec![bl(alts(n), Suf::Star), tk(0), bl(alts(k), Suf::Star)]]);
    }
    // n rules: chain, each in one alternative, in a row, sharing the same elements
    for q in 0..4 {
        let mut defs: Vec<(usize, Block)> = (0..n).map(|k| (k, vec![vec![el(k, S[q]), ru(k + 1)]])).collect(); defs.push((n, vec![vec![]]));
        v.push(Desc { tokens: n, rules: n + 1, defs });
        for row in [false, true] {
            let all: Alt = (0..n).map(|k| Elem { atom: Atom::Rule(k + 1), suf: S[q], lazy: false }).collect();
            let mut defs: Vec<(usize, Block)> = vec![(0, if row { vec![all] } else { all.into_iter().map(|e| vec![e]).collect() })];
            defs.extend((0..n).map(|k| (k + 1, vec![vec![tk(k), el((k + 1) % n, S[q])], vec![bl(vec![vec![tk(k % 3)], vec![tk(0), tk(1)]], S[(q + 1) % 4]), tk(k)]])));
            v.push(Desc { tokens: n, rules: n + 1, defs });
        }
    }
    v
}
/// Long words over the tokens of a big description: each token once, each twice, the first again at the end, backwards, with one left out.
pub fn big_words(n: usize) -> Vec<Vec<usize>> {
    let up: Vec<usize> = (0..n).collect();
    let mut v = vec![up.clone(), up.iter().rev().copied().collect()];
    let mut x = up.clone(); x.push(0); x.push(1); v.push(x);
    for p in [1, n / 2, n - 2] { let mut x = up.clone(); x.remove(p); v.push(x); let mut x = up.clone(); x.insert(p, p); v.push(x); }
    v.push((0..2 * n).map(|i| i / 2).skip(n / 2).take(n + 8).collect());
    for p in [n / 2, n - 2] { v.push((0..n).map(|k| if k == p { p + 1 } else { k }).collect()); }
    v
}

pub fn std_families(level: usize) -> Vec<Fam> {
    match level {
        0 => vec![Fam::One { max: 6, lazy: false }, Fam::One { max: 5, lazy: true }, Fam::Two { total: 5 }, Fam::Pairs { esize: 3 }, Fam::Repeat { total: 4 }, Fam::Many { max: 6 }],
        1 => vec![Fam::One { max: 7, lazy: false }, Fam::One { max: 6, lazy: true }, Fam::Two { total: 6 }, Fam::Pairs { esize: 4 }, Fam::Repeat { total: 5 }, Fam::Many { max: 12 }],
        _ => vec![Fam::One { max: 8, lazy: false }, Fam::One { max: 7, lazy: true }, Fam::Two { total: 7 }, Fam::Pairs { esize: 4 }, Fam::Repeat { total: 6 }, Fam::Many { max: 20 }],
    }
}
pub fn std_units(level: usize) -> usize { std_families(level).len() * Fam::SLICES }
