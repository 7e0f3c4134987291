// Grammars of hundreds of symbols for C02, C03, C04: reference sets as bit vectors, computed from the definitions.
use mc::engine::*;
use mc::gram::{Prod, STOP, Sym};
use mc::interpose::guarded;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};
use Sym::{N, T};

pub const SHAPES: [&str; 9] = ["many alternatives", "many rules that can vanish", "chain", "nested pairs", "one rule in many places", "shared prefix", "falling through", "left-recursive cycle", "tail chain"];
fn sizes(t: Tier, shape: usize) -> Vec<usize> {
    match shape { 1 => t.pick(vec![130, 260], vec![130, 260, 400]), 6 | 7 => t.pick(vec![130, 260], vec![130, 260, 520]), 2 | 8 => t.pick(vec![130, 260], vec![130, 260, 520, 1030]), _ => t.pick(vec![130, 260, 520, 1030], vec![130, 260, 520, 1030, 4100]) }
}
/// (shape, size); the two ways of numbering alternate
fn list(t: Tier) -> Vec<(usize, usize)> { (0..SHAPES.len()).flat_map(|s| sizes(t, s).into_iter().map(move |n| (s, n))).collect() }
pub fn units(t: Tier) -> usize { list(t).len() }
pub fn bounds(t: Tier) -> serde_json::Value { json!(list(t).iter().map(|(s, n)| format!("{} of {n}", SHAPES[*s])).collect::<Vec<_>>()) }

fn build(shape: usize, n: usize) -> Vec<Prod> {
    let mut v = vec![];
    let mut p = |l: usize, r: Vec<Sym>| v.push(Prod { l, r });
    let (a, b) = (n + 2, n + 3);
    match shape {
        0 => { p(0, vec![N(1), N(2)]); p(1, vec![]); p(1, vec![T(a)]); for i in 0..n { p(2, vec![T(2 + i)]); } }
        1 => { p(0, (1..=n).map(N).chain([T(a)]).collect()); for i in 1..=n { p(i, vec![]); p(i, vec![T(1 + i)]); } }
        2 => { for i in 0..n { p(i, vec![N(i + 1)]); } p(n, vec![]); p(n, vec![T(a), N(0), T(b)]); }
        3 => { for i in 0..n { p(i, vec![T(2 + i), N(i + 1), T(2 + i)]); if i % 7 == 0 { p(i, vec![]); } } p(n, vec![T(a)]); }
        4 => { p(0, (0..n).flat_map(|i| [N(1), T(2 + i)]).collect()); p(1, vec![]); p(1, vec![T(a), N(2)]); p(2, vec![N(1)]); }
        5 => { for i in 1..=n { p(0, vec![N(i)]); p(i, vec![N(n + 1), T(1 + i)]); } p(n + 1, vec![]); p(n + 1, vec![T(a)]); }
        6 => { for i in 0..n { p(i, vec![T(2 + i), N(i)]); p(i, vec![N(i + 1)]); } p(n, vec![T(a)]); p(n, vec![]); }
        7 => { for i in 0..n { p(i, vec![N((i + 1) % n), T(2 + i)]); p(i, vec![T(2 + (i * 7) % n)]); } }
        _ => { for i in 0..n { p(i, vec![T(2 + i), N(i + 1)]); p(i, vec![T(a)]); } p(n, vec![T(b)]); p(n, vec![]); }
    }
    v
}
#[derive(Clone, PartialEq)]
struct Bits(Vec<u64>);
impl Bits {
    fn add(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64); }
    fn or(&mut self, o: &Bits) -> bool { let mut c = false; for (x, y) in self.0.iter_mut().zip(&o.0) { c |= *y & !*x != 0; *x |= *y; } c }
    fn list(&self) -> Vec<usize> { (0..self.0.len() * 64).filter(|i| self.0[i / 64] >> (i % 64) & 1 == 1).collect() }
}
struct Ref { nullable: Vec<bool>, first: Vec<Bits>, follow: Vec<Bits>, pnull: Vec<bool>, pfirst: Vec<Bits> }
fn solve(ps: &[Prod], rules: usize, toks: usize) -> Ref {
    let zero = Bits(vec![0; toks / 64 + 1]);
    let (mut nullable, mut first, mut follow) = (vec![false; rules], vec![zero.clone(); rules], vec![zero.clone(); rules]);
    loop { let mut c = false; for p in ps { if !nullable[p.l] && p.r.iter().all(|s| matches!(s, N(x) if nullable[*x])) { nullable[p.l] = true; c = true; } } if !c { break } }
    let pf = |p: &Prod, first: &[Bits]| { let mut b = zero.clone(); for s in &p.r { match s { T(t) => { b.add(*t); break; } N(x) => { b.or(&first[*x]); if !nullable[*x] { break; } } } } b };
    // rules later in the list first: most shapes then settle in one round
    loop { let mut c = false; for p in ps.iter().rev() { let b = pf(p, &first); c |= first[p.l].or(&b); } if !c { break } }
    follow[0].add(STOP);
    loop {
        let mut c = false;
        for p in ps {
            let (mut after, mut empty) = (zero.clone(), true);
            for s in p.r.iter().rev() { match s {
                T(t) => { after = zero.clone(); after.add(*t); empty = false; }
                N(x) => {
                    c |= follow[*x].or(&after);
                    if empty { let f = follow[p.l].clone(); c |= follow[*x].or(&f); }
                    if nullable[*x] { after.or(&first[*x]); } else { after = first[*x].clone(); empty = false; }
                }
            } }
        }
        if !c { break }
    }
    let pnull = ps.iter().map(|p| p.r.iter().all(|s| matches!(s, N(x) if nullable[*x]))).collect();
    let pfirst = ps.iter().map(|p| pf(p, &first)).collect();
    Ref { nullable, first, follow, pnull, pfirst }
}
/// `what`: 2 FIRST, 3 FOLLOW, 4 table.
pub fn run(cx: &mut Ctx, what: usize, unit: usize) -> Res {
    let (shape, n) = list(cx.tier)[unit];
    let ps = build(shape, n);
    let (rules, toks) = (n + 2, n + 4);
    let s = solve(&ps, rules, toks);
    for spread in [1usize, 3] {
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += ps.len() as u64;
        let nt = |t: usize| if t < 2 { t } else { t * spread };
        let nn = |x: usize| x * spread;
        let prod = |p: &Prod| Production::new(nn(p.l), &p.r.iter().map(|s| match s { T(t) => ProductionItem::Terminal(nt(*t)), N(x) => ProductionItem::NonTerminal(nn(*x)) }).collect());
        let (mut x, mut defined) = (Grammar::new("g"), HashSet::new());
        for p in &ps { defined.insert(p.l); }
        for t in 2..toks { x.vocabulary.add_terminal(nt(t), &format!("T{t}")); }
        for r in 0..rules { if defined.contains(&r) { x.vocabulary.add_named_nonterminal(nn(r), &format!("r{r}")); } }
        for p in &ps { x.productions.insert(prod(p)); }
        let key = format!("{} of {n}, numbers times {spread}", SHAPES[shape]);
        let inp = || json!({"shape": SHAPES[shape], "n": n, "numbers": spread, "first_productions": ps.iter().take(6).map(|p| p.show()).collect::<Vec<_>>()});
        let (r, _) = guarded(|| { let (f, pf) = x.first_set(); let fo = if what > 2 { x.follow_set(&f) } else { Default::default() }; (f, pf, fo) });
        let (f, pf, fo) = match r { Ok(v) => v, Err(p) => return cx.fail(key, inp(), format!("panic: {p}")) };
        let want = |b: &Bits| -> HashSet<usize> { b.list().into_iter().map(nt).collect() };
        let differ = |a: &HashSet<usize>, b: &HashSet<usize>| format!("missing {:?}, in excess {:?}", b.difference(a).take(5).collect::<Vec<_>>(), a.difference(b).take(5).collect::<Vec<_>>());
        let mut bad = None;
        if what == 2 {
            if f.len() != defined.len() || pf.len() != x.productions.len() { bad = Some(format!("{} rule sets and {} production sets", f.len(), pf.len())); }
            for &r in &defined { match f.get(&nn(r)) { None => bad = Some(format!("no FIRST for rule {r}")), Some(c) => { let w = want(&s.first[r]); if c.set != w || c.allow_epsilon != s.nullable[r] { bad = Some(format!("FIRST of rule {r}: {}, can vanish: {} / {}", differ(&c.set, &w), c.allow_epsilon, s.nullable[r])); } } } }
            for (i, p) in ps.iter().enumerate() { match pf.get(&prod(p)) { None => bad = Some(format!("no FIRST for {}", p.show())), Some(c) => { let w = want(&s.pfirst[i]); if c.set != w || c.allow_epsilon != s.pnull[i] { bad = Some(format!("FIRST of a production of rule {}: {}", p.l, differ(&c.set, &w))); } } } }
        } else if what == 3 {
            if fo.len() != defined.len() { bad = Some(format!("{} FOLLOW sets for {} rules", fo.len(), defined.len())); }
            for &r in &defined { match fo.get(&nn(r)) { None => bad = Some(format!("no FOLLOW for rule {r}")), Some(c) => { let w = want(&s.follow[r]); if *c != w { bad = Some(format!("FOLLOW of rule {r}: {}", differ(c, &w))); } } } }
        } else {
            let mut claims: BTreeMap<(usize, usize), Vec<usize>> = BTreeMap::new();
            for (i, p) in ps.iter().enumerate() { let mut b = s.pfirst[i].clone(); if s.pnull[i] { b.or(&s.follow[p.l]); } for t in b.list() { claims.entry((nn(p.l), nt(t))).or_default().push(i); } }
            let (r, out) = guarded(|| x.ll1_table(&pf, &fo));
            let t = match r { Ok(t) => t, Err(p) => return cx.fail(key, inp(), format!("panic: {p}")) };
            if t.len() != claims.len() { bad = Some(format!("{} entries, expected {}", t.len(), claims.len())); }
            for (k, c) in &claims { match t.get(k) { None => bad = Some(format!("no entry {k:?}")), Some(q) => if !c.iter().any(|i| prod(&ps[*i]) == **q) { bad = Some(format!("entry {k:?} holds another production")); } } }
            let (printed, conflict) = (!out.iter().all(|b| b.is_ascii_whitespace()), claims.values().any(|c| c.len() > 1));
            if printed != conflict { bad = Some(format!("diagnostic printed: {printed}, conflict present: {conflict}")); }
        }
        cx.outcome("hundreds of symbols");
        cx.max("largest grammar, productions", ps.len() as u64);
        if let Some(b) = bad { return cx.fail(key, inp(), b); }
    }
    Ok(())
}
