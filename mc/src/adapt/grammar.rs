// Binding between the reference grammar model and the real Grammar type (included per binary).
#![allow(dead_code)]
use mc::engine::*;
use mc::gram::*;
use std::collections::HashSet;
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};

thread_local! { static NUMBERING: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
/// How the model's symbol numbers (all < 128) are numbered in the real grammar. 0: as they are. 1: far apart and large,
/// equal in their low bits. 2: in reverse order. Terminals 0 and 1 and rule 0 always keep their numbers.
pub const NUMBERINGS: u8 = 3;
pub fn set_numbering(m: u8) { NUMBERING.with(|c| c.set(m)) }
pub fn with_numbering<T>(m: u8, f: impl FnOnce() -> T) -> T { set_numbering(m); let r = f(); set_numbering(0); r }
pub fn numbering() -> u8 { NUMBERING.with(|c| c.get()) }
const FOREIGN: usize = 127;
const TB: [usize; 4] = [5000, (1 << 32) + 2, 1026, 66];
const NB: [usize; 4] = [64, 1 << 33, 300, 65536];
pub fn num_t(t: usize) -> usize { match numbering() { _ if t < 2 => t, 0 => t, 1 => if t < 6 { TB[t - 2] } else { 8192 + 1024 * t }, _ => 200 - t } }
pub fn num_n(n: usize) -> usize { match numbering() { _ if n == 0 => n, 0 => n, 1 => if n < 5 { NB[n - 1] } else { 70000 + 1024 * n }, _ => 150 - n } }
/// back to the model's number; a number that belongs to no symbol of the model becomes 127
pub fn mod_t(x: usize) -> usize { if numbering() == 0 { return x.min(FOREIGN); } (0..FOREIGN).find(|&t| num_t(t) == x).unwrap_or(FOREIGN) }
pub fn mod_n(x: usize) -> usize { if numbering() == 0 { return x; } (0..FOREIGN).find(|&n| num_n(n) == x).unwrap_or(FOREIGN) }

thread_local! { static NAMING: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }
/// How named rules are named. 0: r1, r2... 1: by the digits of their own number. 2: by the digits of another rule's number.
/// 3: as the terminals. 4: empty name for rule 1, white space in the others. 5: underscores, primes, other scripts.
pub const NAMINGS: u8 = 6;
pub fn with_naming<T>(m: u8, f: impl FnOnce() -> T) -> T { NAMING.with(|c| c.set(m)); let r = f(); NAMING.with(|c| c.set(0)); r }
pub fn naming() -> u8 { NAMING.with(|c| c.get()) }
pub fn rule_name(n: usize) -> String { match naming() { 0 => format!("r{n}"), 1 => num_n(n).to_string(), 2 => num_n(n + 1).to_string(), 3 => format!("T{}", n + 2), 4 => if n == 1 { String::new() } else { format!(" r{n} ") }, _ => match n % 4 { 1 => format!("_r{n}"), 2 => format!("Expr{n}'"), 3 => format!("规则{n}_"), _ => format!("__{n}") } } }

pub fn item(s: &Sym) -> ProductionItem { match *s { Sym::T(t) => ProductionItem::Terminal(num_t(t)), Sym::N(n) => ProductionItem::NonTerminal(num_n(n)) } }
pub fn prod(p: &Prod) -> Production { let r: Vec<ProductionItem> = p.r.iter().map(item).collect(); Production::new(num_n(p.l), &r) }
pub fn unprod(p: &Production) -> Prod {
    Prod { l: mod_n(p.left), r: p.right.iter().map(|i| match i { ProductionItem::Terminal(t) => Sym::T(if numbering() == 0 { *t } else { mod_t(*t) }), ProductionItem::NonTerminal(n) => Sym::N(mod_n(*n)) }).collect() }
}
pub fn mask_t<'a>(v: impl IntoIterator<Item = &'a usize>) -> u128 { mask(v.into_iter().map(|t| mod_t(*t))) }

/// Real grammar with vocabulary and no productions. Rules for which `anon` holds are registered anonymously.
pub fn shell(g: &Cfg, anon: &dyn Fn(usize) -> bool) -> Grammar {
    let mut x = Grammar::new("g");
    for &t in &g.ts { x.vocabulary.add_terminal(num_t(t), &format!("T{t}")); }
    for &n in &g.nts { if anon(n) { x.vocabulary.add_unnamed_nonterminal(num_n(n)); } else { x.vocabulary.add_named_nonterminal(num_n(n), &rule_name(n)); } }
    x
}
pub fn fill(x: &mut Grammar, g: &Cfg) { for p in &g.prods { x.productions.insert(prod(p)); } }
pub fn real(g: &Cfg, anon: &dyn Fn(usize) -> bool) -> Grammar { let mut x = shell(g, anon); fill(&mut x, g); x }

pub fn order_of(x: &Grammar, g: &Cfg) -> u64 {
    let mut c = 0u64;
    for p in x.productions.iter() {
        let q = unprod(p);
        c = c * 16 + g.prods.iter().position(|z| *z == q).unwrap_or(15) as u64;
    }
    c
}

pub struct Orders { pub seen: u64, pub complete: bool }

/// Calls `f` once for every distinct iteration order of the production set that can be provoked by fresh hash
/// keys, until all k! have been seen (or the container turns out not to be hash-ordered, or `cap` attempts).
pub fn for_all_orders(g: &Cfg, cap: usize, f: &mut dyn FnMut(&Grammar) -> Res) -> Result<Orders, Viol> {
    let k = g.prods.len();
    let total: u64 = (1..=k as u64).product();
    let mut x = shell(g, &|_| false);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut tries = 0;
    while (seen.len() as u64) < total && tries < cap {
        x.productions = Default::default();
        fill(&mut x, g);
        let o = order_of(&x, g);
        tries += 1;
        if seen.insert(o) { f(&x)?; }
        if tries >= 200 && seen.len() == 1 { return Ok(Orders { seen: 1, complete: true }); }
    }
    Ok(Orders { seen: seen.len() as u64, complete: seen.len() as u64 == total })
}

/// Calls `f` for `n` grammars with fresh hash keys each (for grammars too large for all orders).
pub fn for_some_orders(g: &Cfg, n: usize, f: &mut dyn FnMut(&Grammar) -> Res) -> Res {
    let mut x = shell(g, &|_| false);
    for _ in 0..n { x.productions = Default::default(); fill(&mut x, g); f(&x)?; }
    Ok(())
}

/// Small exhaustive families (all k-subsets of all productions) used by the analysis checks.
pub fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // rules {0,1}, terminals {2,3}, right sides <= 2
    for k in 1..=4 { v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, k)); }
    // rules {0,1,2}: rule 2 and terminal 2 share a number
    for k in 1..=3 { v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, k)); }
    // longer right sides
    for k in 1..=2 { v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, k)); }
    // chains over 4 rules, rhs<=1: deep propagation
    for k in 4..=5 { v.push(Family::new("4 rules, 1 terminal, rhs<=1", &[0, 1, 2, 3], &[2], 1, k)); }
    // the start and end markers inside productions
    for k in 1..=3 { v.push(Family::new("2 rules, both markers, rhs<=2", &[0, 1], &[0, 1], 2, k)); v.push(Family::new("2 rules, the end marker and a terminal, rhs<=2", &[0, 1], &[1, 2], 2, k)); }
    if tier.thorough() {
        v.push(Family::new("2 rules, 2 terminals, rhs<=3", &[0, 1], &[2, 3], 3, 3));
        v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, 4));
        v.push(Family::new("3 rules, 1 terminal, rhs<=2", &[0, 1, 2], &[2], 2, 4));
        v.push(Family::new("4 rules, 1 terminal, rhs<=1", &[0, 1, 2, 3], &[2], 1, 6));
        v.push(Family::new("2 rules, 3 terminals, rhs<=2", &[0, 5], &[2, 3, 5], 2, 4));
    }
    v
}

/// Families whose grammars are also made large in each of the `INFLATIONS`.
pub fn inflated(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for k in 1..=3 { v.push(Family::new("2 rules, 2 terminals, rhs<=2", &[0, 1], &[2, 3], 2, k)); }
    for k in 1..=2 { v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, k)); }
    if tier.thorough() { v.push(Family::new("3 rules, 2 terminals, rhs<=2", &[0, 1, 2], &[2, 3], 2, 3)); }
    v
}
pub fn scaled_sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=tier.pick(12, 24)).collect();
    for n in [13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 100] { if !v.contains(&n) { v.push(n); } }
    v
}
/// Structured larger grammars, each with one size parameter swept.
pub fn scaled(tier: Tier) -> Vec<Cfg> {
    use Sym::*;
    let mut v = vec![];
    for n in scaled_sizes(tier) {
        let nts: Vec<usize> = (0..=n).collect();
        let ts: Vec<usize> = (2..2 + n + 1).collect();
        // chain: 0 -> 1, 1 -> 2, ..., n -> t | eps
        let mut p: Vec<Prod> = (0..n).map(|i| Prod { l: i, r: vec![N(i + 1)] }).collect();
        p.push(Prod { l: n, r: vec![T(2)] }); p.push(Prod { l: n, r: vec![] });
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // right spine with vanishing tails: i -> t_i (i+1), n -> eps
        let mut p: Vec<Prod> = (0..n).map(|i| Prod { l: i, r: vec![T(2 + i), N(i + 1)] }).collect();
        p.push(Prod { l: n, r: vec![] });
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // one long right side of optional parts: 0 -> 1 2 .. n t ; i -> t_i | eps
        let mut p = vec![Prod { l: 0, r: (1..=n).map(N).chain([T(2 + n)]).collect() }];
        for i in 1..=n { p.push(Prod { l: i, r: vec![T(1 + i)] }); p.push(Prod { l: i, r: vec![] }); }
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // the same without the closing terminal (everything vanishes)
        let mut p = vec![Prod { l: 0, r: (1..=n).map(N).collect() }];
        for i in 1..=n { p.push(Prod { l: i, r: vec![T(1 + i)] }); p.push(Prod { l: i, r: vec![] }); }
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // many alternatives of one rule, each one terminal followed by a mark
        let mut p: Vec<Prod> = (0..n).map(|i| Prod { l: 0, r: vec![T(2 + i), N(1), T(2 + n)] }).collect();
        p.push(Prod { l: 1, r: vec![T(2), N(0)] }); p.push(Prod { l: 1, r: vec![] });
        v.push(Cfg { nts: vec![0, 1], ts: ts.clone(), prods: p });
        // long terminal string
        v.push(Cfg { nts: vec![0], ts: ts.clone(), prods: vec![Prod { l: 0, r: (0..n).map(|i| T(2 + i)).collect() }] });
        // cycle: i -> (i+1 mod n+1) | t_i
        let mut p: Vec<Prod> = (0..=n).map(|i| Prod { l: i, r: vec![N((i + 1) % (n + 1))] }).collect();
        for i in 0..=n { p.push(Prod { l: i, r: vec![T(2 + i)] }); }
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // mutual left/right recursion through a vanishing prefix: i -> n (i+1) t_i, n -> eps | t
        let mut p: Vec<Prod> = (0..n).map(|i| Prod { l: i, r: vec![N(n), N((i + 1) % n), T(2 + i)] }).collect();
        p.push(Prod { l: n, r: vec![] }); p.push(Prod { l: 0, r: vec![T(2 + n)] });
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
        // one rule several times in one right side, each time followed by something else: 0 -> 1 t_1 1 t_2 .. 1 ; 1 -> t | eps
        let mut p = vec![Prod { l: 0, r: (0..n).flat_map(|i| [N(1), T(3 + i)]).chain([N(1)]).collect() }];
        p.push(Prod { l: 1, r: vec![T(2)] }); p.push(Prod { l: 1, r: vec![] });
        v.push(Cfg { nts: vec![0, 1], ts: (2..3 + n).collect(), prods: p });
        // the same vanishing rule n times: 0 -> 1 1 .. 1 2 ; 1 -> eps | t ; 2 -> t_3
        let mut p = vec![Prod { l: 0, r: std::iter::repeat_n(N(1), n).chain([N(2)]).collect() }];
        p.push(Prod { l: 1, r: vec![] }); p.push(Prod { l: 2, r: vec![T(3)] });
        v.push(Cfg { nts: vec![0, 1, 2], ts: vec![2, 3], prods: p.clone() });
        p.push(Prod { l: 1, r: vec![T(2)] });
        v.push(Cfg { nts: vec![0, 1, 2], ts: vec![2, 3], prods: p });
        // diamond: 0 uses rules 1..n, each of which uses a shared vanishing rule n+1, each followed by its own token
        let mut p: Vec<Prod> = (1..=n).map(|i| Prod { l: 0, r: vec![T(1 + i), N(i), T(2 + n)] }).collect();
        for i in 1..=n { p.push(Prod { l: i, r: vec![N(n + 1)] }); p.push(Prod { l: i, r: vec![T(1 + i), N(n + 1), T(1 + i)] }); }
        p.push(Prod { l: n + 1, r: vec![] });
        v.push(Cfg { nts: (0..=n + 1).collect(), ts: ts.clone(), prods: p });
        // reverse chain of followers: 0 -> 1 t_n ; i -> t_i (i+1) | t_0 t_i ; the last vanishes or takes its own token
        let mut p = vec![Prod { l: 0, r: vec![N(1), T(2 + n)] }];
        for i in 1..n { p.push(Prod { l: i, r: vec![T(1 + i), N(i + 1)] }); p.push(Prod { l: i, r: vec![N(i + 1), T(1 + i)] }); }
        p.push(Prod { l: n, r: vec![] }); p.push(Prod { l: n, r: vec![T(1 + n), N(0)] });
        v.push(Cfg { nts: nts.clone(), ts: ts.clone(), prods: p });
    }
    v
}

/// hash keyings tried for one of the scaled grammars
pub fn keyings(t: Tier, g: &Cfg) -> usize { match g.prods.len() { 0..=40 => t.pick(200, 2000), 41..=80 => t.pick(24, 400), _ => t.pick(8, 80) } }

/// Iterates the whole analysis space of one unit. `f` gets (grammar, orders are exhaustive?).
pub fn analysis_units(tier: Tier) -> usize { families(tier).iter().map(|f| f.units()).sum::<usize>() + scaled(tier).len() + inflated(tier).iter().map(|f| f.units()).sum::<usize>() }

pub fn run_analysis(cx: &mut Ctx, unit: usize, f: &mut dyn FnMut(&mut Ctx, &Cfg, &Sets, &Grammar) -> Res) -> Res {
    let fams = families(cx.tier);
    let mut u = unit;
    for fam in &fams {
        if u < fam.units() {
            return fam.for_unit(u, &mut |g| {
                if !g.prods.iter().any(|p| p.l == 0) { return Ok(()); }
                cx.begin()?;
                let s = g.sets();
                cx.states += 1;
                let o = for_all_orders(g, 60_000, &mut |x| { cx.transitions += 1; cx.traces += 1; f(cx, g, &s, x) })?;
                cx.count("iteration_orders", o.seen);
                if !o.complete { cx.count("order_enumeration_incomplete", 1); }
                cx.count(&format!("grammars[{},k={}]", fam.name, fam.k), 1);
                for m in 1..NUMBERINGS { cx.begin()?; with_numbering(m, || for_some_orders(g, 1, &mut |x| { cx.transitions += 1; cx.traces += 1; f(cx, g, &s, x) }))?; cx.count("renumbered_grammars", 1); }
                Ok(())
            });
        }
        u -= fam.units();
    }
    let sc = scaled(cx.tier);
    if u >= sc.len() {
        u -= sc.len();
        for fam in inflated(cx.tier) {
            if u < fam.units() {
                return fam.for_unit(u, &mut |small| {
                    if !small.prods.iter().any(|p| p.l == 0) { return Ok(()); }
                    for how in 0..INFLATIONS.len() {
                        if how == 1 && small.prods.len() > 2 && !cx.tier.thorough() { continue; }
                        let g = small.inflate(how);
                        cx.begin()?;
                        let s = g.sets();
                        cx.states += 1;
                        cx.count("grammars[inflated]", 1);
                        for_some_orders(&g, 3, &mut |x| { cx.transitions += 1; cx.traces += 1; f(cx, &g, &s, x) })?;
                    }
                    Ok(())
                });
            }
            u -= fam.units();
        }
        unreachable!()
    }
    let g = &sc[u];
    cx.begin()?;
    let s = g.sets();
    cx.states += 1;
    cx.count("grammars[scaled]", 1);
    let n = keyings(cx.tier, g);
    for m in 0..NUMBERINGS { cx.begin()?; with_numbering(m, || for_some_orders(g, if m == 0 { n } else { n / 8 }, &mut |x| { cx.transitions += 1; cx.traces += 1; f(cx, g, &s, x) }))?; }
    Ok(())
}

pub fn analysis_bounds(t: Tier) -> serde_json::Value {
    serde_json::json!({
        "exhaustive_families": families(t).iter().map(|f| format!("{}: all {}-subsets of {} productions, all {}! iteration orders", f.name, f.k, f.prods.len(), f.k)).collect::<Vec<_>>(),
        "inflations": INFLATIONS, "inflated_families": inflated(t).iter().map(|f| format!("{}: all {}-subsets, 3 hash keyings", f.name, f.k)).collect::<Vec<_>>(),
        "numberings": "every grammar also with symbols renumbered far apart (up to 2^33, equal low bits) and in reverse",
        "scaled": format!("13 shapes x sizes {:?}, {} hash keyings each (fewer above 40 productions; not all orders)", scaled_sizes(t), t.pick(200, 2000)),
    })
}
