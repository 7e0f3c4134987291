//! C07: translation of EBNF descriptions preserves every rule's language.
#[path = "../adapt/desc.rs"] mod desc;
use desc::*;
use mc::ebnf::*;
use mc::engine::*;
use serde_json::json;

fn check(cx: &mut Ctx, d: &Desc, s: &WordSpace) -> Res {
    let want = desc_langs(d, s);
    for layout in 0..LAYOUTS { check_in(cx, d, s, &want, layout)?; }
    Ok(())
}
/// Described rules and tokens have numbers (returned), helpers are anonymous.
fn symbols(d: &Desc, p: &Pipe) -> Result<(Vec<usize>, Vec<usize>), String> {
    let v = &p.grammar.vocabulary;
    // symbols: described rules and tokens keep their numbers, helpers are anonymous and new
    let mut rule_id = vec![];
    for n in 0..d.rules { match v.get_nonterminal_id_by_name(RULES[n]) { Some(i) => rule_id.push(i), None => return Err(format!("rule {} has no number", RULES[n])) } }
    let mut letter = vec![];
    for n in 0..d.tokens { match v.get_terminal_id_by_name(TOKENS[n]) { Some(i) => letter.push(i), None => return Err(format!("token {} has no number", TOKENS[n])) } }
    for &i in v.get_all_nonterminals().iter() {
        let named = v.get_nonterminal_name_by_id(i);
        if named.is_some() != rule_id.contains(&i) { return Err(format!("rule number {i} has name {named:?}")); }
    }
    let terminals = v.get_all_terminals().len();
    if terminals != 2 + d.tokens { return Err(format!("{terminals} terminals registered")); }
    Ok((rule_id, letter))
}
fn check_in(cx: &mut Ctx, d: &Desc, s: &WordSpace, want: &[u128], layout: usize) -> Res {
    cx.begin()?;
    cx.states += 1;
    let inp = || json!({"description": d.describe(), "tokens": TOKENS[..d.tokens], "layout": layout});
    let key = format!("{:?}", d.defs);
    let (p, _) = pipeline(&desc_ast_in(d, layout));
    let p = match p { Ok(p) => p, Err(e) => return cx.fail(key, inp(), format!("panic: {e}")) };
    let (rule_id, letter) = match symbols(d, &p) { Ok(x) => x, Err(e) => return cx.fail(key, inp(), e) };
    let g = match to_cfg(&p.grammar) { Ok(g) => g, Err(e) => return cx.fail(key, inp(), e) };
    let got = cfg_langs(&g, s, &|t| letter.iter().position(|&x| x == t));
    cx.transitions += g.prods.len() as u64;
    cx.traces += d.rules as u64;
    for n in 0..d.rules {
        let gl = got[g.ix(rule_id[n])];
        if gl != want[n] {
            let extra = s.list(gl & !want[n]); let missing = s.list(want[n] & !gl);
            return cx.fail(key, inp(), format!("rule {}: derives but should not {:?}; should derive but does not {:?}; productions {}", RULES[n], extra, missing, g.describe()));
        }
        let k = want[n].count_ones();
        cx.outcome(if k == 0 { "empty language within bound" } else if k as usize == s.words.len() { "all words" } else if k == 1 { "one word" } else { "proper non-trivial language" });
    }
    if d.size() >= 5 { cx.sample("translated", || json!({"description": d.describe(), "productions": g.describe(), "words": s.list(want[0]).len()})); }
    cx.max("helper_rules", (g.nts.len() - d.rules) as u64);
    Ok(())
}

/// Big descriptions: the parts of long words matched by each rule, by the description and by the real productions.
fn check_big(cx: &mut Ctx, n: usize, d: &Desc) -> Res {
    cx.begin()?;
    cx.states += 1;
    let layout = 0;
    let inp = || json!({"description": d.describe(), "tokens": d.tokens, "layout": layout});
    let key = format!("{:?}", d.defs);
    let p = match pipeline(&desc_ast_in(d, layout)).0 { Ok(p) => p, Err(e) => return cx.fail(key, inp(), format!("panic: {e}")) };
    let (rule_id, letter) = match symbols(d, &p) { Ok(x) => x, Err(e) => return cx.fail(key, inp(), e) };
    let g = match to_cfg_up_to(&p.grammar, usize::MAX) { Ok(g) => g, Err(e) => return cx.fail(key, inp(), e) };
    cx.transitions += g.prods.len() as u64;
    let back: std::collections::HashMap<usize, usize> = letter.iter().enumerate().map(|(i, &t)| (t, i)).collect();
    let place: std::collections::HashMap<usize, usize> = g.nts.iter().enumerate().map(|(i, &n)| (n, i)).collect();
    let words = big_words(n);
    for w in if n > 129 && cx.tier == Tier::Quick { &words[..4] } else { &words[..] } {
        let want = desc_rels(d, w);
        let got = cfg_rels(&g, w, &|t| back.get(&t).copied());
        for r in 0..d.rules {
            let x = &got[place[&rule_id[r]]];
            cx.traces += 1;
            let show = |(i, j): (usize, usize)| w[i..j].iter().map(|&t| TOKENS[t]).collect::<Vec<_>>().join(" ");
            if let Some(ij) = x.minus(&want[r]) { return cx.fail(key, inp(), format!("rule {} derives but should not: {}", RULES[r], show(ij))); }
            if let Some(ij) = want[r].minus(x) { return cx.fail(key, inp(), format!("rule {} should derive but does not: {}", RULES[r], show(ij))); }
        }
        cx.max("long_word", w.len() as u64);
    }
    Ok(())
}

const BIG_SLICES: usize = 4;
/// Alternatives that twin blocks are made of.
fn alts() -> Vec<Alt> {
    let t = |x: usize| Elem::plain(Atom::Tok(x));
    let s = |x: usize, suf: Suf| Elem { atom: Atom::Tok(x), suf, lazy: false };
    vec![vec![], vec![t(0)], vec![t(1)], vec![t(0), t(1)], vec![s(0, Suf::Quest)], vec![s(1, Suf::Star)], vec![Elem::plain(Atom::Rule(0))]]
}
const SUFS: [Suf; 4] = [Suf::None, Suf::Star, Suf::Plus, Suf::Quest];
const TWIN_SLICES: usize = 16;
/// Two blocks in one description: every pair of up to 3 alternatives each, and longer ones that are one edit apart.
fn twins(cx: &mut Ctx, slice: usize) -> Res {
    let al = alts();
    let mut all: Vec<Block> = al.iter().map(|a| vec![a.clone()]).collect();
    let two: Vec<Block> = all.iter().flat_map(|b| al.iter().map(|a| { let mut c = b.clone(); c.push(a.clone()); c })).collect();
    let three: Vec<Block> = two.iter().flat_map(|b| al.iter().map(|a| { let mut c = b.clone(); c.push(a.clone()); c })).collect();
    all.extend(two); all.extend(three);
    let w = WordSpace::wide(2);
    let e = |b: &Block, suf: Suf| Elem { atom: Atom::Block(b.clone()), suf, lazy: false };
    let put = |cx: &mut Ctx, x: &Block, y: &Block, sx: Suf, sy: Suf, k: usize| {
        cx.count("two blocks", 1);
        let d = Desc { tokens: 2, rules: 3, defs: vec![(0, vec![vec![Elem::plain(Atom::Tok(1)), Elem::plain(Atom::Tok(1))]]), (1, vec![vec![e(x, sx)]]), (2, vec![vec![e(y, sy)]])] };
        check_in(cx, &d, &w, &desc_langs(&d, &w), k % LAYOUTS)
    };
    for (i, x) in all.iter().enumerate() {
        if i % TWIN_SLICES != slice { continue; }
        for (j, y) in all.iter().enumerate() { put(cx, x, y, SUFS[0], if j % 2 == 0 { SUFS[0] } else { SUFS[(i + j / 2) % 4] }, i + j)?; }
    }
    // longer ones, one edit apart, in both orders, with every suffix
    let t = |x: usize| Elem::plain(Atom::Tok(x));
    let long: Block = vec![vec![t(0)], vec![t(1)], vec![t(0), t(1)], vec![t(1), t(0)], vec![t(0), t(0), t(1)], vec![t(1), t(1)], vec![t(0), t(0), t(0)], vec![t(1), t(0), t(1)], vec![t(1), t(1), t(0)]];
    let mut no = 0;
    for n in 2..=long.len() { for start in 0..long.len() {
        let x: Block = (0..n).map(|k| long[(start + k) % long.len()].clone()).collect();
        let mut near: Vec<Block> = vec![];
        for p in 0..=n {
            for a in &al { let mut y = x.clone(); y.insert(p, a.clone()); near.push(y); }
            if p == n { continue; }
            let mut y = x.clone(); y.remove(p); near.push(y);
            for a in &al { let mut y = x.clone(); y[p] = a.clone(); near.push(y); }
            if p + 1 < n { let mut y = x.clone(); y.swap(p, p + 1); near.push(y); let mut y = x.clone(); let z = y.remove(p + 1); y[p].extend(z); near.push(y); }
            let mut y = x.clone(); y.push(x[p].clone()); near.push(y);
            for s in SUFS { let mut y = x.clone(); y[p].last_mut().unwrap().suf = s; near.push(y); let mut y = x.clone(); y[p][0].suf = s; near.push(y); }
            for k in 0..2 { let mut y = x.clone(); y[p].push(t(k)); near.push(y); }
            let mut y = x.clone(); y[p].pop(); near.push(y);
        }
        for y in near {
            no += 1;
            if no % TWIN_SLICES != slice { continue; }
            let s = SUFS[no / TWIN_SLICES % 4];
            put(cx, &x, &y, s, s, no)?; put(cx, &y, &x, s, s, no + 1)?;
        }
    } }
    Ok(())
}
fn run(cx: &mut Ctx, unit: usize) -> Res {
    if unit < BIG.len() * BIG_SLICES {
        let n = BIG[BIG.len() - 1 - unit / BIG_SLICES];
        for (i, d) in big(n).iter().enumerate() { if i % BIG_SLICES == unit % BIG_SLICES { cx.count("big", 1); check_big(cx, n, d)?; } }
        return Ok(());
    }
    let unit = unit - BIG.len() * BIG_SLICES;
    if unit >= std_units(cx.tier.pick(1, 2)) { return twins(cx, unit - std_units(cx.tier.pick(1, 2))); }
    let fams = std_families(cx.tier.pick(1, 2));
    let f = &fams[unit / Fam::SLICES];
    let mut spaces: std::collections::HashMap<usize, WordSpace> = Default::default();
    let name = f.name();
    f.run(unit % Fam::SLICES, &mut |d| { cx.count(&name, 1); let s = spaces.entry(d.tokens).or_insert_with(|| WordSpace::wide(d.tokens)); check(cx, d, s) })
}

static DEF: CheckDef = CheckDef {
    id: "C07",
    rule: "Every description of the families (by exact size, all suffixes at every place), every pair of blocks of up to 3 alternatives and pairs of longer blocks one edit apart, run through the real visitors; for each described rule, the set of all words up to the bound derivable from the real productions is compared with the set denoted by the description, both computed as least fixpoints over sets of words; helper rules checked anonymous and disjoint.",
    bounds: |t| json!({"families": std_families(t.pick(1, 2)).iter().map(|f| f.name()).collect::<Vec<_>>(), "words": "all of length <= 4 over 2 tokens, <= 3 over 4, <= 2 over 8, <= 1 over more, and parts of the word with each token once", "big_descriptions": {"elements, alternatives, rules or nesting": BIG, "words": "all parts of words of that length"}, "layouts": "parser rules before token rules, after, alternating (2 ways)"}),
    assumptions: &["descriptions without string literals (see C19)", "a written epsilon stands alone in its alternative, as the notation requires"],
    units: |t| BIG.len() * BIG_SLICES + std_units(t.pick(1, 2)) + TWIN_SLICES, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
