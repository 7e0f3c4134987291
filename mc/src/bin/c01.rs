//! C01: breadth-first exploration of registration histories on the real Vocabulary against a reference table.
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::json;
use std::collections::{HashMap, BTreeMap, BTreeSet, HashSet, VecDeque};
use syntaxis::runtime::vocabulary::Vocabulary;

/// The first four of each are the alphabet of the deep phases, all of them that of the wide phase.
const CORE: usize = 4;
const LONG: [&str; 2] = ["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac"];
const NAMES: [&str; 22] = ["x", "y", "_STOP", "1", "", " ", " x", "x ", "X", "_start", "2", "01", "\u{e9}", "e\u{301}", "'x'", "\"x\"", "x\n", "a b", "a\0b", "epsilon", LONG[0], LONG[1]];
const IDS: [usize; 17] = [0, 1, 2, 3, 4, 63, 64, 255, 256, 65_535, 65_536, 65_538, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 2, usize::MAX];

#[derive(Clone, Copy, Debug)]
enum Op { T(usize, usize), N(usize, usize), U(usize) }

fn ops(ids: usize, names: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..ids { for n in 0..names { v.push(Op::T(i, n)); v.push(Op::N(i, n)); } v.push(Op::U(i)); }
    v
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Model { t: BTreeMap<usize, String>, n: BTreeMap<usize, Option<String>> }

impl Model {
    fn new() -> Self {
        Model { t: [(0, "_START".to_string()), (1, "_STOP".to_string())].into_iter().collect(), n: BTreeMap::new() }
    }
    fn apply(&mut self, o: Op) -> bool {
        match o {
            Op::T(i, n) => {
                let (i, n) = (IDS[i], NAMES[n].to_string());
                if self.t.contains_key(&i) || self.t.values().any(|x| *x == n) { return false; }
                self.t.insert(i, n); true
            }
            Op::N(i, n) => {
                let (i, n) = (IDS[i], NAMES[n].to_string());
                if self.n.contains_key(&i) || self.n.values().any(|x| x.as_deref() == Some(&n)) { return false; }
                self.n.insert(i, Some(n)); true
            }
            Op::U(i) => { let i = IDS[i]; if self.n.contains_key(&i) { return false; } self.n.insert(i, None); true }
        }
    }
}

fn apply(v: &mut Vocabulary, o: Op) -> bool {
    match o {
        Op::T(i, n) => v.add_terminal(IDS[i], NAMES[n]),
        Op::N(i, n) => v.add_named_nonterminal(IDS[i], NAMES[n]),
        Op::U(i) => v.add_unnamed_nonterminal(IDS[i]),
    }
}

/// Compares every observation with the model; None if they agree.
fn diff(v: &Vocabulary, m: &Model, ids: &[usize], names: &[&str]) -> Option<String> {
    for &i in ids {
        let tn = m.t.get(&i).cloned();
        let nn = m.n.get(&i).cloned().flatten();
        if v.get_terminal_name_by_id(i) != tn { return Some(format!("terminal name of {i}: {:?}, expected {:?}", v.get_terminal_name_by_id(i), tn)); }
        if v.get_nonterminal_name_by_id(i) != nn { return Some(format!("rule name of {i}: {:?}, expected {:?}", v.get_nonterminal_name_by_id(i), nn)); }
        if v.is_terminal_id(i) != m.t.contains_key(&i) { return Some(format!("is_terminal_id({i})")); }
        if v.is_nonterminal_id(i) != m.n.contains_key(&i) { return Some(format!("is_nonterminal_id({i})")); }
        let want = nn.unwrap_or_else(|| i.to_string());
        if v.get_nonterminal_name_with_default(i) != want { return Some(format!("rule name with default of {i}: {}", v.get_nonterminal_name_with_default(i))); }
        if let Some(tn) = tn { if v.get_terminal_name(i) != tn { return Some(format!("get_terminal_name({i})")); } }
    }
    let (mut tn, mut nn): (HashMap<&str, usize>, HashMap<&str, usize>) = Default::default();
    if names.len() > 100 { for (i, x) in &m.t { tn.insert(x, *i); } for (i, x) in &m.n { if let Some(x) = x { nn.insert(x, *i); } } }
    for &n in names {
        let ti = if names.len() > 100 { tn.get(n).copied() } else { m.t.iter().find(|(_, x)| x.as_str() == n).map(|(i, _)| *i) };
        let ni = if names.len() > 100 { nn.get(n).copied() } else { m.n.iter().find(|(_, x)| x.as_deref() == Some(n)).map(|(i, _)| *i) };
        if v.get_terminal_id_by_name(n) != ti { return Some(format!("terminal number of {n}: {:?}, expected {:?}", v.get_terminal_id_by_name(n), ti)); }
        if v.get_nonterminal_id_by_name(n) != ni { return Some(format!("rule number of {n}: {:?}, expected {:?}", v.get_nonterminal_id_by_name(n), ni)); }
        if v.is_terminal_name_defined(n) != ti.is_some() { return Some(format!("is_terminal_name_defined({n})")); }
        if v.is_nonterminal_name_defined(n) != ni.is_some() { return Some(format!("is_nonterminal_name_defined({n})")); }
    }
    let at: BTreeSet<usize> = v.get_all_terminals().iter().copied().collect();
    let an: BTreeSet<usize> = v.get_all_nonterminals().iter().copied().collect();
    if at != m.t.keys().copied().collect() { return Some(format!("all terminals {at:?}")); }
    if an != m.n.keys().copied().collect() { return Some(format!("all rules {an:?}")); }
    None
}

fn run_history(cx: &mut Ctx, hist: &[Op]) -> Result<Model, Viol> {
    let ids: Vec<usize> = IDS.iter().copied().chain([99]).collect();
    let names: Vec<&str> = NAMES.iter().copied().chain(["_START", "z"]).collect();
    let mut m = Model::new();
    let (r, _) = guarded(|| {
        let mut v = Vocabulary::new();
        if let Some(d) = diff(&v, &m, &ids, &names) { return Err(d); }
        for (k, &o) in hist.iter().enumerate() {
            let want = m.apply(o);
            let got = apply(&mut v, o);
            if got != want { return Err(format!("step {k} {o:?} reported {got}, expected {want}")); }
            // earlier prefixes were checked when they were the frontier; check the state after the last steps only
            if k + 1 >= hist.len() { if let Some(d) = diff(&v, &m, &ids, &names) { return Err(format!("after step {k} {o:?}: {d}")); } }
        }
        Ok(())
    });
    let inp = || json!({"history": hist.iter().map(|o| match *o { Op::T(i, n) => json!(["terminal", IDS[i], NAMES[n]]), Op::N(i, n) => json!(["rule", IDS[i], NAMES[n]]), Op::U(i) => json!(["anonymous rule", IDS[i]]) }).collect::<Vec<_>>()});
    match r {
        Ok(Ok(())) => {}
        Ok(Err(d)) => cx.fail(format!("hist {hist:?}"), inp(), d)?,
        Err(p) => cx.fail(format!("hist {hist:?}"), inp(), format!("panic: {p}"))?,
    }
    Ok(m)
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let all = ops(CORE, CORE);
    if unit >= 2 + 36 * 36 {
        // Phase 4: all sequences of two operations over the wide alphabets, first operation fixed by the unit;
        // the third repeats the first one (which must be refused exactly when the first was accepted).
        let wide = ops(IDS.len(), NAMES.len());
        let a = wide[unit - 2 - 36 * 36];
        for &b in &wide {
            for h in [vec![a, b], vec![a, b, a]] {
                cx.begin()?;
                run_history(cx, &h)?;
                cx.transitions += h.len() as u64; cx.traces += 1; cx.states += 1;
            }
        }
        return Ok(());
    }
    if unit == 0 {
        // Phase 1: every reachable model state (deduplicated), every operation from it, full observation after each.
        let mut seen: HashSet<Model> = HashSet::new();
        let mut q: VecDeque<(Model, Vec<Op>)> = VecDeque::new();
        seen.insert(Model::new());
        q.push_back((Model::new(), vec![]));
        let mut depth = 0;
        while let Some((_, hist)) = q.pop_front() {
            depth = depth.max(hist.len());
            for &o in &all {
                cx.begin()?;
                let mut h = hist.clone();
                h.push(o);
                let m = run_history(cx, &h)?;
                cx.transitions += 1; cx.traces += 1;
                cx.sample("bfs", || json!(format!("{h:?}")));
                if seen.insert(m.clone()) { q.push_back((m, h)); }
            }
        }
        cx.states += seen.len() as u64;
        cx.max("bfs_depth", depth as u64);
        cx.count("distinct_model_states", seen.len() as u64);
        return Ok(());
    }
    if unit == 1 {
        // Phase 3: long histories (table growth): n fresh symbols of each kind, with a failing repeat after each.
        for n in (1..=cx.tier.pick(200usize, 1000)).chain([4100, 33_000, 70_000]) {
            cx.begin()?;
            let mut m = Model::new();
            let (r, _) = guarded(|| {
                let mut v = Vocabulary::new();
                for i in 0..n {
                    let tn = format!("T{i}"); let nn = format!("n{i}");
                    if !v.add_terminal(i + 2, &tn) { return Err(format!("terminal {i} refused")); }
                    m.t.insert(i + 2, tn.clone());
                    if i % 3 == 2 { if !v.add_unnamed_nonterminal(i) { return Err(format!("anonymous rule {i} refused")); } m.n.insert(i, None); }
                    else { if !v.add_named_nonterminal(i, &nn) { return Err(format!("rule {i} refused")); } m.n.insert(i, Some(nn.clone())); }
                    if v.add_terminal(i + 100_000, &tn) || v.add_terminal(i + 2, "fresh") { return Err(format!("repeat of terminal {i} accepted")); }
                    if v.add_named_nonterminal(i, "fresh") || v.add_unnamed_nonterminal(i) { return Err(format!("repeat of rule {i} accepted")); }
                }
                let ids: Vec<usize> = (0..n + 4).chain([100_000, 100_001]).collect();
                let names: Vec<String> = (0..n + 1).flat_map(|i| [format!("T{i}"), format!("n{i}")]).chain(["fresh".into(), "_START".into(), "_STOP".into()]).collect();
                let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                match diff(&v, &m, &ids, &names) { Some(d) => Err(d), None => Ok(()) }
            });
            cx.transitions += 6 * n as u64; cx.traces += 1; cx.states += 1;
            match r { Ok(Ok(())) => {}, Ok(Err(d)) => cx.fail(format!("long {n}"), json!({"symbols": n}), d)?, Err(p) => cx.fail(format!("long {n}"), json!({"symbols": n}), format!("panic: {p}"))? }
        }
        return Ok(());
    }
    // Phase 2: all operation sequences of a fixed length, no deduplication (hidden state cannot hide), first op fixed by the unit.
    let depth = cx.tier.pick(4, 5);
    fn rec(cx: &mut Ctx, all: &[Op], h: &mut Vec<Op>, depth: usize) -> Res {
        cx.begin()?;
        let m = run_history(cx, h)?;
        cx.transitions += h.len() as u64; cx.traces += 1;
        cx.outcome(&format!("registered={}", m.t.len() + m.n.len() - 2));
        if h.len() == depth { return Ok(()); }
        for &o in all { h.push(o); rec(cx, all, h, depth)?; h.pop(); }
        Ok(())
    }
    let u = unit - 2;
    let mut h = vec![all[u / all.len()], all[u % all.len()]];
    rec(cx, &all, &mut h, depth)
}

static DEF: CheckDef = CheckDef {
    id: "C01",
    rule: "BFS over registration histories: every reachable table state x every operation (36: add terminal / named rule / anonymous rule over 4 colliding numbers and 4 names incl. a reserved one), every observer compared with a plain map after every step; plus all operation sequences of a fixed length without deduplication; plus all sequences of two operations (and the first one repeated) over wide alphabets of numbers (around powers of two up to the largest) and names (empty, blank-padded, case and normal-form variants, digits, quoted, control characters, long names differing in the last character); plus growth to hundreds of symbols.",
    bounds: |t| json!({"numbers": &IDS[..CORE], "names": &NAMES[..CORE], "wide_numbers": IDS, "wide_names": NAMES, "bfs": "complete", "sequence_length": t.pick(4, 5), "growth": (t.pick("all sizes to 200, 4100, 33000, 70000", "all sizes to 1000, 4100, 33000, 70000"))}),
    assumptions: &["names and numbers outside the alphabet behave like those in it"],
    units: |_| 2 + 36 * 36 + IDS.len() * (2 * NAMES.len() + 1),
    run,
    stall_s: 60,
    workers: 64,
};
fn main() { mc::engine::main(&DEF) }
