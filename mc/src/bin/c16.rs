//! C16: drawn trees, evaluated as a browser would, and their writing under partial and failing writes.
#[path = "../adapt/trees.rs"] mod trees;
#[path = "../adapt/browser.rs"] mod browser;
use browser::*;
use mc::engine::*;
use mc::interpose::{guarded, with_write_plan, WriteAnswer};
use mc::lexref::{nth_seq, seq_count};
use serde_json::json;
use std::cell::RefCell;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::gui::ast_drawer::ASTDrawer;
use trees::*;

thread_local! { static DRAWER: RefCell<Option<(ASTDrawer, Browser)>> = const { RefCell::new(None) }; }
fn with<R>(f: impl FnOnce(&ASTDrawer, &mut Browser) -> R) -> R {
    DRAWER.with(|d| { let mut d = d.borrow_mut(); let (a, b) = d.get_or_insert_with(|| { std::env::set_current_dir("/repo").expect("/repo"); (ASTDrawer::new(), Browser::start()) }); f(a, b) })
}
fn tok(name: &str, text: &str) -> Token { let mut t = Builder::new(); let ASTContext::Terminal(mut x) = t.node(&MT::Term(2)) else { unreachable!() }; x.symbol.token_name = name.into(); x.symbol.text = text.into(); x.symbol }
fn term(name: &str, text: &str) -> ASTContext { ASTContext::Terminal(TerminalContext { symbol: tok(name, text) }) }
fn err(name: &str, text: &str) -> ASTContext { ASTContext::Error(ErrorContext { symbol: tok(name, text) }) }
fn rule(n: usize, name: &str, ch: Vec<ASTContext>) -> RuleContext { RuleContext { rule_index: n, rule_name: name.into(), children: ch } }
fn sub(n: usize, name: &str, ch: Vec<ASTContext>) -> ASTContext { ASTContext::Rule(rule(n, name, ch)) }

/// Draws, reads the file back, evaluates, compares.
fn check(cx: &mut Ctx, key: &str, input: serde_json::Value, r: &RuleContext) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1;
    let path = cx.scratch.join(format!("doc-{}.html", std::process::id()));
    let p = path.to_str().unwrap().to_string();
    let res = with(|d, b| {
        let (g, _) = guarded(|| d.draw(r, "tree", &p));
        if let Err(e) = g { return Err(format!("drawing panicked: {e}")); }
        let doc = std::fs::read(&path).map_err(|e| format!("no document: {e}"))?;
        judge(b, &doc, r)
    });
    match res { Ok(()) => Ok(()), Err(e) => cx.fail(key, input, e) }
}

const ATOMS: [&str; 40] = ["\\", "`", "$", "{", "}", "${pwned=1}", "</script>", "</SCRIPT ", "<script>", "<!--", "-->", "<", "/script", ">", "\r", "\n", "\r\n", "\0", "\"", "'", "é", "\u{2028}", "😀", "x", "n", "u{41}", "0", "{{ ast }}", "{%", "&lt;", "`;pwned=1;`", "\u{feff}", "\t", "//", "{{ name }}", "{{name}}", "{% raw %}", "{# x #}", "tree", "const ast = "];
const CORE: [&str; 14] = ["\\", "`", "$", "{", "pwned=1", "}", "<", "/", "script", "!", "--", ">", "\r", "u"];
const BIG: &[usize] = &[0, 7, 42, usize::MAX];

/// the same text in each place, and in the others something harmless
fn places(s: &str) -> Vec<RuleContext> { vec![
    rule(1, s, vec![term("T", "t")]), rule(1, "r", vec![term(s, "t")]), rule(1, "r", vec![term("T", s)]), rule(1, "r", vec![err(s, "t"), sub(2, "q", vec![])]), rule(1, "r", vec![err("E", s)]), rule(1, "r", vec![sub(3, s, vec![])]),
] }
fn all_places(s: &str) -> RuleContext { rule(1, s, vec![term("T", s), sub(2, s, vec![err(s, s), sub(3, "x", vec![term(s, "")])]), err("E", s)]) }

fn space() -> Space { Space::new(&[0, 1], &[MT::Term(2), MT::Err(3)], 9) }
fn depth(t: Tier) -> usize { t.pick(5, 6) }
fn named(n: usize, ch: &[MT], k: &mut usize) -> RuleContext {
    *k += 1; let id = *k;
    RuleContext { rule_index: BIG[n % BIG.len()], rule_name: format!("r{id}"), children: ch.iter().map(|c| match c { MT::Rule(n, x) => ASTContext::Rule(named(*n, x, k)), MT::Term(_) => { *k += 1; term(&format!("T{k}"), &format!("text {k}")) } MT::Err(_) => { *k += 1; err(&format!("E{k}"), &format!("text {k}")) } }).collect() }
}

/// the same shape with one name, number and text throughout
fn alike(r: &RuleContext) -> RuleContext {
    rule(7, "r", r.children.iter().map(|c| match c { ASTContext::Rule(x) => ASTContext::Rule(alike(x)), ASTContext::Terminal(_) => term("T", "t"), ASTContext::Error(_) => err("T", "t") }).collect())
}

fn plans(t: Tier) -> Vec<Vec<WriteAnswer>> {
    let answers = [WriteAnswer::Full, WriteAnswer::Short(1), WriteAnswer::Short(700), WriteAnswer::Short(8192), WriteAnswer::Short(14000), WriteAnswer::Eintr, WriteAnswer::Enospc];
    (0..seq_count(answers.len(), t.pick(4, 6))).map(|i| nth_seq(i, answers.len()).into_iter().map(|a| answers[a]).collect()).collect()
}
fn write_plan(cx: &mut Ctx, r: &RuleContext, good: &[u8], plan: &[WriteAnswer], old: Option<&[u8]>) -> Res {
    cx.begin()?;
    cx.states += 1; cx.traces += 1; cx.transitions += plan.len() as u64;
    let path = cx.scratch.join(format!("w-{}.html", std::process::id()));
    let _ = std::fs::remove_file(&path);
    if let Some(o) = old { std::fs::write(&path, o).unwrap(); }
    let p = path.to_str().unwrap().to_string();
    let ((g, _), calls) = with(|d, _| with_write_plan(plan, || guarded(|| d.draw(r, "tree", &p))));
    let hit = plan.iter().take(calls).any(|a| *a == WriteAnswer::Enospc);
    let now = std::fs::read(&path).unwrap_or_default();
    let e = match (&g, hit) {
        (Ok(_), true) => "a write failed with \"no space left\", yet drawing reported success".to_string(),
        (Ok(_), false) if now != good => format!("drawing reported success, but the document has {} of {} bytes", now.len(), good.len()),
        (Err(m), false) => format!("drawing failed although no write did: {m}"),
        _ => { cx.outcome(if hit { "failing write reported" } else { "written completely" }); return Ok(()); }
    };
    cx.fail(format!("plan {plan:?} old {}", old.is_some()), json!({"write_answers": format!("{plan:?}"), "existing_file": old.map(|o| o.len())}), e)
}

const S: usize = 48;
fn units(_: Tier) -> usize { 4 * S }
fn run(cx: &mut Ctx, unit: usize) -> Res {
    let (kind, k) = (unit / S, unit % S);
    match kind {
        // texts over the full set of pieces
        0 => { let d = cx.tier.pick(2, 3); for i in (k..seq_count(ATOMS.len(), d)).step_by(S) {
            let s: String = nth_seq(i, ATOMS.len()).into_iter().map(|a| ATOMS[a]).collect();
            cx.transitions += s.chars().count() as u64;
            check(cx, &s, json!({"text": s, "where": "everywhere"}), &all_places(&s))?;
            if i <= seq_count(ATOMS.len(), 1) { for (j, r) in places(&s).iter().enumerate() { check(cx, &s, json!({"text": s, "place": j}), r)?; } }
            if i > 40 { cx.sample("text", || json!(s)); }
            cx.outcome("text exact");
        } }
        // longer texts over the dangerous pieces
        1 => { let d = cx.tier.pick(3, 5); for i in (k..seq_count(CORE.len(), d)).step_by(S) {
            let s: String = nth_seq(i, CORE.len()).into_iter().map(|a| CORE[a]).collect();
            cx.transitions += s.chars().count() as u64;
            check(cx, &s, json!({"text": s, "where": "everywhere"}), &all_places(&s))?;
            cx.outcome("text exact");
        } }
        2 => {
            let s = space();
            for i in (k..s.upto(depth(cx.tier))).step_by(S) {
                let ch = s.nth_upto(i); let r = named(i, &ch, &mut 0);
                check(cx, &format!("shape {}", show(0, &ch)), json!({"tree": show(0, &ch)}), &r)?;
                check(cx, &format!("alike {}", show(0, &ch)), json!({"tree": show(0, &ch), "names": "all the same"}), &alike(&r))?;
                if ch.len() > 3 { cx.sample("shape", || json!(show(0, &ch))); }
                cx.outcome("shape exact");
            }
            // every pair of numbers of nodes and leaves
            for (i, (n, ch)) in numbered().into_iter().enumerate() { if i % S == k { let r = Builder::new().rule(n, &ch); check(cx, &format!("numbers {}", show(n, &ch)), json!({"tree": show(n, &ch)}), &r)?; } }
            // every single character of a range; pairs split over two neighbouring leaves
            for c in (k as u32..0x800).step_by(S).chain(0x2000 + k as u32..0x2070).chain((0xfff0 + k as u32..0x10000).step_by(S)) { let Some(c) = char::from_u32(c) else { continue }; let t = format!("a{c}b"); check(cx, &t, json!({"text": t}), &all_places(&t))?; }
            for i in (k..ATOMS.len() * ATOMS.len()).step_by(S) { let (a, b) = (ATOMS[i / ATOMS.len()], ATOMS[i % ATOMS.len()]); check(cx, &format!("{a} | {b}"), json!({"first": a, "second": b}), &rule(1, "r", vec![term("T", a), term(b, ""), term("T", b), sub(2, a, vec![term(b, a)])]))?; }
            // every line and every word of a document, as a text
            let path = cx.scratch.join(format!("own-{}.html", std::process::id()));
            let (g, _) = with(|d, _| guarded(|| d.draw(&rule(1, "r", vec![term("T", "t")]), "tree", path.to_str().unwrap())));
            let own = std::fs::read_to_string(&path).unwrap_or_default();
            if g.is_ok() && !own.is_empty() {
                let mut v: Vec<&str> = own.lines().flat_map(|l| [l, l.trim()].into_iter().chain(l.split_whitespace())).collect();
                v.sort(); v.dedup(); v.push(&own);
                for (i, t) in v.iter().enumerate() { if i % S == k { check(cx, t, json!({"text": t, "where": "everywhere"}), &all_places(t))?; } }
            }
            // long texts, shifted byte by byte
            for shift in 0..10 { for (j, n) in [300usize, 900, 7000, 20000].into_iter().enumerate() { if (shift * 4 + j) % S != k { continue; }
                let t = "x".repeat(shift) + &"字é😀`".repeat(n);
                check(cx, &format!("long {shift} {n}"), json!({"shift": shift, "repetitions": n}), &rule(1, "r", vec![term("T", &t), sub(2, "s", vec![term("U", &t[shift..])])]))?;
                let l = rule(1, &"x".repeat(shift), (0..n / 10).map(|i| term(["字", "T", "é"][i % 3], "😀</script>")).collect());
                check(cx, &format!("many {shift} {n}"), json!({"shift": shift, "leaves": n / 10}), &l)?;
            } }
            for (i, ch) in large(&[0, 1], &MT::Term(2)).into_iter().enumerate() { if i % S == k { let r = named(0, &ch, &mut 0); check(cx, &format!("large {i}"), json!({"large": i}), &r)?; check(cx, &format!("large alike {i}"), json!({"large": i, "names": "all the same"}), &alike(&r))?; } }
        }
        _ => {
            let small = all_places("x"); let mut kk = 0;
            let wide = rule(0, "w", (0..3000).map(|_| { kk += 1; term("T", &format!("é text {kk}")) }).collect());
            let path = cx.scratch.join(format!("g-{}.html", std::process::id()));
            for (ri, r) in [&small, &wide].into_iter().enumerate() {
                let (g, _) = with(|d, _| guarded(|| d.draw(r, "tree", path.to_str().unwrap())));
                let good = std::fs::read(&path).unwrap_or_default();
                if let Err(e) = g { cx.begin()?; return cx.fail("draw", json!({"tree": ri}), format!("drawing panicked: {e}")); }
                if k == 0 { check(cx, "write base", json!({"tree": ri}), r)?; }
                for (i, p) in plans(cx.tier).iter().enumerate() { if i % S != k { continue; }
                    write_plan(cx, r, &good, p, None)?;
                    if i < 60 { let long = vec![b'z'; good.len() + 5000]; write_plan(cx, r, &good, p, Some(&long))?; }
                }
                if k == 1 { let p: Vec<WriteAnswer> = vec![WriteAnswer::Short(1); 400]; write_plan(cx, r, &good, &p, None)?; let p: Vec<WriteAnswer> = [WriteAnswer::Short(300), WriteAnswer::Eintr].repeat(200); write_plan(cx, r, &good, &p, None)?; }
            }
            if k == 2 {
                // a place that cannot be written
                for p in ["missing/dir/doc.html", ""] { cx.begin()?; let q = if p.is_empty() { cx.scratch.clone() } else { cx.scratch.join(p) }; let (g, _) = with(|d, _| guarded(|| d.draw(&small, "tree", q.to_str().unwrap()))); if g.is_ok() { return cx.fail(format!("unwritable {p}"), json!({"path": p}), "the document cannot be created, yet drawing reported success"); } cx.outcome("failing write reported"); }
            }
        }
    }
    Ok(())
}
static DEF: CheckDef = CheckDef {
    id: "C16",
    rule: "Every text up to a length over two sets of pieces (delimiters, script ends, comment marks, template marks, control and non-ASCII characters) in every place a text can go, every line and word of a document itself as a text, every pair split over neighbouring nodes, every character up to U+07FF, every tree shape up to a size, and every sequence of write answers (all, some bytes, interrupted, no space) up to a length; each document's scripts are cut out with the HTML script-data states and evaluated by a JavaScript engine.",
    bounds: |t| json!({"pieces": ATOMS.len(), "length": t.pick(2, 3), "dangerous_pieces": CORE, "dangerous_length": t.pick(3, 5), "shape_nodes": depth(t), "long_texts": "up to 200 kB of multi-byte text, 10 shifts", "large": LARGE, "write_answers": 7, "write_sequence": t.pick(4, 6)}),
    assumptions: &["the drawing library is replaced by a stand-in that records the data it is given", "node fields are called name, id, children and text", "the title argument is a plain word"],
    units, run, stall_s: 120, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
