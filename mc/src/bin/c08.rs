//! C08: numbering, repeated definitions, token patterns, dangling references.
#[path = "../adapt/desc.rs"] mod desc;
use desc::*;
use mc::ebnf::*;
use mc::engine::*;
use mc::interpose::guarded;
use serde_json::{json, Value};
use syntaxis::runtime::ast::rule_context::RuleContext;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::SymbolVisitor;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor};

// ------------------------------------------------------------ patterns: tiny regex model, priorities as in the regex crate
#[derive(Clone, Debug, PartialEq)]
enum Re { Ch(char), Cat(Box<Re>, Box<Re>), Or(Box<Re>, Box<Re>), Star(Box<Re>), Any, Start, End, Group(Box<Re>) }
const ATOMS: [(char, &str); 5] = [('a', "a"), ('b', "b"), ('/', "\\/"), ('|', "\\|"), ('\\', "\\\\")];
fn src(r: &Re) -> String {
    match r {
        Re::Ch(c) => ATOMS.iter().find(|x| x.0 == *c).unwrap().1.to_string(),
        Re::Any => "[^a]".into(),
        Re::Start => "^".into(),
        Re::End => "$".into(),
        Re::Group(x) => format!("({})", src(x)),
        Re::Cat(x, y) => { let w = |r: &Re| if matches!(r, Re::Or(..)) { format!("({})", src(r)) } else { src(r) }; w(x) + &w(y) }
        Re::Or(x, y) => src(x) + "|" + &src(y),
        Re::Star(x) => match **x { Re::Ch(_) | Re::Any | Re::Group(_) => src(x) + "*", _ => format!("({})*", src(x)) },
    }
}
/// Backtracking matcher: first success in priority order.
fn m(r: &Re, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match r {
        Re::Ch(c) => i < s.len() && s[i] == *c && k(i + 1),
        Re::Any => i < s.len() && s[i] != 'a' && k(i + 1),
        Re::Start => i == 0 && k(i),
        Re::End => i == s.len() && k(i),
        Re::Group(x) => m(x, s, i, k),
        Re::Cat(x, y) => m(x, s, i, &mut |j| m(y, s, j, k)),
        Re::Or(x, y) => m(x, s, i, k) || m(y, s, i, k),
        Re::Star(x) => { if m(x, s, i, &mut |j| j > i && m(r, s, j, k)) { return true; } k(i) }
    }
}
fn prefix(r: &Re, s: &[char]) -> Option<usize> { let mut e = None; if m(r, s, 0, &mut |j| { e = Some(j); true }) { e } else { None } }
/// can match nothing somewhere
fn empty(r: &Re) -> bool { match r { Re::Ch(_) | Re::Any => false, Re::Start | Re::End | Re::Star(_) => true, Re::Group(x) => empty(x), Re::Cat(x, y) => empty(x) && empty(y), Re::Or(x, y) => empty(x) || empty(y) } }
fn patterns(max: usize) -> Vec<Re> {
    let mut by: Vec<Vec<Re>> = vec![vec![]];
    for n in 1..=max {
        let mut v = vec![];
        if n == 1 { v.extend(ATOMS.iter().map(|a| Re::Ch(a.0))); v.push(Re::Any); v.push(Re::Start); v.push(Re::End); }
        if n >= 2 { for x in &by[n - 1] { if !empty(x) { v.push(Re::Star(Box::new(x.clone()))); } } }
        // redundant parentheses around atoms and short sequences
        if n >= 2 { for x in &by[n - 1] { if !matches!(x, Re::Group(_)) { v.push(Re::Group(Box::new(x.clone()))); } } }
        for k in 1..n.saturating_sub(0) { let j = n - k; if j >= 1 && j < n {
            for x in &by[k] { for y in &by[j] { if !matches!(x, Re::Cat(..)) { v.push(Re::Cat(Box::new(x.clone()), Box::new(y.clone()))); } if !matches!(x, Re::Or(..)) { v.push(Re::Or(Box::new(x.clone()), Box::new(y.clone()))); } } }
        } }
        by.push(v);
    }
    by.into_iter().flatten().collect()
}
fn probes(max: usize) -> Vec<String> {
    let al = ['a', 'b', '/', '|', '\\', '\n'];
    let mut out: Vec<String> = vec![String::new()]; let mut layer = out.clone();
    for _ in 0..max { layer = layer.iter().flat_map(|s| al.iter().map(move |c| { let mut t = s.clone(); t.push(*c); t })).collect(); out.extend(layer.clone()); }
    out
}

// ------------------------------------------------------------ definition sequences
#[derive(Clone, Debug)]
enum Item { L(usize, usize), P(usize, usize) }
const PATS: [&str; 2] = ["/x|y/", "/z\\/w/"];
/// bodies of parser rules: what they refer to
fn bodies() -> Vec<Block> {
    let e = |a: Atom| Elem::plain(a);
    vec![
        vec![vec![e(Atom::Tok(0))]],
        vec![vec![e(Atom::Rule(1))]],
        vec![vec![e(Atom::Tok(1)), e(Atom::Rule(0))]],
        vec![vec![], vec![Elem { atom: Atom::Block(vec![vec![e(Atom::Rule(2))], vec![e(Atom::Tok(0))]]), suf: Suf::Star, lazy: false }]],
        vec![vec![]],
    ]
}
fn refs(b: &Block, toks: &mut Vec<usize>, rules: &mut Vec<usize>) {
    for a in b { for e in a { match &e.atom { Atom::Tok(t) => toks.push(*t), Atom::Rule(r) => rules.push(*r), Atom::Block(b) => refs(b, toks, rules) } } }
}
fn alphabet() -> Vec<Item> {
    let mut v = vec![];
    for n in 0..3 { for p in 0..PATS.len() { if n == 2 && p == 1 { continue; } v.push(Item::L(n, p)); } }
    for n in 0..3 { for b in 0..bodies().len() { if n == 2 && b != 4 { continue; } v.push(Item::P(n, b)); } }
    v
}
fn ast(items: &[Item]) -> RuleContext {
    let bs = bodies();
    rc(syntaxis::tool::syntaxis::syntaxis_parser::SyntaxisParser::RULE_LIST, "rule_list", items.iter().map(|i| match i {
        Item::L(n, p) => lexer_rule_ast(TOKENS[*n], PATS[*p]), Item::P(n, b) => parser_rule_ast(RULES[*n], &bs[*b]) }).collect())
}
fn describe(items: &[Item]) -> Value {
    let bs = bodies();
    json!(items.iter().map(|i| match i { Item::L(n, p) => format!("{}: {};", TOKENS[*n], PATS[*p]), Item::P(n, b) => format!("{}: {};", RULES[*n], show_block(&bs[*b])) }).collect::<Vec<_>>())
}
fn nonblank(o: &[u8]) -> bool { !o.iter().all(|b| b.is_ascii_whitespace()) }
fn pat_ok(d: &LexerRuleData, pat: usize) -> Option<String> {
    let re = match regex::Regex::new(&d.regex) { Ok(r) => r, Err(e) => return Some(format!("pattern {:?} of {} is invalid: {e}", d.regex, d.token_name)) };
    for (s, want) in [("x", [Some(1), None]), ("y", [Some(1), None]), ("ay", [None, None]), ("z/w", [None, Some(3)]), ("z\\/w", [None, None]), ("az/w", [None, None]), ("", [None, None]), ("xy", [Some(1), None]), ("z/wz/w", [None, Some(3)])] {
        let got = re.find(s).map(|m| (m.start(), m.end()));
        if got != want[pat].map(|e| (0, e)) { return Some(format!("pattern {:?} written {} on {:?}: {:?}, expected {:?}", d.regex, PATS[pat], s, got, want[pat])); }
    }
    None
}

fn check_seq(cx: &mut Ctx, items: &[Item]) -> Res {
    cx.begin()?;
    cx.states += 1; cx.transitions += items.len() as u64; cx.traces += 1;
    let mut toks: Vec<(usize, usize)> = vec![]; let mut rules: Vec<usize> = vec![];
    let (mut dup_t, mut dup_r) = (vec![], vec![]);
    for i in items { match i {
        Item::L(n, p) => if toks.iter().any(|x| x.0 == *n) { dup_t.push(*n) } else { toks.push((*n, *p)) },
        Item::P(n, _) => if rules.contains(n) { dup_r.push(*n) } else { rules.push(*n) },
    } }
    let bs = bodies();
    let mut dangling = false;
    for i in items { if let Item::P(_, b) = i { let (mut t, mut r) = (vec![], vec![]); refs(&bs[*b], &mut t, &mut r); dangling |= t.iter().any(|x| !toks.iter().any(|y| y.0 == *x)) || r.iter().any(|x| !rules.contains(x)); } }
    let tree = ast(items);
    let key = format!("{items:?}");
    // --- numbering visitor
    let (r, out) = guarded(|| {
        let mut g = Grammar::new("g");
        let (tn, rn, data) = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); (v.next_token_id, v.next_rule_id, v.data) };
        (g, tn, rn, data)
    });
    let (g, tn, rn, data) = match r { Ok(x) => x, Err(p) => return cx.fail(key, describe(items), format!("numbering panicked: {p}")) };
    let v = &g.vocabulary;
    let check_data = |data: &[LexerRuleData]| -> Option<String> {
        if data.len() != toks.len() { return Some(format!("{} token rules listed, expected {}", data.len(), toks.len())); }
        for (k, (d, (n, p))) in data.iter().zip(&toks).enumerate() {
            if d.token_type != k + 2 || d.token_name != TOKENS[*n] { return Some(format!("token rule {k} is {}={}, expected {}={}", d.token_name, d.token_type, TOKENS[*n], k + 2)); }
            if let Some(e) = pat_ok(d, *p) { return Some(e); }
        }
        None
    };
    let mut bad = check_data(&data);
    for (k, (n, _)) in toks.iter().enumerate() { if v.get_terminal_id_by_name(TOKENS[*n]) != Some(k + 2) || v.get_terminal_name_by_id(k + 2).as_deref() != Some(TOKENS[*n]) { bad = Some(format!("token {} has number {:?}, expected {}", TOKENS[*n], v.get_terminal_id_by_name(TOKENS[*n]), k + 2)); } }
    for (k, n) in rules.iter().enumerate() { if v.get_nonterminal_id_by_name(RULES[*n]) != Some(k) || v.get_nonterminal_name_by_id(k).as_deref() != Some(RULES[*n]) { bad = Some(format!("rule {} has number {:?}, expected {}", RULES[*n], v.get_nonterminal_id_by_name(RULES[*n]), k)); } }
    if v.get_all_nonterminals().len() != rules.len() || v.get_all_terminals().len() != toks.len() + 2 { bad = Some(format!("{} rules and {} terminals registered, expected {} and {}", v.get_all_nonterminals().len(), v.get_all_terminals().len(), rules.len(), toks.len() + 2)); }
    if tn != toks.len() + 2 || rn != rules.len() { bad = Some(format!("next numbers are {tn} and {rn}, expected {} and {}", toks.len() + 2, rules.len())); }
    let text = String::from_utf8_lossy(&out).to_string();
    let lines = text.lines().filter(|l| !l.trim().is_empty()).count();
    if lines != dup_t.len() + dup_r.len() && bad.is_none() { bad = Some(format!("{lines} repeated definitions reported, expected {}: {text:?}", dup_t.len() + dup_r.len())); }
    for n in &dup_t { if !text.contains(TOKENS[*n]) { bad = Some(format!("repeated definition of {} not reported", TOKENS[*n])); } }
    for n in &dup_r { if !text.contains(RULES[*n]) { bad = Some(format!("repeated definition of {} not reported", RULES[*n])); } }
    if let Some(b) = bad { return cx.fail(key, describe(items), b); }
    // --- the token-rule visitor on its own
    let (r, out) = guarded(|| { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); (v.data, v.next_token_type) });
    let (data, next) = match r { Ok(x) => x, Err(p) => return cx.fail(key, describe(items), format!("token rule visitor panicked: {p}")) };
    let mut bad = check_data(&data);
    if next != toks.len() + 2 { bad = Some(format!("next token number {next}")); }
    let text = String::from_utf8_lossy(&out).to_string();
    for n in &dup_t { if !text.contains(TOKENS[*n]) { bad = Some(format!("token rule visitor does not report the repeated {}", TOKENS[*n])); } }
    if dup_t.is_empty() && nonblank(&out) { bad = Some(format!("token rule visitor reports {text:?} without a repeat")); }
    if let Some(b) = bad { return cx.fail(key, describe(items), b); }
    // --- dangling references through the whole pipeline
    let (p, out) = pipeline(&tree);
    let reported = p.is_err() || (nonblank(&out) && dup_t.is_empty() && dup_r.is_empty());
    if dangling && !reported && p.is_ok() { return cx.fail(key, describe(items), "a reference to an undefined symbol is accepted silently".to_string()); }
    if !dangling { if let Err(e) = &p { return cx.fail(key, describe(items), format!("panic without a dangling reference: {e}")); } }
    if let Ok(p) = &p { if p.rule_cnt != rules.len() || p.token_cnt != toks.len() + 2 || check_data(&p.data).is_some() { return cx.fail(key, describe(items), format!("pipeline counts {} tokens, {} rules", p.token_cnt, p.rule_cnt)); } }
    cx.outcome(if dangling { "dangling reference reported" } else if !dup_t.is_empty() && !dup_r.is_empty() { "repeats of both kinds" } else if !dup_t.is_empty() { "repeated token" } else if !dup_r.is_empty() { "repeated rule" } else { "clean" });
    Ok(())
}

fn seq_len(t: Tier) -> usize { t.pick(5, 6) }
fn pat_size(t: Tier) -> usize { t.pick(4, 5) }
const PSLICES: usize = 64;
fn units(_: Tier) -> usize { let a = alphabet().len(); a * a + PSLICES + 2 + 4 + 2 + SHAPES }
const SHAPES: usize = 10;
/// Patterns as people write them. The meaning of each is what the regex engine gives to it with \/ read as a slash.
fn written() -> Vec<String> {
    let mut v: Vec<String> = [
        "[a-zA-Z_][a-zA-Z0-9_]*", "[0-9]+(\\.[0-9]+)?", "\"([^\"\\\\]|\\\\.)*\"", "'[^']*'", "\\s+", "[ \\t\\r\\n]+", "\\/\\/[^\\n]*", "\\/\\*[\\s\\S]*?\\*\\/", "[\\/]", "[^\\/]", "[\\/\\\\]+", "\\\\\\/", "\\\\", "\\/", "\\/\\/", "a\\/", "\\/a", "a\\/b\\/c",
        "(?i)select", "(?i:a)b", "(?s).", "(?m)^a$", "(?x) a b # c", "(?-u:a)", "(?U)a+", "(?P<n>a)b", "(?:a|b)|c", "a|", "|a", "(a|b|)c", "a||b", "a{2,3}", "a{2}b?", "a{0}", "a*?b", "a+?", "a??b", ".", "..", ".*", ".+a", "^a", "a$", "^a$", "a^b", "\\Aab", "ab\\z", "\\bab\\b", "\\Bb", "$", "^", "\\x2f", "\\u{2f}b", "\\u{1F600}",
        "\\d+", "\\D", "\\w+", "\\W+", "\\p{L}+", "\\p{Greek}", "[[:alpha:]]+", "[^\\d]", "[a&&b]", "[a-c--b]", "[]a]", "[^]a]", "[a\\]]", "[\\-a]", "[-a]", "[a-]", "\\(\\)", "\\[\\]", "\\{\\}", "\\+\\*\\?", "\\.", "\\|", "\\^\\$", "\\#", "#", "\\-", "~", "&", "%", "`", "'", "\"", "\"#", "\"####", "####\"", " ", "  ", " a", "a ", "a b", "\t", "\n", "a\nb", "\\n", "\\t", "\\r\\n", "\\f", "\\v", "\\a", "\u{a0}", "\r\n",
        "é", "字", "字+", "[é字]", "[à-ü]+", "😀", "e\u{301}", "é*é", "(字|é)b", "\u{feff}a", "ß", "ε", ";", ":", "a;b", "AA: b", "{", "}", "{{", "}}", "{{ a }}", "{% a %}", "{# a #}", "<a>", "</a>".trim_start_matches('<'), "&lt;", "&amp;", "&#x27;", "$0", "$a", "\\$1", "%s", "{}", "{0}", "(ab", "[ab", "*a", "a**", "a)", "\\", "\\q",
    ].iter().map(|s| s.to_string()).collect();
    for n in [10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000] { v.push("a".repeat(n)); v.push("\\/".repeat(n)); v.push("é".repeat(n)); v.push(format!("({})", vec!["ab"; n].join("|"))); v.push("[ab]".repeat(n)); v.push(format!("{}b", "a?".repeat(n.min(200)))); }
    v
}
fn w_probes(pat: &str) -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "ab", "aa", "aaa", "aaaa", "A", "aB", "select", "SELECT x", "abc", "c", "ba", "a b", "a/", "/a", "/", "//", "// x\ny", "/* x\n*/ */", "\\", "\\/", "/\\", "\\n", "\n", "\na", "a\n", "\na\n", "\r\n", "\t", " ", "  ", " a", "a ", "12", "12.5", "1a", "_", "-", "]", "[", "(", ")", "()", "[]", "{", "}", "{}", "{{", "{{ a }}", "{% a %}", "{# a #}", "{0}", "+", "*", "+*?", "?", ".", "|", "^", "$", "^$", "#", "~", "&", "%", "`", "'", "''", "'a'", "\"", "\"a\"", "\"\\\"\"", "\"#", "####\"", "\"####", "\u{c}", "\u{b}", "\u{7}", "\u{a0}", "é", "éé", "字", "字字b", "àé", "😀", "e\u{301}", "\u{feff}a", "ß", "SS", "ε", "Α", ";", ":", "a;b", "AA: b", "<a>", "/a>", "&lt;", "<", "&amp;", "&#x27;", "$0", "$1", "%s", "q", "x", "f", "v", "n", "t", "s", "d", "w"].iter().map(|s| s.to_string()).collect();
    // what the pattern would match if it were read literally
    let lit = pat.replace("\\/", "/");
    let n = lit.chars().count();
    for k in [n, n.saturating_sub(1), n / 2] { v.push(lit.chars().take(k).collect()); }
    v.push(pat.to_string()); v.push(format!("{lit}x")); v.push(format!("x{lit}")); v.push(format!("/{pat}/"));
    if n >= 10 { for c in ["a", "b", "é", "/", "ab"] { for k in [n - 1, n, n + 1, n / 4, n / 2] { v.push(c.repeat(k)); } } }
    v
}
fn check_written(cx: &mut Ctx, pat: &str) -> Res {
    let meaning = match regex::Regex::new(&format!("^(?:{})", pat.replace("\\/", "/"))) { Ok(r) => Some(r), Err(_) => None };
    let meaning = if regex::Regex::new(&pat.replace("\\/", "/")).is_err() { None } else { meaning };
    cx.begin()?; cx.states += 1;
    let lit = format!("/{pat}/");
    let inp = json!({"token rule": format!("AA: {};", lit.chars().take(200).collect::<String>()), "length": lit.len()});
    let tree = rc(0, "rule_list", vec![lexer_rule_ast("AA", &lit), lexer_rule_ast("BB", "/b/")]);
    let (r, _) = guarded(|| { let mut g = Grammar::new("g"); let d1 = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data }; let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); (d1, v.data) });
    // an invalid pattern may be refused in any way
    let Some(meaning) = meaning else { cx.outcome("invalid pattern"); return Ok(()) };
    let (d1, d2) = match r { Ok(x) => x, Err(e) => return cx.fail(format!("written {lit}"), inp, format!("panic: {e}")) };
    for d in [&d1, &d2] {
        if d.len() != 2 || d[0].token_name != "AA" { return cx.fail(format!("written {lit}"), inp, "token rule lost"); }
        let re = match regex::Regex::new(&d[0].regex) { Ok(r) => r, Err(e) => return cx.fail(format!("written {lit}"), inp, format!("pattern {:?} is invalid: {e}", d[0].regex)) };
        for p in w_probes(pat) {
            cx.transitions += 1; cx.traces += 1;
            let (want, got) = (meaning.find(&p).map(|m| (m.start(), m.end())), re.find(&p).map(|m| (m.start(), m.end())));
            if got != want { return cx.fail(format!("written {lit}"), inp, format!("pattern {:?} on {:?}: {got:?}, expected {want:?}", d[0].regex.chars().take(300).collect::<String>(), p.chars().take(100).collect::<String>())); }
        }
    }
    cx.outcome("written pattern agrees with its meaning");
    Ok(())
}
/// Lists with names that are nearly the same, and repeats far from the first definition.
fn near_names(cx: &mut Ctx) -> Res {
    let tn: Vec<String> = ["A", "AA", "AAA", "Aa", "A_", "A_A", "A0", "A00", "AB", "BA", "T_", "WS", "WHITE_SPACE", "White_space", "EOF", "STOP", "START", "EPSILON", "TOKEN_REF"].iter().map(|s| s.to_string()).chain([64, 65, 255, 256, 257, 300].iter().flat_map(|&n| ["A".repeat(n), "A".repeat(n) + "B", "A".repeat(n) + "C"])).collect();
    let mut tn = tn; tn.sort(); tn.dedup(); tn.reverse();
    let rn: Vec<String> = tn.iter().map(|s| s.to_lowercase()).chain(["aA", "aB", "a_a_", "wS", "white_Space", "_start", "a'", "A", "é", "É"].map(String::from)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    for variant in 0..3 {
        cx.begin()?; cx.states += 1; cx.traces += 1;
        let mut ch = vec![];
        for (i, t) in tn.iter().enumerate() { ch.push(lexer_rule_ast(t, "/a/")); if let Some(r) = rn.get(i) { ch.push(parser_rule_ast(r, &vec![vec![]])); } }
        for r in rn.iter().skip(tn.len()) { ch.push(parser_rule_ast(r, &vec![vec![]])); }
        // the same definitions once more, in another order
        match variant { 1 => { for t in tn.iter().rev() { ch.push(lexer_rule_ast(t, "/b/")); } for r in &rn { ch.push(parser_rule_ast(r, &vec![vec![]])); } } 2 => { ch.push(lexer_rule_ast(&tn[0], "/b/")); ch.push(parser_rule_ast(rn.last().unwrap(), &vec![vec![]])); } _ => {} }
        let tree = rc(0, "rule_list", ch);
        let (r, out) = guarded(|| { let mut g = Grammar::new("g"); let d = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); (v.data, v.next_token_id, v.next_rule_id) }; (g, d) });
        let inp = json!({"token names": tn.len(), "rule names": rn.len(), "variant": variant});
        let key = format!("near names {variant}");
        let (g, (data, nt, nr)) = match r { Ok(x) => x, Err(e) => return cx.fail(key, inp, format!("panic: {e}")) };
        let mut bad = None;
        if data.len() != tn.len() || nt != tn.len() + 2 || nr != rn.len() { bad = Some(format!("{} token rules, next numbers {nt} and {nr}; expected {} token rules and {} rules", data.len(), tn.len(), rn.len())); }
        for (k, t) in tn.iter().enumerate() { if g.vocabulary.get_terminal_id_by_name(t) != Some(k + 2) || data.get(k).map(|d| (d.token_type, &d.token_name)) != Some((k + 2, t)) || !data[k].regex.contains('a') { bad = bad.or(Some(format!("token {t} is not number {} with its first pattern", k + 2))); } }
        for (k, r) in rn.iter().enumerate() { if g.vocabulary.get_nonterminal_id_by_name(r) != Some(k) { bad = bad.or(Some(format!("rule {r} is not number {k}"))); } }
        let lines = String::from_utf8_lossy(&out).lines().filter(|l| !l.trim().is_empty()).count();
        let want = [0, tn.len() + rn.len(), 2][variant];
        if lines != want { bad = bad.or(Some(format!("{lines} repeated definitions reported, expected {want}"))); }
        // the visitor of token rules alone, and references by name
        let (r, _) = guarded(|| { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); v.data });
        match r { Ok(d) => if d.len() != tn.len() || d.iter().zip(&tn).enumerate().any(|(k, (d, t))| d.token_type != k + 2 || d.token_name != *t || !d.regex.contains('a')) { bad = bad.or(Some("the token rule visitor gives another list".into())); }, Err(e) => bad = bad.or(Some(format!("panic: {e}"))) }
        if let Some(b) = bad { return cx.fail(key, inp, b.chars().take(500).collect::<String>()); }
    }
    use syntaxis::tool::syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};
    let mut ch: Vec<_> = tn.iter().map(|t| lexer_rule_ast(t, "/a/")).collect();
    for (i, n) in rn.iter().enumerate() {
        let el = |x| r(P::ELEMENT, "element", vec![x]);
        let alts = (0..tn.len().max(rn.len())).map(|k| r(P::ALTERNATIVE, "alternative", vec![el(t(L::TOKEN_REF, "TOKEN_REF", &tn[(i + k) % tn.len()])), el(t(L::RULE_REF, "RULE_REF", &rn[(i + 2 * k) % rn.len()]))]));
        let mut b = vec![]; for a in alts { if !b.is_empty() { b.push(t(L::OR, "OR", "|")); } b.push(a); }
        ch.push(r(P::PARSER_RULE, "parser_rule", vec![t(L::RULE_REF, "RULE_REF", n), t(L::COLON, "COLON", ":"), r(P::BLOCK, "block", b), t(L::SEMI, "SEMI", ";")]));
    }
    cx.begin()?; cx.states += 1; cx.traces += 1;
    let (p, _) = pipeline(&rc(P::RULE_LIST, "rule_list", ch));
    let inp = json!({"token names": tn.len(), "rule names": rn.len(), "references": "every token and rule"});
    match p {
        Err(e) => cx.fail("near names referenced", inp, format!("panic: {e}")),
        Ok(p) => {
            use syntaxis::tool::grammar::{Production, ProductionItem as I};
            let want: std::collections::HashSet<Production> = (0..rn.len()).flat_map(|i| { let (tn, rn) = (tn.len(), rn.len()); (0..tn.max(rn)).map(move |k| Production { left: i, right: vec![I::Terminal(2 + (i + k) % tn), I::NonTerminal((i + 2 * k) % rn)] }) }).collect();
            match p.grammar.productions.iter().find(|x| !want.contains(x)) { Some(x) => cx.fail("near names referenced", inp, format!("production {x:?} is not in the description")), None if p.grammar.productions.iter().count() != want.len() => cx.fail("near names referenced", inp, "productions are missing"), None => Ok(()) }
        }
    }
}

/// A list of n definitions of each kind and one repeat at the end, of every kind of place in the list.
const FAR: [usize; 16] = [1, 2, 5, 9, 16, 17, 31, 33, 63, 64, 65, 127, 129, 256, 257, 600];
fn far_repeats(cx: &mut Ctx) -> Res {
    for n in FAR {
        let mut places: Vec<usize> = vec![0, 1, n / 2, n - 1]; places.extend((0..10).map(|b| 1usize << b)); places.extend((0..10).map(|b| n.saturating_sub(1 << b)));
        places.retain(|&k| k < n); places.sort(); places.dedup();
        for k in places {
            cx.begin()?;
            cx.states += 1; cx.traces += 2; cx.transitions += 2 * n as u64 + 2;
            let mut ch: Vec<_> = (0..n).flat_map(|i| [lexer_rule_ast(&format!("TK{i}"), PATS[0]), parser_rule_ast(&format!("ru{i}"), &vec![vec![]])]).collect();
            ch.push(lexer_rule_ast(&format!("TK{k}"), PATS[1])); ch.push(parser_rule_ast(&format!("ru{k}"), &vec![vec![]]));
            ch.push(lexer_rule_ast("TLAST", PATS[1])); ch.push(parser_rule_ast("last", &vec![vec![]]));
            let tree = rc(0, "rule_list", ch);
            let key = format!("repeat {k} of {n}");
            let inp = json!({"definitions_of_each_kind": n, "repeated": k});
            let (r, out) = guarded(|| { let mut g = Grammar::new("g"); let d = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data }; (g, d) });
            let (g, data) = match r { Ok(x) => x, Err(e) => return cx.fail(key, inp, format!("panic: {e}")) };
            let (r, out2) = guarded(|| { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); (v.data, v.next_token_type) });
            let (data2, next) = match r { Ok(x) => x, Err(e) => return cx.fail(key, inp, format!("panic: {e}")) };
            let mut bad = None;
            if next != n + 3 { bad = Some(format!("next token number {next}, expected {}", n + 3)); }
            for d in [&data, &data2] {
                if d.len() != n + 1 { bad = Some(format!("{} token rules listed, expected {}", d.len(), n + 1)); break; }
                for (i, x) in d.iter().enumerate() { let name = if i < n { format!("TK{i}") } else { "TLAST".into() }; if x.token_type != i + 2 || x.token_name != name { bad = Some(format!("token rule {i} is {}={}", x.token_name, x.token_type)); } }
                if let Some(e) = pat_ok(&d[k], 0) { bad = Some(e); }
            }
            if g.vocabulary.get_nonterminal_id_by_name("last") != Some(n) || g.vocabulary.get_terminal_id_by_name("TLAST") != Some(n + 2) { bad = Some("the last definitions are misnumbered".into()); }
            let (s1, s2) = (String::from_utf8_lossy(&out).to_string(), String::from_utf8_lossy(&out2).to_string());
            if !s1.contains(&format!("TK{k}")) || !s1.contains(&format!("ru{k}")) || !s2.contains(&format!("TK{k}")) { bad = Some(format!("the repeat is not reported: {s1:?} / {s2:?}")); }
            if let Some(b) = bad { return cx.fail(key, inp, b); }
        }
    }
    cx.outcome("far repeat");
    Ok(())
}
/// A body of `alts` alternatives of `elems` elements (none: epsilon), of one of five kinds.
fn shape(alts: usize, elems: usize, kind: usize) -> Block {
    let el = |k: usize| match kind {
        0 => Elem::plain(Atom::Tok(0)),
        1 => Elem::plain(Atom::Rule(0)),
        2 => Elem { atom: Atom::Tok(0), suf: Suf::Star, lazy: k % 2 == 1 },
        3 => Elem::plain(Atom::Block(vec![vec![Elem::plain(Atom::Tok(0))]])),
        _ => Elem { atom: Atom::Block(vec![vec![Elem::plain(Atom::Rule(0))], vec![]]), suf: Suf::Quest, lazy: false },
    };
    (0..alts).map(|_| (0..elems).map(el).collect()).collect()
}
const SHAPE_ALTS: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 12, 40];
const SHAPE_ELEMS: [usize; 6] = [0, 1, 2, 3, 5, 9];
/// Every rule of up to 5 is defined again, with a body of every shape, 1 to 3 times, straight away or at the end; token rules likewise with patterns of every length.
fn shaped_repeats(cx: &mut Ctx, slice: usize) -> Res {
    let kind = slice % 5; let late = slice / 5 == 1;
    for n in 1..=5usize { for k in 0..n { for times in [1usize, 2, 3] { for fa in [1usize, 2, 3, 6] { for ra in SHAPE_ALTS { for re in SHAPE_ELEMS {
        cx.begin()?;
        cx.states += 1; cx.traces += 3; cx.transitions += n as u64;
        let first = shape(fa, if fa == 1 { 0 } else { 1 }, 0); let again = shape(ra, re, kind);
        let pat = format!("/{}/", "xyz".chars().cycle().take(ra * re + 1).collect::<String>());
        let mut ch = vec![lexer_rule_ast(TOKENS[0], PATS[0])];
        let rep = |ch: &mut Vec<_>| for _ in 0..times { ch.push(parser_rule_ast(RULES[k], &again)); ch.push(lexer_rule_ast(TOKENS[0], &pat)); };
        for i in 0..n { ch.push(parser_rule_ast(RULES[i], if i == k { &first } else { &again })); if i == k && !late { rep(&mut ch); } }
        if late { rep(&mut ch); }
        ch.push(parser_rule_ast("last", &vec![vec![]])); ch.push(lexer_rule_ast("TLAST", PATS[1]));
        let tree = rc(0, "rule_list", ch);
        let key = format!("rule {k} of {n} again {times} times, {} {fa} alternatives, then {ra} of {re} elements of kind {kind}", if late { "at the end," } else { "at once," });
        let inp = json!({"repeat": key, "first": show_block(&first), "again": show_block(&again), "pattern_again": pat});
        let (r, out) = guarded(|| { let mut g = Grammar::new("g"); let d = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data }; (g, d) });
        let (g, data) = match r { Ok(x) => x, Err(e) => return cx.fail(key, inp, format!("panic: {e}")) };
        let (r, out2) = guarded(|| { let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); (v.data, v.next_token_type) });
        let (data2, next) = match r { Ok(x) => x, Err(e) => return cx.fail(key, inp, format!("panic: {e}")) };
        let mut bad = None;
        let v = &g.vocabulary;
        for i in 0..=n { let name = if i < n { RULES[i] } else { "last" }; if v.get_nonterminal_id_by_name(name) != Some(i) { bad = Some(format!("rule {name} has number {:?}, expected {i}", v.get_nonterminal_id_by_name(name))); } }
        if v.get_terminal_id_by_name("TLAST") != Some(3) || v.get_all_nonterminals().len() != n + 1 || v.get_all_terminals().len() != 4 || next != 4 { bad = Some("symbols are misnumbered".into()); }
        for d in [&data, &data2] {
            if d.iter().map(|x| (x.token_type, x.token_name.as_str())).collect::<Vec<_>>() != [(2, TOKENS[0]), (3, "TLAST")] { bad = Some("the token rules are not the two defined ones".into()); }
            else if let Some(e) = pat_ok(&d[0], 0) { bad = Some(e); }
        }
        let (s1, s2) = (String::from_utf8_lossy(&out).to_string(), String::from_utf8_lossy(&out2).to_string());
        let count = |s: &str, name: &str| s.lines().filter(|l| l.contains(name)).count();
        if bad.is_none() && (count(&s1, RULES[k]) != times || count(&s1, TOKENS[0]) != times || count(&s2, TOKENS[0]) != times) { bad = Some(format!("{times} repeats of {} and {} reported as {s1:?} / {s2:?}", RULES[k], TOKENS[0])); }
        if let Some(b) = bad { return cx.fail(key, inp, b); }
    } } } } } }
    cx.outcome("repeat of every shape reported");
    Ok(())
}
/// References to a name that is not defined while a nearly equal one is.
fn near_references(cx: &mut Ctx) -> Res {
    const NAMES: [&str; 38] = ["ab", "ab_", "_ab", "a_b", "Ab", "aB", "AB", "AB_", "A_B", "abb", "aab", "ba", "a", "b", "abc", "ab0", "ab1", "ab00", "ab ", " ab", "'ab'", "'AB'", "'ab", "ab'", "\"ab\"", "(ab)", "ab*", "ab?", "ab+", "", "0", "1", "2", "_START", "_STOP", "epsilon", "é", "e\u{301}"];
    use syntaxis::tool::syntaxis::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};
    let kinds = [("rule", L::RULE_REF), ("token", L::TOKEN_REF), ("literal", L::STRING_LITERAL)];
    for (defk, def_kind) in [("rule", true), ("token", false)] { for def in NAMES { for refname in NAMES { for (refk, kind) in kinds {
        // what is defined: the start rule, and one rule or token `def`
        let start = "start";
        // 0 and 1 are terminals of every grammar
        let defined = match refk { "rule" => refname == start || (def_kind && refname == def), _ => (!def_kind && refname == def) || ["_START", "_STOP"].contains(&refname) };
        if refk != "rule" && !def_kind && ["_START", "_STOP"].contains(&def) { continue; }
        cx.begin()?;
        cx.states += 1; cx.traces += 1; cx.transitions += 1;
        let d = if def_kind { parser_rule_ast(def, &vec![vec![]]) } else { lexer_rule_ast(def, "/x/") };
        let e = r(P::ELEMENT, "element", vec![t(kind, "x", refname)]);
        let p = r(P::PARSER_RULE, "parser_rule", vec![t(L::RULE_REF, "RULE_REF", start), t(L::COLON, "COLON", ":"), r(P::BLOCK, "block", vec![r(P::ALTERNATIVE, "alternative", vec![e])]), t(L::SEMI, "SEMI", ";")]);
        let tree = rc(0, "rule_list", vec![p, d]);
        let key = format!("reference {refk} {refname:?} with {defk} {def:?}");
        let inp = json!({"defined": format!("{defk} {def:?}"), "referenced": format!("{refk} {refname:?}")});
        // without the first pass, which may define literals
        let (res, out) = guarded(|| { let mut g = Grammar::new("g"); let n = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.next_rule_id }; let mut v = syntaxis::tool::visitor::grammar_visitor::ProductionVisitor::new(&mut g, n); RuleListContext::accept(&tree, &mut v); g });
        match res {
            Err(_) if defined => return cx.fail(key, inp, "panic without a dangling reference"),
            Err(_) => cx.outcome("dangling near reference refused"),
            Ok(g) => {
                if !defined && !nonblank(&out) { return cx.fail(key, inp, format!("a reference to an undefined symbol is accepted silently: {g}")); }
                if defined {
                    use syntaxis::tool::grammar::ProductionItem::*;
                    let want = match refk { "rule" => NonTerminal(if refname == start { 0 } else { 1 }), _ => Terminal(match refname { "_START" => 0, "_STOP" => 1, _ => 2 }) };
                    if !g.productions.iter().any(|p| p.left == 0 && p.right == vec![want]) { return cx.fail(key, inp, "the reference is not to the symbol defined under that name"); }
                    cx.outcome("near reference resolved");
                }
            }
        }
    } } } }
    Ok(())
}

fn run(cx: &mut Ctx, unit: usize) -> Res {
    let al = alphabet();
    let a = al.len();
    if unit < a * a {
        // sequences starting with this pair (and the pair's own prefixes once)
        let base = vec![al[unit / a].clone(), al[unit % a].clone()];
        if unit == 0 { check_seq(cx, &[])?; }
        if unit % a == 0 { check_seq(cx, &base[..1])?; }
        fn rec(cx: &mut Ctx, al: &[Item], cur: &mut Vec<Item>, max: usize) -> Res {
            check_seq(cx, cur)?;
            if cur.len() < max { for i in al { cur.push(i.clone()); rec(cx, al, cur, max)?; cur.pop(); } }
            Ok(())
        }
        let mut c = base;
        return rec(cx, &al, &mut c, seq_len(cx.tier));
    }
    let u = unit - a * a;
    if u < PSLICES {
        let ps = patterns(pat_size(cx.tier));
        let probe = probes(if ps.len() > 20_000 { 3 } else { 4 });
        let probe_c: Vec<Vec<char>> = probe.iter().map(|s| s.chars().collect()).collect();
        for (k, p) in ps.iter().enumerate() {
            if k % PSLICES != u { continue; }
            cx.begin()?;
            cx.states += 1;
            let lit = format!("/{}/", src(p));
            let inp = json!({"token rule": format!("AA: {lit};")});
            let tree = rc(0, "rule_list", vec![lexer_rule_ast("AA", &lit)]);
            let (r, _) = guarded(|| { let mut g = Grammar::new("g"); let d1 = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); RuleListContext::accept(&tree, &mut v); v.data }; let mut v = LexerRuleVisitor::new(vec![], 2); RuleListContext::accept(&tree, &mut v); (d1, v.data) });
            let (d1, d2) = match r { Ok(x) => x, Err(e) => return cx.fail(lit, inp, format!("panic: {e}")) };
            for d in [&d1, &d2] {
                if d.len() != 1 { return cx.fail(lit, inp, "token rule lost"); }
                let re = match regex::Regex::new(&d[0].regex) { Ok(r) => r, Err(e) => return cx.fail(lit, inp, format!("pattern {:?} is invalid: {e}", d[0].regex)) };
                for (s, c) in probe.iter().zip(&probe_c) {
                    cx.transitions += 1; cx.traces += 1;
                    let want = prefix(p, c);
                    let got = re.find(s).map(|m| (m.start(), m.end()));
                    if got != want.map(|e| (0, e)) { return cx.fail(lit, inp, format!("pattern {:?} on {:?}: {:?}, expected {:?}", d[0].regex, s, got, want)); }
                }
            }
            cx.outcome("pattern agrees with its meaning");
            if k % 97 == 0 { cx.sample("pattern", || json!({"written": lit, "pattern": d1[0].regex})); }
        }
        return Ok(());
    }
    if u == PSLICES + 1 { return near_names(cx); }
    if u == PSLICES + 6 { return far_repeats(cx); }
    if u >= PSLICES + 8 { return shaped_repeats(cx, u - PSLICES - 8); }
    if u == PSLICES + 7 { return near_references(cx); }
    if u > PSLICES { for (i, p) in written().iter().enumerate() { if i % 4 == u - PSLICES - 2 { check_written(cx, p)?; } } return Ok(()); }
    // long lists
    for n in (1..=cx.tier.pick(40, 200)).chain([63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 700]) {
        cx.begin()?;
        cx.states += 1; cx.traces += 1;
        let mut ch = vec![];
        for k in 0..n { ch.push(lexer_rule_ast(&format!("TK{k}"), "/a/")); ch.push(parser_rule_ast(&format!("ru{k}"), &vec![vec![]])); }
        let tree = rc(0, "rule_list", ch);
        let (p, out) = pipeline(&tree);
        let inp = json!({"token rules": n, "parser rules": n, "interleaved": true});
        let p = match p { Ok(p) => p, Err(e) => return cx.fail(format!("long {n}"), inp, format!("panic: {e}")) };
        let ok = (0..n).all(|k| p.grammar.vocabulary.get_terminal_id_by_name(&format!("TK{k}")) == Some(k + 2) && p.grammar.vocabulary.get_nonterminal_id_by_name(&format!("ru{k}")) == Some(k) && p.data[k].token_type == k + 2 && p.data[k].token_name == format!("TK{k}"));
        if !ok || nonblank(&out) || p.data.len() != n { return cx.fail(format!("long {n}"), inp, "numbers are not consecutive in definition order"); }
    }
    Ok(())
}

static DEF: CheckDef = CheckDef {
    id: "C08",
    rule: "Every sequence of token and parser rule definitions up to a length over an alphabet with repeated names, changed patterns, forward, backward and dangling references; every pattern AST up to a size checked on every probe string; long interleaved lists, nearly equal names, repeats far from the first definition, repeats with bodies of every shape; a list of patterns as people write them (every regex feature, non-ASCII, long), compared with the regex engine's reading. Both numbering visitors and the whole pipeline run on the real code.",
    bounds: |t| json!({"definition_alphabet": alphabet().len(), "sequence_length": seq_len(t), "patterns": format!("{} pattern ASTs of size <= {}", patterns(pat_size(t)).len(), pat_size(t)), "probes": t.pick("all strings <= 4 over a b / | \\ newline", "all strings <= 3 over a b / | \\ newline"), "written_patterns": written().len(), "long_lists": format!("1..={} and sizes up to 700", t.pick(40, 200))}),
    assumptions: &["patterns without a star over something that can match nothing", "meaning of patterns given by a small backtracking matcher with the regex crate's priorities", "a reported repeat is one non-blank output line naming the symbol"],
    units, run, stall_s: 60, workers: 64,
};
fn main() { mc::engine::main(&DEF) }
