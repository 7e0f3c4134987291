//! Reference model of grammar descriptions (EBNF): data, enumeration, direct matching semantics, language sets.
//! Nothing in here uses the code under test.
use crate::gram::{Cfg, Prod, Sym, Tree};
use serde_json::{json, Value};
use std::sync::LazyLock;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Suf { None, Star, Plus, Quest }
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Atom { Tok(usize), Rule(usize), Block(Block) }
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Elem { pub atom: Atom, pub suf: Suf, pub lazy: bool }
/// An alternative: a non-empty list of elements; the empty list stands for a written epsilon.
pub type Alt = Vec<Elem>;
pub type Block = Vec<Alt>;

/// Tokens and rules are indices into the name lists; `defs` are the parser rule definitions in textual order.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Desc { pub tokens: usize, pub rules: usize, pub defs: Vec<(usize, Block)> }

/// Token and rule names available: the first 40 short, the others numbered.
pub const NAMES: usize = 640;
const TOKENS_40: [&str; 40] = ["AA", "BB", "CC", "DD", "EE", "FF", "GG", "HH", "II", "JJ", "KK", "LL", "MM", "NN", "OO", "PP", "QQ", "RR", "SS", "TT", "UU", "VV", "WW", "XX", "YY", "ZZ", "TA", "TB", "TC", "TD", "TE", "TF", "TG", "TH", "TI", "TJ", "TK", "TL", "TM", "TN"];
pub static TOKENS: LazyLock<Vec<&'static str>> = LazyLock::new(|| TOKENS_40.into_iter().chain((40..NAMES).map(|i| &*format!("BT{i}").leak())).collect());
const RULES_40: [&str; 40] = ["ra", "rb", "rc", "rd", "re", "rf", "rg", "rh", "ri", "rj", "rk", "rl", "rm", "rn", "ro", "rp", "rq", "rr", "rs", "rt", "ru", "rv", "rw", "rx", "ry", "rz", "sa", "sb", "sc", "sd", "se", "sf", "sg", "sh", "si", "sj", "sk", "sl", "sm", "sn"];
pub static RULES: LazyLock<Vec<&'static str>> = LazyLock::new(|| RULES_40.into_iter().chain((40..NAMES).map(|i| &*format!("bru{i}").leak())).collect());
const PATTERNS_40: [&str; 40] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N"];
pub static PATTERNS: LazyLock<Vec<&'static str>> = LazyLock::new(|| PATTERNS_40.into_iter().chain((40..NAMES).map(|i| &*format!("x{i}y").leak())).collect());

impl Elem { pub fn plain(atom: Atom) -> Elem { Elem { atom, suf: Suf::None, lazy: false } } }

pub fn show_block(b: &Block) -> String { b.iter().map(show_alt).collect::<Vec<_>>().join(" | ") }
pub fn show_alt(a: &Alt) -> String { if a.is_empty() { "ε".into() } else { a.iter().map(show_elem).collect::<Vec<_>>().join(" ") } }
pub fn show_elem(e: &Elem) -> String {
    let mut s = match &e.atom { Atom::Tok(t) => TOKENS[*t].to_string(), Atom::Rule(r) => RULES[*r].to_string(), Atom::Block(b) => format!("({})", show_block(b)) };
    s += match e.suf { Suf::None => "", Suf::Star => "*", Suf::Plus => "+", Suf::Quest => "?" };
    if e.lazy { s.push('?') }
    s
}
impl Desc {
    pub fn describe(&self) -> Value { json!(self.defs.iter().map(|(r, b)| format!("{}: {};", RULES[*r], show_block(b))).collect::<Vec<_>>()) }
    pub fn size(&self) -> usize { self.defs.iter().map(|(_, b)| block_size(b)).sum() }
}
fn block_size(b: &Block) -> usize { b.len() - 1 + b.iter().map(|a| a.iter().map(elem_size).sum::<usize>().max(1)).sum::<usize>() }
fn elem_size(e: &Elem) -> usize { (match &e.atom { Atom::Block(b) => 1 + block_size(b), _ => 1 }) + (e.suf != Suf::None) as usize + e.lazy as usize }

/// All blocks/elements by exact size. Size: leaf 1, suffix 1, lazy mark 1, parentheses 1, extra alternative 1, epsilon 1.
pub struct Gen { pub leaves: Vec<Atom>, pub lazy: bool, elems: Vec<Vec<Elem>>, plain: Vec<Vec<Elem>>, alts: Vec<Vec<Alt>>, blocks: Vec<Vec<Block>> }
impl Gen {
    pub fn new(tokens: &[usize], rules: &[usize], lazy: bool, max: usize) -> Gen {
        let leaves: Vec<Atom> = tokens.iter().map(|&t| Atom::Tok(t)).chain(rules.iter().map(|&r| Atom::Rule(r))).collect();
        let mut g = Gen { leaves, lazy, elems: vec![vec![]], plain: vec![vec![]], alts: vec![vec![]], blocks: vec![vec![]] };
        for n in 1..=max { g.grow(n); }
        g
    }
    fn grow(&mut self, n: usize) {
        let mut plain: Vec<Elem> = vec![];
        if n == 1 { plain.extend(self.leaves.iter().map(|a| Elem::plain(a.clone()))); }
        if n >= 2 { plain.extend(self.blocks[n - 1].iter().map(|b| Elem::plain(Atom::Block(b.clone())))); }
        let mut elems = plain.clone();
        for (cost, lazy) in [(1, false), (2, true)] {
            if lazy && !self.lazy { continue; }
            if n > cost { for e in &self.plain[n - cost] { for s in [Suf::Star, Suf::Plus, Suf::Quest] { elems.push(Elem { atom: e.atom.clone(), suf: s, lazy }); } } }
        }
        self.plain.push(plain);
        self.elems.push(elems);
        // alternatives: first element of size k, rest an alternative of size n-k (non-empty) or nothing
        let mut alts: Vec<Alt> = self.elems[n].iter().map(|e| vec![e.clone()]).collect();
        for k in 1..n { for e in &self.elems[k] { for r in &self.alts[n - k] { if r.is_empty() { continue; } let mut a = vec![e.clone()]; a.extend(r.iter().cloned()); alts.push(a); } } }
        if n == 1 { alts.push(vec![]); }
        self.alts.push(alts);
        let mut blocks: Vec<Block> = self.alts[n].iter().map(|a| vec![a.clone()]).collect();
        for k in 1..n.saturating_sub(1) { for a in &self.alts[k] { for r in &self.blocks[n - 1 - k] { let mut b = vec![a.clone()]; b.extend(r.iter().cloned()); blocks.push(b); } } }
        self.blocks.push(blocks);
    }
    /// Streams the blocks of exactly size n, where n may be one more than the sizes held in memory.
    pub fn for_blocks<E>(&self, n: usize, f: &mut dyn FnMut(Block) -> Result<(), E>) -> Result<(), E> {
        if n < self.blocks.len() { for b in &self.blocks[n] { f(b.clone())?; } return Ok(()); }
        assert!(n == self.blocks.len() && n >= 3);
        // single alternatives: one element of size n, or a shorter element and a rest
        for b in &self.blocks[n - 1] { f(vec![vec![Elem::plain(Atom::Block(b.clone()))]])?; }
        for (cost, lazy) in [(1, false), (2, true)] {
            if lazy && !self.lazy { continue; }
            for e in &self.plain[n - cost] { for s in [Suf::Star, Suf::Plus, Suf::Quest] { f(vec![vec![Elem { atom: e.atom.clone(), suf: s, lazy }]])?; } }
        }
        for k in 1..n { for e in &self.elems[k] { for r in &self.alts[n - k] { if r.is_empty() { continue; } let mut a = vec![e.clone()]; a.extend(r.iter().cloned()); f(vec![a])?; } } }
        for k in 1..n - 1 { for a in &self.alts[k] { for r in &self.blocks[n - 1 - k] { let mut b = vec![a.clone()]; b.extend(r.iter().cloned()); f(b)?; } } }
        Ok(())
    }
    pub fn blocks(&self, n: usize) -> &[Block] { &self.blocks[n] }
    pub fn elems(&self, n: usize) -> &[Elem] { &self.elems[n] }
}

// ---------------------------------------------------------------- language sets of short words as bit sets
pub struct WordSpace { pub words: Vec<Vec<usize>>, pub cat: Vec<Vec<u8>> }
pub const NOWORD: u8 = 255;
impl WordSpace {
    /// All words of length <= max over `n` letters; at most 127 of them.
    pub fn new(n: usize, max: usize) -> WordSpace {
        Self::of(crate::gram::words(&(0..n).collect::<Vec<_>>(), max))
    }
    /// For descriptions over many tokens: all short words, and every part of the word that has each token once in order.
    pub fn wide(n: usize) -> WordSpace {
        let l = if n <= 2 { 4 } else if n <= 4 { 3 } else if n <= 8 { 2 } else { 1 };
        let mut words = crate::gram::words(&(0..n).collect::<Vec<_>>(), l);
        for len in l + 1..=n { for i in 0..=n - len { if words.len() < 127 { words.push((i..i + len).collect()); } } }
        Self::of(words)
    }
    /// `words` must contain every part of each of its words, shortest first; at most 127 of them.
    pub fn of(words: Vec<Vec<usize>>) -> WordSpace {
        assert!(words.len() <= 127);
        let ix: std::collections::HashMap<Vec<usize>, u8> = words.iter().enumerate().map(|(i, w)| (w.clone(), i as u8)).collect();
        let cat = words.iter().map(|a| words.iter().map(|b| { let mut c = a.clone(); c.extend(b); ix.get(&c).copied().unwrap_or(NOWORD) }).collect()).collect();
        WordSpace { words, cat }
    }
    pub fn eps(&self) -> u128 { 1 }
    pub fn letter(&self, a: usize) -> u128 { 1u128 << self.words.iter().position(|w| w.len() == 1 && w[0] == a).unwrap() }
    pub fn concat(&self, a: u128, b: u128) -> u128 {
        if a == 1 { return b; }
        if b == 1 { return a; }
        let mut r = 0;
        let mut x = a;
        while x != 0 {
            let i = x.trailing_zeros() as usize; x &= x - 1;
            let row = &self.cat[i];
            let mut y = b;
            while y != 0 { let j = y.trailing_zeros() as usize; y &= y - 1; let k = row[j]; if k != NOWORD { r |= 1u128 << k } }
        }
        r
    }
    pub fn star(&self, a: u128) -> u128 { let mut r = 1; loop { let n = r | self.concat(a, r); if n == r { return r; } r = n; } }
    pub fn list(&self, m: u128) -> Vec<&[usize]> { crate::gram::bits(m).map(|i| &self.words[i][..]).collect() }
}

/// Language of each rule, by the meaning of the notation.
pub fn desc_langs(d: &Desc, s: &WordSpace) -> Vec<u128> {
    let letters: Vec<u128> = (0..d.tokens).map(|t| s.letter(t)).collect();
    fn block(b: &Block, s: &WordSpace, l: &[u128], r: &[u128]) -> u128 { b.iter().fold(0, |m, a| m | a.iter().fold(1, |m, e| s.concat(m, elem(e, s, l, r)))) }
    fn elem(e: &Elem, s: &WordSpace, l: &[u128], r: &[u128]) -> u128 {
        let a = match &e.atom { Atom::Tok(t) => l[*t], Atom::Rule(x) => r[*x], Atom::Block(b) => block(b, s, l, r) };
        match e.suf { Suf::None => a, Suf::Star => s.star(a), Suf::Plus => s.concat(a, s.star(a)), Suf::Quest => a | 1 }
    }
    let mut r = vec![0u128; d.rules];
    loop {
        let old = r.clone();
        for (n, b) in &d.defs { r[*n] |= block(b, s, &letters, &old); }
        if r == old { return r; }
    }
}

/// Language of each rule of a grammar whose terminal `t` is letter `letter(t)`.
pub fn cfg_langs(g: &Cfg, s: &WordSpace, letter: &dyn Fn(usize) -> Option<usize>) -> Vec<u128> {
    let mut r = vec![0u128; g.nts.len()];
    let maxn = g.nts.iter().copied().max().unwrap_or(0);
    let mut ix = vec![0; maxn + 1];
    for (i, &n) in g.nts.iter().enumerate() { ix[n] = i; }
    loop {
        let old = r.clone();
        for p in &g.prods {
            let mut m = 1u128;
            for x in &p.r {
                m = s.concat(m, match *x { Sym::T(t) => letter(t).map_or(0, |l| s.letter(l)), Sym::N(n) => old[ix[n]] });
                if m == 0 { break; }
            }
            r[ix[p.l]] |= m;
        }
        if r == old { return r; }
    }
}

/// The documented translation, without any sharing of helper rules: block -> fresh rule, X* -> N: X N | eps, X+ -> N: X N | X, X? -> N: X | eps.
/// Rules keep their index, token i becomes terminal 2+i.
pub fn translate(d: &Desc) -> Cfg {
    struct S { next: usize, prods: Vec<Prod> }
    fn put(s: &mut S, p: Prod) { if !s.prods.contains(&p) { s.prods.push(p) } }
    fn alt(s: &mut S, a: &Alt) -> Vec<Sym> { a.iter().map(|e| elem(s, e)).collect() }
    fn elem(s: &mut S, e: &Elem) -> Sym {
        let x = match &e.atom {
            Atom::Tok(t) => Sym::T(2 + t), Atom::Rule(r) => Sym::N(*r),
            Atom::Block(b) => { let rs: Vec<Vec<Sym>> = b.iter().map(|a| alt(s, a)).collect(); let id = s.next; s.next += 1; for r in rs { put(s, Prod { l: id, r }); } Sym::N(id) }
        };
        if e.suf == Suf::None { return x; }
        let id = s.next; s.next += 1;
        let (a, b) = match e.suf { Suf::Star => (vec![x, Sym::N(id)], vec![]), Suf::Plus => (vec![x, Sym::N(id)], vec![x]), _ => (vec![x], vec![]) };
        put(s, Prod { l: id, r: a }); put(s, Prod { l: id, r: b });
        Sym::N(id)
    }
    let mut s = S { next: d.rules, prods: vec![] };
    for (n, b) in &d.defs { for a in b { let r = alt(&mut s, a); put(&mut s, Prod { l: *n, r }); } }
    Cfg { nts: (0..s.next).collect(), ts: (2..2 + d.tokens).collect(), prods: s.prods }
}

// ---------------------------------------------------------------- direct matching (for parse trees)
/// ends[r][i] = positions j such that rule r matches w[i..j]; rank = round in which found.
pub struct Matcher<'a> { d: &'a Desc, w: &'a [usize], ends: Vec<Vec<u32>>, rank: Vec<Vec<[u8; 32]>> }
impl<'a> Matcher<'a> {
    pub fn new(d: &'a Desc, w: &'a [usize]) -> Self {
        assert!(w.len() < 31);
        let n = w.len();
        let mut m = Matcher { d, w, ends: vec![vec![0; n + 1]; d.rules], rank: vec![vec![[255; 32]; n + 1]; d.rules] };
        let mut round = 0u8;
        loop {
            let mut new = vec![];
            for (r, b) in &d.defs { for i in 0..=n { let e = m.block(b, i); let x = e & !m.ends[*r][i]; if x != 0 { new.push((*r, i, x)); } } }
            if new.is_empty() { return m; }
            for (r, i, x) in new { m.ends[r][i] |= x; for j in 0..=n { if x >> j & 1 == 1 && m.rank[r][i][j] == 255 { m.rank[r][i][j] = round; } } }
            round = round.checked_add(1).expect("rounds");
        }
    }
    fn block(&self, b: &Block, i: usize) -> u32 { b.iter().fold(0, |m, a| m | self.alt(a, 1 << i)) }
    fn alt(&self, a: &[Elem], mut cur: u32) -> u32 { for e in a { cur = self.each(cur, &|i| self.elem(e, i)); } cur }
    fn each(&self, cur: u32, f: &dyn Fn(usize) -> u32) -> u32 { let mut r = 0; for i in 0..=self.w.len() { if cur >> i & 1 == 1 { r |= f(i); } } r }
    fn atom(&self, a: &Atom, i: usize) -> u32 {
        match a { Atom::Tok(t) => if i < self.w.len() && self.w[i] == *t { 1 << (i + 1) } else { 0 }, Atom::Rule(r) => self.ends[*r][i], Atom::Block(b) => self.block(b, i) }
    }
    fn elem(&self, e: &Elem, i: usize) -> u32 {
        match e.suf {
            Suf::None => self.atom(&e.atom, i),
            Suf::Quest => 1 << i | self.atom(&e.atom, i),
            Suf::Star | Suf::Plus => {
                let mut cur = if e.suf == Suf::Star { 1 << i } else { self.atom(&e.atom, i) };
                loop { let n = cur | self.each(cur, &|k| self.atom(&e.atom, k)); if n == cur { return cur; } cur = n; }
            }
        }
    }
    pub fn matches(&self, r: usize, i: usize, j: usize) -> bool { self.ends[r][i] >> j & 1 == 1 }
    /// The match of rule r on w[i..j] as a tree (the only one if the description is unambiguous).
    pub fn tree(&self, r: usize, i: usize, j: usize) -> Option<Tree> {
        if !self.matches(r, i, j) { return None; }
        let k = self.rank[r][i][j];
        for (n, b) in &self.d.defs { if *n == r { for a in b { if let Some(c) = self.t_alt(a, i, j, k) { return Some(Tree::Node(r, c)); } } } }
        unreachable!("matched but no match")
    }
    fn t_alt(&self, a: &[Elem], i: usize, j: usize, k: u8) -> Option<Vec<Tree>> {
        let Some(e) = a.first() else { return if i == j { Some(vec![]) } else { None } };
        for m in i..=j {
            if let Some(mut x) = self.t_elem(e, i, m, k) { if let Some(y) = self.t_alt(&a[1..], m, j, k) { x.extend(y); return Some(x); } }
        }
        None
    }
    fn t_atom(&self, a: &Atom, i: usize, j: usize, k: u8) -> Option<Vec<Tree>> {
        match a {
            Atom::Tok(t) => if j == i + 1 && self.w[i] == *t { Some(vec![Tree::Leaf(i)]) } else { None },
            Atom::Rule(r) => if self.matches(*r, i, j) && self.rank[*r][i][j] < k { self.tree(*r, i, j).map(|t| vec![t]) } else { None },
            Atom::Block(b) => b.iter().find_map(|a| self.t_alt(a, i, j, k)),
        }
    }
    fn t_elem(&self, e: &Elem, i: usize, j: usize, k: u8) -> Option<Vec<Tree>> {
        match e.suf {
            Suf::None => self.t_atom(&e.atom, i, j, k),
            Suf::Quest => if i == j { Some(vec![]) } else { None }.or_else(|| self.t_atom(&e.atom, i, j, k)),
            Suf::Star => {
                if i == j { return Some(vec![]); }
                for m in i + 1..=j { if let Some(mut x) = self.t_atom(&e.atom, i, m, k) { if let Some(y) = self.t_elem(e, m, j, k) { x.extend(y); return Some(x); } } }
                None
            }
            Suf::Plus => {
                if let Some(x) = self.t_atom(&e.atom, i, j, k) { return Some(x); }
                for m in i..=j { if m == i { continue; } if let Some(mut x) = self.t_atom(&e.atom, i, m, k) { if m < j { if let Some(y) = self.t_elem(e, m, j, k) { x.extend(y); return Some(x); } } } }
                None
            }
        }
    }
}

// ---------------------------------------------------------------- languages restricted to the parts of one long word
/// rel[i] = set of j such that the part i..j of the word belongs to the language.
#[derive(Clone, PartialEq, Eq)]
pub struct Rel { n: usize, k: usize, bits: Vec<u64> }
impl Rel {
    pub fn empty(n: usize) -> Rel { let k = (n + 64) / 64; Rel { n, k, bits: vec![0; k * (n + 1)] } }
    pub fn eps(n: usize) -> Rel { let mut r = Rel::empty(n); for i in 0..=n { r.set(i, i); } r }
    pub fn letter(w: &[usize], t: usize) -> Rel { let mut r = Rel::empty(w.len()); for i in 0..w.len() { if w[i] == t { r.set(i, i + 1); } } r }
    pub fn set(&mut self, i: usize, j: usize) { self.bits[i * self.k + j / 64] |= 1 << (j % 64) }
    pub fn has(&self, i: usize, j: usize) -> bool { self.bits[i * self.k + j / 64] >> (j % 64) & 1 == 1 }
    pub fn none(&self) -> bool { self.bits.iter().all(|&b| b == 0) }
    pub fn count(&self) -> usize { self.bits.iter().map(|b| b.count_ones() as usize).sum() }
    pub fn or(&mut self, o: &Rel) -> bool { let mut c = false; for (a, b) in self.bits.iter_mut().zip(&o.bits) { if b & !*a != 0 { c = true; *a |= b; } } c }
    pub fn then(&self, o: &Rel) -> Rel {
        let mut r = Rel::empty(self.n);
        for i in 0..=self.n { for q in 0..self.k {
            let mut b = self.bits[i * self.k + q];
            while b != 0 { let j = q * 64 + b.trailing_zeros() as usize; b &= b - 1; for z in 0..self.k { r.bits[i * self.k + z] |= o.bits[j * self.k + z]; } }
        } }
        r
    }
    pub fn star(&self) -> Rel { let mut r = Rel::eps(self.n); loop { let x = self.then(&r); if !r.or(&x) { return r; } } }
    /// first (i, j) in self but not in o
    pub fn minus(&self, o: &Rel) -> Option<(usize, usize)> { (0..=self.n).find_map(|i| (i..=self.n).find(|&j| self.has(i, j) && !o.has(i, j)).map(|j| (i, j))) }
}
/// For each rule the parts of `w` that it matches, by the meaning of the notation.
pub fn desc_rels(d: &Desc, w: &[usize]) -> Vec<Rel> {
    fn block(b: &Block, w: &[usize], r: &[Rel]) -> Rel { let mut m = Rel::empty(w.len()); for a in b { let mut x = Rel::eps(w.len()); for e in a { if x.none() { break; } x = x.then(&elem(e, w, r)); } m.or(&x); } m }
    fn elem(e: &Elem, w: &[usize], r: &[Rel]) -> Rel {
        let mut a = match &e.atom { Atom::Tok(t) => Rel::letter(w, *t), Atom::Rule(x) => r[*x].clone(), Atom::Block(b) => block(b, w, r) };
        match e.suf { Suf::None => a, Suf::Star => a.star(), Suf::Plus => a.then(&a.star()), Suf::Quest => { a.or(&Rel::eps(w.len())); a } }
    }
    let mut r = vec![Rel::empty(w.len()); d.rules];
    loop {
        let mut changed = false;
        for (n, b) in d.defs.iter().rev() { let x = block(b, w, &r); changed |= r[*n].or(&x); }
        if !changed { return r; }
    }
}
/// The same for every rule of a grammar whose terminal `t` is letter `letter(t)`.
pub fn cfg_rels(g: &Cfg, w: &[usize], letter: &dyn Fn(usize) -> Option<usize>) -> Vec<Rel> {
    let ix: std::collections::HashMap<usize, usize> = g.nts.iter().enumerate().map(|(i, &n)| (n, i)).collect();
    let mut r = vec![Rel::empty(w.len()); g.nts.len()];
    let mut users: Vec<Vec<usize>> = vec![vec![]; g.nts.len()];
    for (p, q) in g.prods.iter().enumerate() { for x in &q.r { if let Sym::N(n) = x { users[ix[n]].push(p); } } }
    let mut todo: std::collections::BTreeSet<usize> = (0..g.prods.len()).collect();
    while let Some(p) = todo.pop_last() {
        let q = &g.prods[p];
        let mut m = Rel::eps(w.len());
        for x in &q.r {
            m = match *x { Sym::T(t) => match letter(t) { Some(l) => m.then(&Rel::letter(w, l)), None => Rel::empty(w.len()) }, Sym::N(n) => m.then(&r[ix[&n]]) };
            if m.none() { break; }
        }
        if r[ix[&q.l]].or(&m) { todo.extend(users[ix[&q.l]].iter().copied()); }
    }
    r
}
