//! Boring reference model of context-free grammars: plain data, naive equations, chart recogniser.
//! Nothing in here uses the code under test.
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Sym { T(usize), N(usize) }
use Sym::*;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Prod { pub l: usize, pub r: Vec<Sym> }

/// Terminal ids must be < 128.
#[derive(Clone, Debug)]
pub struct Cfg { pub nts: Vec<usize>, pub ts: Vec<usize>, pub prods: Vec<Prod> }

pub const STOP: usize = 1;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sets {
    /// indexed by position in `nts`
    pub nullable: Vec<bool>,
    pub first: Vec<u128>,
    pub follow: Vec<u128>,
    /// indexed by production
    pub p_nullable: Vec<bool>,
    pub p_first: Vec<u128>,
}

impl Cfg {
    pub fn ix(&self, nt: usize) -> usize { self.nts.iter().position(|&x| x == nt).expect("known nt") }
    pub fn describe(&self) -> Value {
        json!(self.prods.iter().map(|p| p.show()).collect::<Vec<_>>())
    }
    fn str_first(&self, s: &[Sym], nullable: &[bool], first: &[u128]) -> (bool, u128) {
        let mut m = 0;
        for x in s {
            match *x {
                T(t) => return (false, m | 1u128 << t),
                N(a) => { let i = self.ix(a); m |= first[i]; if !nullable[i] { return (false, m); } }
            }
        }
        (true, m)
    }
    /// Least solution of the textbook equations (start symbol: rule 0, end marker: terminal 1).
    pub fn sets(&self) -> Sets {
        let n = self.nts.len();
        let mut nullable = vec![false; n];
        let mut first = vec![0u128; n];
        loop {
            let old = (nullable.clone(), first.clone());
            for p in &self.prods {
                let (e, f) = self.str_first(&p.r, &old.0, &old.1);
                let i = self.ix(p.l);
                nullable[i] |= e; first[i] |= f;
            }
            if old == (nullable.clone(), first.clone()) { break; }
        }
        let mut follow = vec![0u128; n];
        if let Some(i) = self.nts.iter().position(|&x| x == 0) { follow[i] |= 1u128 << STOP; }
        loop {
            let old = follow.clone();
            for p in &self.prods {
                for (k, s) in p.r.iter().enumerate() {
                    if let N(b) = *s {
                        let (e, f) = self.str_first(&p.r[k + 1..], &nullable, &first);
                        let bi = self.ix(b);
                        follow[bi] |= f;
                        if e { follow[bi] |= old[self.ix(p.l)]; }
                    }
                }
            }
            if old == follow { break; }
        }
        let mut p_nullable = vec![]; let mut p_first = vec![];
        for p in &self.prods { let (e, f) = self.str_first(&p.r, &nullable, &first); p_nullable.push(e); p_first.push(f); }
        Sets { nullable, first, follow, p_nullable, p_first }
    }
    /// (nt, terminal) -> claiming productions; second: does any cell have more than one claim (a production may claim twice).
    pub fn table(&self, s: &Sets) -> (std::collections::BTreeMap<(usize, usize), Vec<usize>>, bool) {
        let mut t: std::collections::BTreeMap<(usize, usize), Vec<usize>> = Default::default();
        let mut conflict = false;
        for (k, p) in self.prods.iter().enumerate() {
            let mut claims = vec![s.p_first[k]];
            if s.p_nullable[k] { claims.push(s.follow[self.ix(p.l)]); }
            for m in claims {
                for term in bits(m) {
                    let c = t.entry((p.l, term)).or_default();
                    if !c.is_empty() { conflict = true; }
                    if !c.contains(&k) { c.push(k); }
                }
            }
        }
        (t, conflict)
    }
    /// the length of the longest right side, or the number of rules if that is more
    pub fn longest(&self) -> usize { self.prods.iter().map(|p| p.r.len()).max().unwrap_or(0).max(self.nts.len()) }
    pub fn is_ll1(&self) -> bool { let s = self.sets(); !self.table(&s).1 }
}

impl Prod {
    pub fn show(&self) -> String {
        let mut s = format!("N{} ->", self.l);
        for x in &self.r { match x { T(t) => s += &format!(" t{t}"), N(n) => s += &format!(" N{n}") } }
        s
    }
}

pub fn bits(mut m: u128) -> impl Iterator<Item = usize> {
    std::iter::from_fn(move || if m == 0 { None } else { let b = m.trailing_zeros() as usize; m &= m - 1; Some(b) })
}
pub fn mask(v: impl IntoIterator<Item = usize>) -> u128 { v.into_iter().fold(0, |m, t| m | 1u128 << t) }

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Tree { Leaf(usize), Node(usize, Vec<Tree>) }

/// Chart over one word (< 31 tokens): ends[a][i] = set of j with a =>* w[i..j]; rank = round in which it was found.
pub struct Chart<'a> { g: &'a Cfg, w: &'a [usize], pub ends: Vec<Vec<u32>>, rank: Vec<Vec<[u8; 32]>>, by_left: Vec<Vec<usize>> }

impl<'a> Chart<'a> {
    pub fn new(g: &'a Cfg, w: &'a [usize]) -> Self {
        let n = g.nts.len();
        let len = w.len();
        assert!(len < 31);
        let maxid = g.nts.iter().copied().max().unwrap_or(0);
        let mut idx = vec![usize::MAX; maxid + 1];
        for (i, &a) in g.nts.iter().enumerate() { idx[a] = i; }
        let mut ends = vec![vec![0u32; len + 1]; n];
        let mut rank = vec![vec![[255u8; 32]; len + 1]; n];
        let mut round = 0u8;
        loop {
            let old = ends.clone();
            for p in &g.prods {
                for i in 0..=len {
                    let mut cur = 1u32 << i;
                    for s in &p.r {
                        let mut nx = 0;
                        let mut c = cur;
                        while c != 0 {
                            let pos = c.trailing_zeros() as usize; c &= c - 1;
                            match *s {
                                T(t) => if pos < len && w[pos] == t { nx |= 1 << (pos + 1) },
                                N(a) => nx |= old[idx[a]][pos],
                            }
                        }
                        cur = nx;
                        if cur == 0 { break; }
                    }
                    let a = idx[p.l];
                    let mut new = cur & !ends[a][i];
                    ends[a][i] |= cur;
                    while new != 0 { let j = new.trailing_zeros() as usize; new &= new - 1; rank[a][i][j] = round; }
                }
            }
            if old == ends { break; }
            round = round.checked_add(1).expect("rounds");
        }
        let mut by_left = vec![vec![]; n];
        for (k, p) in g.prods.iter().enumerate() { by_left[idx[p.l]].push(k); }
        Chart { g, w, ends, rank, by_left }
    }
    pub fn derives(&self, nt: usize, i: usize, j: usize) -> bool { self.ends[self.g.ix(nt)][i] >> j & 1 == 1 }
    /// One derivation tree of w[i..j] from nt (the only one if the grammar is unambiguous).
    pub fn tree(&self, nt: usize, i: usize, j: usize) -> Option<Tree> {
        if !self.derives(nt, i, j) { return None; }
        let a = self.g.ix(nt);
        let r = self.rank[a][i][j];
        for &k in &self.by_left[a] {
            if let Some(ch) = self.split(&self.g.prods[k].r, i, j, r) { return Some(Tree::Node(nt, ch)); }
        }
        unreachable!("derivable but no derivation")
    }
    fn split(&self, s: &[Sym], i: usize, j: usize, r: u8) -> Option<Vec<Tree>> {
        if s.is_empty() { return if i == j { Some(vec![]) } else { None }; }
        match s[0] {
            T(t) => {
                if i < j && self.w[i] == t { let mut rest = self.split(&s[1..], i + 1, j, r)?; rest.insert(0, Tree::Leaf(i)); Some(rest) } else { None }
            }
            N(b) => {
                let bi = self.g.ix(b);
                for m in i..=j {
                    if self.ends[bi][i] >> m & 1 == 1 && self.rank[bi][i][m] < r {
                        if let Some(mut rest) = self.split(&s[1..], m, j, r) { rest.insert(0, self.tree(b, i, m)?); return Some(rest); }
                    }
                }
                None
            }
        }
    }
}

/// Splices nodes of anonymous rules (except the root) into their parents.
pub fn flatten(t: &Tree, anon: &dyn Fn(usize) -> bool) -> Tree {
    match t {
        Tree::Leaf(i) => Tree::Leaf(*i),
        Tree::Node(n, ch) => {
            let mut out = vec![];
            for c in ch {
                match flatten(c, anon) {
                    Tree::Node(m, sub) if anon(m) => out.extend(sub),
                    x => out.push(x),
                }
            }
            Tree::Node(*n, out)
        }
    }
}

/// All productions over `n` rules (ids as given), terminals, right-hand sides up to `maxlen`, shortest first.
pub fn all_prods(nts: &[usize], ts: &[usize], maxlen: usize) -> Vec<Prod> {
    let mut rhs: Vec<Vec<Sym>> = vec![vec![]];
    let syms: Vec<Sym> = ts.iter().map(|&t| T(t)).chain(nts.iter().map(|&n| N(n))).collect();
    let mut layer: Vec<Vec<Sym>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut nx = vec![];
        for l in &layer { for s in &syms { let mut x = l.clone(); x.push(*s); nx.push(x); } }
        rhs.extend(nx.iter().cloned());
        layer = nx;
    }
    let mut out = vec![];
    for r in rhs { for &l in nts { out.push(Prod { l, r: r.clone() }); } }
    out
}

/// A finite family of grammars: all k-subsets of `prods` (k in ks).
#[derive(Clone)]
pub struct Family { pub name: &'static str, pub nts: Vec<usize>, pub ts: Vec<usize>, pub prods: Vec<Prod>, pub k: usize }

impl Family {
    pub fn new(name: &'static str, nts: &[usize], ts: &[usize], maxlen: usize, k: usize) -> Self {
        Family { name, nts: nts.to_vec(), ts: ts.to_vec(), prods: all_prods(nts, ts, maxlen), k }
    }
    /// Units: the choice of the smallest one or two production indices.
    pub fn units(&self) -> usize { let p = self.prods.len(); if self.k <= 2 { p } else { p * (p - 1) / 2 } }
    pub fn for_unit(&self, u: usize, f: &mut dyn FnMut(&Cfg) -> crate::engine::Res) -> crate::engine::Res {
        let p = self.prods.len();
        let mut ix: Vec<usize>;
        let fixed;
        if self.k <= 2 { ix = vec![u]; fixed = 1; } else {
            let mut a = 0; let mut rem = u;
            while rem >= p - 1 - a { rem -= p - 1 - a; a += 1; }
            ix = vec![a, a + 1 + rem]; fixed = 2;
        }
        let mut g = Cfg { nts: self.nts.clone(), ts: self.ts.clone(), prods: vec![] };
        self.rec(&mut ix, fixed, &mut g, f)
    }
    fn rec(&self, ix: &mut Vec<usize>, _fixed: usize, g: &mut Cfg, f: &mut dyn FnMut(&Cfg) -> crate::engine::Res) -> crate::engine::Res {
        if ix.len() == self.k {
            g.prods.clear();
            for &i in ix.iter() { g.prods.push(self.prods[i].clone()); }
            return f(g);
        }
        let s = *ix.last().unwrap() + 1;
        for i in s..self.prods.len() { ix.push(i); self.rec(ix, _fixed, g, f)?; ix.pop(); }
        Ok(())
    }
}

/// All words over `ts` of length 0..=max, shortest first.
pub fn words(ts: &[usize], max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = out.clone();
    for _ in 0..max {
        let mut nx = vec![];
        for w in &layer { for &t in ts { let mut x = w.clone(); x.push(t); nx.push(x); } }
        out.extend(nx.iter().cloned());
        layer = nx;
    }
    out
}

/// Ways of making a small grammar large while keeping its structure.
pub const INFLATIONS: [&str; 8] = ["every production with terminals 9 times, with terminals of its own", "the same 40 times", "every rule reference through a chain of 5 unit rules", "20 empty rules before every right side", "20 empty rules after every right side", "every symbol 9 times in a row", "8 further copies of the grammar beside it", "every right side cut into rules of one symbol each"];
impl Cfg {
    pub fn inflate(&self, how: usize) -> Cfg {
        let tx = |t: usize| self.ts.iter().position(|&x| x == t);
        let base = self.nts.iter().max().unwrap_or(&0) + 1;
        let mut g = Cfg { nts: self.nts.clone(), ts: self.ts.clone(), prods: vec![] };
        match how {
            0 | 1 => {
                let n = if how == 0 { 9 } else { 40 };
                g.ts = (2..2 + n * self.ts.len()).collect();
                for p in &self.prods {
                    if !p.r.iter().any(|s| matches!(s, Sym::T(_))) { g.prods.push(p.clone()); continue; }
                    for i in 0..n { g.prods.push(Prod { l: p.l, r: p.r.iter().map(|s| match *s { Sym::T(t) => tx(t).map_or(Sym::T(t), |k| Sym::T(2 + k * n + i)), s => s }).collect() }); }
                }
            }
            2 => {
                const M: usize = 5;
                for p in &self.prods { g.prods.push(Prod { l: p.l, r: p.r.iter().map(|s| match *s { Sym::N(b) => Sym::N(base + self.ix(b) * M), s => s }).collect() }); }
                for (i, &b) in self.nts.iter().enumerate() { for j in 0..M { let c = base + i * M + j; g.nts.push(c); g.prods.push(Prod { l: c, r: vec![Sym::N(if j + 1 < M { c + 1 } else { b })] }); } }
            }
            3 | 4 => {
                g.nts.push(base); g.prods.push(Prod { l: base, r: vec![] });
                for p in &self.prods { let mut r = p.r.clone(); let at = if how == 3 { 0 } else { r.len() }; r.splice(at..at, std::iter::repeat_n(Sym::N(base), 20)); g.prods.push(Prod { l: p.l, r }); }
            }
            5 => for p in &self.prods { g.prods.push(Prod { l: p.l, r: p.r.iter().flat_map(|s| std::iter::repeat_n(*s, 9)).collect() }); },
            6 => {
                g.prods = self.prods.clone();
                let w = self.ts.iter().max().unwrap_or(&1) - 1;
                for c in 1..=8 {
                    g.nts.extend(self.nts.iter().map(|n| n + c * base)); g.ts.extend(self.ts.iter().map(|t| t + c * w));
                    for p in &self.prods { g.prods.push(Prod { l: p.l + c * base, r: p.r.iter().map(|s| match *s { Sym::N(n) => Sym::N(n + c * base), Sym::T(t) => Sym::T(if t < 2 { t } else { t + c * w }) }).collect() }); }
                }
            }
            _ => {
                // l -> x1 .. xn becomes l -> c1, c1 -> x1 c2, .. , cn -> xn
                let mut next = base;
                for p in &self.prods {
                    let mut l = p.l;
                    for (i, s) in p.r.iter().enumerate() {
                        let last = i + 1 == p.r.len();
                        g.prods.push(Prod { l, r: if last { vec![*s] } else { vec![*s, Sym::N(next)] } });
                        if !last { g.nts.push(next); l = next; next += 1; }
                    }
                    if p.r.is_empty() { g.prods.push(p.clone()); }
                }
            }
        }
        g
    }
}
