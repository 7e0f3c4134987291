//! A strict JSON reader of its own, and what a document describes as a syntax tree. Nothing here uses the code under test or serde_json.
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), UInt(u64), OtherNum, Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

/// Err = not valid JSON. Also returns the deepest nesting.
pub fn parse(b: &[u8]) -> Result<(J, usize), ()> {
    let mut p = P { b, i: 0, depth: 0, deepest: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != b.len() { return Err(()); }
    Ok((v, p.deepest))
}
struct P<'a> { b: &'a [u8], i: usize, depth: usize, deepest: usize }
impl P<'_> {
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    fn ws(&mut self) { while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1; } }
    fn lit(&mut self, w: &str, v: J) -> Result<J, ()> { if self.b[self.i..].starts_with(w.as_bytes()) { self.i += w.len(); Ok(v) } else { Err(()) } }
    fn value(&mut self) -> Result<J, ()> {
        match self.peek().ok_or(())? {
            b'n' => self.lit("null", J::Null), b't' => self.lit("true", J::Bool(true)), b'f' => self.lit("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'-' | b'0'..=b'9' => self.number(),
            c @ (b'[' | b'{') => {
                self.i += 1; self.depth += 1; self.deepest = self.deepest.max(self.depth);
                let close = if c == b'[' { b']' } else { b'}' };
                let (mut arr, mut obj) = (vec![], vec![]);
                self.ws();
                if self.peek() == Some(close) { self.i += 1; }
                else { loop {
                    self.ws();
                    if c == b'{' { if self.peek() != Some(b'"') { return Err(()); } let k = self.string()?; self.ws(); if self.peek() != Some(b':') { return Err(()); } self.i += 1; self.ws(); let v = self.value()?; obj.push((k, v)); }
                    else { let v = self.value()?; arr.push(v); }
                    self.ws();
                    match self.peek() { Some(b',') => self.i += 1, Some(x) if x == close => { self.i += 1; break; } _ => return Err(()) }
                } }
                self.depth -= 1;
                Ok(if c == b'[' { J::Arr(arr) } else { J::Obj(obj) })
            }
            _ => Err(()),
        }
    }
    fn digits(&mut self) -> usize { let s = self.i; while matches!(self.peek(), Some(b'0'..=b'9')) { self.i += 1; } self.i - s }
    fn number(&mut self) -> Result<J, ()> {
        let s = self.i; let neg = self.peek() == Some(b'-');
        if neg { self.i += 1; }
        match self.peek() { Some(b'0') => self.i += 1, Some(b'1'..=b'9') => { self.digits(); } _ => return Err(()) }
        let mut int = !neg;
        if self.peek() == Some(b'.') { int = false; self.i += 1; if self.digits() == 0 { return Err(()); } }
        if matches!(self.peek(), Some(b'e' | b'E')) { int = false; self.i += 1; if matches!(self.peek(), Some(b'+' | b'-')) { self.i += 1; } if self.digits() == 0 { return Err(()); } }
        if int { if let Ok(v) = std::str::from_utf8(&self.b[s..self.i]).unwrap().parse() { return Ok(J::UInt(v)); } }
        Ok(J::OtherNum)
    }
    fn hex(&mut self) -> Result<u32, ()> { let h = self.b.get(self.i..self.i + 4).ok_or(())?; if !h.iter().all(|c| c.is_ascii_hexdigit()) { return Err(()); } self.i += 4; Ok(u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()) }
    fn string(&mut self) -> Result<String, ()> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = self.peek().ok_or(())?; self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| ()),
                b'\\' => {
                    let e = self.peek().ok_or(())?; self.i += 1;
                    let ch = match e {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}', b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xD800..0xDC00).contains(&a) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") { return Err(()); }
                                self.i += 2;
                                let l = self.hex()?;
                                if !(0xDC00..0xE000).contains(&l) { return Err(()); }
                                char::from_u32(0x10000 + ((a - 0xD800) << 10) + (l - 0xDC00)).ok_or(())?
                            } else { char::from_u32(a).ok_or(())? }
                        }
                        _ => return Err(()),
                    };
                    out.extend(ch.to_string().as_bytes());
                }
                0..=0x1f => return Err(()),
                _ => out.push(c),
            }
        }
    }
}

/// A syntax tree as described by a document.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T { Rule(u64, String, Vec<T>), Tok(u64, String, String) }
fn get<'a>(v: &'a J, k: &str) -> &'a J { if let J::Obj(m) = v { if let Some((_, x)) = m.iter().rev().find(|(n, _)| n == k) { return x; } } &J::Null }
pub fn tree(v: &J) -> Option<T> {
    let J::Arr(ch) = get(v, "children") else { return None };
    let J::UInt(n) = get(v, "rule_index") else { return None };
    let J::Str(s) = get(v, "rule_name") else { return None };
    let ch = ch.iter().map(|c| if *get(c, "children") == J::Null { tok(c) } else { tree(c) }).collect::<Option<Vec<T>>>()?;
    Some(T::Rule(*n, s.clone(), ch))
}
fn tok(v: &J) -> Option<T> {
    let J::UInt(n) = get(v, "token_type") else { return None };
    let J::Str(s) = get(v, "token_name") else { return None };
    let text = match get(v, "text") { J::Str(t) => t.clone(), _ => "<no text>".into() };
    Some(T::Tok(*n, s.clone(), text))
}
