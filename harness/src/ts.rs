//! A reader for the subset of TypeScript the generator emits: tokens with positions, strings unescaped.
#[derive(Debug, Clone, PartialEq)]
pub enum T { Id(String), Num(u64), Str(String), Tpl(Vec<(String, Vec<T>)>, String), P(&'static str), Bad }

const PUNCT: &[&str] = &["...", "=>", "{", "}", "[", "]", "(", ")", "<", ">", ":", ";", ",", "=", "|", "&", "?", ".", "*", "-", "+", "/", "!", "@", "#", "$", "%", "^", "~"];

fn idch(c: char) -> bool { c == '_' || c == '$' || c.is_ascii_alphanumeric() || (c as u32) >= 0x80 }

pub fn lex(s: &str) -> Vec<T> { lex_lines(s).0 }
/// the tokens, and for each whether a line break precedes it
pub fn lex_lines(s: &str) -> (Vec<T>, Vec<bool>) {
    let mut nl = vec![];
    let r = lex_impl(s, &mut nl);
    nl.resize(r.len(), false);
    (r, nl)
}
fn lex_impl(s: &str, nl: &mut Vec<bool>) -> Vec<T> {
    let c: Vec<char> = s.chars().collect();
    let mut r = vec![];
    let mut i = 0;
    let mut line = false;
    while i < c.len() {
        while nl.len() < r.len() { nl.push(line); line = false; }
        let x = c[i];
        if x == ' ' || x == '\n' || x == '\t' || x == '\r' { line |= x == '\n'; i += 1; continue; }
        if x == '/' && i + 1 < c.len() && c[i + 1] == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if x == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') { i += 1; }
            i += 2;
            continue;
        }
        if x == '"' || x == '\'' || x == '`' {
            let mut t = String::new();
            i += 1;
            let mut ok = false;
            let mut parts = vec![];
            while i < c.len() {
                let y = c[i];
                if y == x { ok = true; i += 1; break; }
                if x == '`' && y == '$' && i + 1 < c.len() && c[i + 1] == '{' {
                    let mut j = i + 2;
                    while j < c.len() && c[j] != '}' { j += 1; }
                    let hole: String = c[i + 2..j].iter().collect();
                    parts.push((std::mem::take(&mut t), lex(&hole)));
                    i = (j + 1).min(c.len());
                    continue;
                }
                if x != '`' && (y == '\n' || y == '\r') { break; }
                if y == '\\' {
                    i += 1;
                    if i >= c.len() { break; }
                    let z = c[i];
                    i += 1;
                    match z {
                        'n' => t.push('\n'), 't' => t.push('\t'), 'r' => t.push('\r'), 'b' => t.push('\u{8}'), 'f' => t.push('\u{c}'), 'v' => t.push('\u{b}'), '0' => t.push('\0'),
                        '\n' | '\u{2028}' | '\u{2029}' => {}
                        'x' => match hex(&c[i..(i + 2).min(c.len())]) { Some(v) if i + 2 <= c.len() => { i += 2; t.push(v); } _ => { r.push(T::Bad); return r; } },
                        'u' => {
                            if i < c.len() && c[i] == '{' {
                                let mut j = i + 1;
                                while j < c.len() && c[j] != '}' { j += 1; }
                                match hex(&c[i + 1..j]) { Some(v) if j < c.len() => { i = j + 1; t.push(v); } _ => { r.push(T::Bad); return r; } }
                            } else {
                                match hex(&c[i..(i + 4).min(c.len())]) { Some(v) if i + 4 <= c.len() => { i += 4; t.push(v); } _ => { r.push(T::Bad); return r; } }
                            }
                        }
                        z => t.push(z),
                    }
                    continue;
                }
                t.push(y);
                i += 1;
            }
            if !ok { r.push(T::Bad); return r; }
            r.push(if x == '`' { T::Tpl(parts, t) } else { T::Str(t) });
            continue;
        }
        if x.is_ascii_digit() {
            let mut v = 0u64;
            while i < c.len() && c[i].is_ascii_digit() { v = v * 10 + (c[i] as u64 - 48); i += 1; }
            if i < c.len() && idch(c[i]) { r.push(T::Bad); return r; }
            r.push(T::Num(v));
            continue;
        }
        if idch(x) {
            let mut t = String::new();
            while i < c.len() && idch(c[i]) { t.push(c[i]); i += 1; }
            r.push(T::Id(t));
            continue;
        }
        match PUNCT.iter().find(|p| c[i..].iter().copied().zip(p.chars()).filter(|(a, b)| a == b).count() == p.len()) {
            Some(p) => { r.push(T::P(p)); i += p.len(); }
            None => { r.push(T::Bad); return r; }
        }
    }
    r
}
fn hex(c: &[char]) -> Option<char> {
    let mut v = 0u32;
    if c.is_empty() { return None; }
    for x in c { v = v.checked_mul(16)?.checked_add(x.to_digit(16)?)?; }
    char::from_u32(v)
}

/// A literal type: numbers, strings, (dotted) names, objects, tuples.
#[derive(Debug, Clone, PartialEq)]
pub enum V { Num(u64), Str(String), Name(String), Obj(Vec<(K, V)>), Arr(Vec<V>) }
#[derive(Debug, Clone, PartialEq)]
pub enum K { Num(u64), Str(String) }
impl V {
    pub fn num(&self) -> Option<u64> { if let V::Num(n) = self { Some(*n) } else { None } }
    pub fn str(&self) -> Option<&str> { if let V::Str(n) = self { Some(n) } else { None } }
    pub fn name(&self) -> Option<&str> { if let V::Name(n) = self { Some(n) } else { None } }
    pub fn obj(&self) -> Option<&[(K, V)]> { if let V::Obj(n) = self { Some(n) } else { None } }
    pub fn arr(&self) -> Option<&[V]> { if let V::Arr(n) = self { Some(n) } else { None } }
    /// the value of a key that is there exactly once
    pub fn get(&self, k: &str) -> Option<&V> {
        let mut it = self.obj()?.iter().filter(|x| x.0 == K::Str(k.to_string()));
        let r = it.next()?;
        if it.next().is_some() { return None; }
        Some(&r.1)
    }
    pub fn at(&self, k: u64) -> Option<&V> {
        let mut it = self.obj()?.iter().filter(|x| x.0 == K::Num(k));
        let r = it.next()?;
        if it.next().is_some() { return None; }
        Some(&r.1)
    }
}
pub struct P<'a> { pub t: &'a [T], pub i: usize, pub nl: &'a [bool] }
impl<'a> P<'a> {
    pub fn new(t: &'a [T]) -> Self { P { t, i: 0, nl: &[] } }
    pub fn lines(x: &'a (Vec<T>, Vec<bool>)) -> Self { P { t: &x.0, i: 0, nl: &x.1 } }
    pub fn value(&mut self) -> Option<V> {
        if self.punct("{") {
            let mut v = vec![];
            loop {
                if self.punct("}") { return Some(V::Obj(v)); }
                let k = match self.peek()? { T::Num(n) => K::Num(*n), T::Str(s) | T::Id(s) => K::Str(s.clone()), _ => return None };
                self.i += 1;
                if !self.punct(":") { return None; }
                let x = self.value()?;
                v.push((k, x));
                if !(self.punct(";") || self.punct(",")) {
                    // a line break or the end separates, too
                    match self.peek()? { T::P("}") => {} _ => if !*self.nl.get(self.i)? { return None; } }
                }
            }
        }
        if self.punct("[") {
            let mut v = vec![];
            loop {
                if self.punct("]") { return Some(V::Arr(v)); }
                v.push(self.value()?);
                if !self.punct(",") { return if self.punct("]") { Some(V::Arr(v)) } else { None }; }
            }
        }
        match self.peek()? {
            T::Num(n) => { self.i += 1; Some(V::Num(*n)) }
            T::Str(s) => { self.i += 1; Some(V::Str(s.clone())) }
            T::Id(_) => {
                let mut s = self.ident()?.to_string();
                while self.punct(".") { s.push('.'); s.push_str(self.ident()?); }
                Some(V::Name(s))
            }
            _ => None,
        }
    }
    /// skips to the next `type` or `export` outside brackets
    pub fn skip(&mut self) {
        let mut d = 0i32;
        while let Some(t) = self.peek() {
            match t {
                T::P("{") | T::P("[") | T::P("(") | T::P("<") => d += 1,
                T::P("}") | T::P("]") | T::P(")") | T::P(">") => { if d == 0 { return; } d -= 1 }
                T::Id(w) if d == 0 && (w == "export" || w == "type") => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn end(&self) -> bool { self.i >= self.t.len() }
    pub fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    pub fn punct(&mut self, p: &str) -> bool { match self.peek() { Some(T::P(q)) if *q == p => { self.i += 1; true } _ => false } }
    pub fn word(&mut self, w: &str) -> bool { match self.peek() { Some(T::Id(q)) if q == w => { self.i += 1; true } _ => false } }
    pub fn words(&mut self, w: &[&str]) -> bool { w.iter().all(|x| self.word(x)) }
    pub fn ident(&mut self) -> Option<&'a str> { match self.peek() { Some(T::Id(q)) => { self.i += 1; Some(q) } _ => None } }
    pub fn number(&mut self) -> Option<u64> { match self.peek() { Some(T::Num(q)) => { self.i += 1; Some(*q) } _ => None } }
    pub fn string(&mut self) -> Option<&'a str> { match self.peek() { Some(T::Str(q)) => { self.i += 1; Some(q) } _ => None } }
}
