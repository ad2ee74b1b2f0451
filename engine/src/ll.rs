//! Parser for textual LLVM IR (opaque pointers) into a flat executable form.
use crate::expr::FxMap;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u16), Ptr, Flt(u16), Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Other }

impl Ty {
    pub fn size(&self) -> u64 { let a = self.align(); (self.store() + a - 1) / a * a }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Vec(n, t) => if let Ty::Int(w) = **t { (*n as u64 * w as u64 + 7) / 8 } else { *n as u64 * t.size() },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Flt(w) => *w as u64 / 8,
            Ty::Vec(..) => self.store().next_power_of_two().min(64).max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Vec(n, t) => n * t.nslots(),
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 1,
        }
    }
    pub fn leaves(&self, off: u64, out: &mut Vec<(u32, u16)>) {
        match self {
            Ty::Int(w) => out.push((off as u32, *w)),
            Ty::Ptr => out.push((off as u32, 64)),
            Ty::Flt(w) => out.push((off as u32, *w)),
            Ty::Vec(n, t) => for i in 0..*n { t.leaves(off + i as u64 * t.size(), out) },
            Ty::Arr(n, t) => for i in 0..*n { t.leaves(off + i * t.size(), out) },
            Ty::Struct(f, p) => {
                let mut o = off;
                for t in f { if !p { let a = t.align(); o = (o + a - 1) / a * a; } t.leaves(o, out); o += t.size(); }
            }
            _ => {}
        }
    }
    pub fn widths(&self) -> Vec<u16> { let mut v = vec![]; self.leaves(0, &mut v); v.into_iter().map(|x| x.1).collect() }
    fn field(&self, i: u64) -> (&Ty, u64, u32) {
        // type, byte offset, slot offset
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                let mut s = 0;
                for (j, t) in f.iter().enumerate() {
                    if !p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j as u64 == i { return (t, o, s); }
                    o += t.size();
                    s += t.nslots();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (t, i * t.size(), i as u32 * t.nslots()),
            Ty::Vec(_, t) => (t, i * t.size(), i as u32 * t.nslots()),
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> { Local(&'a str), Global(&'a str), Word(&'a str), Int(i128), Str(&'a str), CStr(&'a str), P(u8), Meta, Attr, Label(&'a str), Eof }

pub struct Lx<'a> { s: &'a [u8], txt: &'a str, pub i: usize, tok: Tok<'a>, peeked: bool, pstart: usize }

fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lx<'a> {
    pub fn new(txt: &'a str, i: usize) -> Self { Lx { s: txt.as_bytes(), txt, i, tok: Tok::Eof, peeked: false, pstart: 0 } }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' { j += 1; }
        self.i = j + 1;
        &self.txt[st..j]
    }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            if self.i >= s.len() { return Tok::Eof; }
            let c = s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; continue; }
            if c == b';' { while self.i < s.len() && s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        let c = s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if s[self.i] == b'"' { self.quoted() } else {
                    let st = self.i;
                    while self.i < s.len() && is_word(s[self.i]) { self.i += 1; }
                    &self.txt[st..self.i]
                };
                if c == b'%' { Tok::Local(name) } else { Tok::Global(name) }
            }
            b'"' => {
                let q = self.quoted();
                if self.i < s.len() && s[self.i] == b':' { self.i += 1; return Tok::Label(q); }
                Tok::Str(q)
            }
            b'c' if s.get(self.i + 1) == Some(&b'"') => { self.i += 1; Tok::CStr(self.quoted()) }
            b'!' => {
                self.i += 1;
                while self.i < s.len() && is_word(s[self.i]) { self.i += 1; }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < s.len() && is_word(s[self.i]) { self.i += 1; }
                Tok::Attr
            }
            c if is_word(c) => {
                let st = self.i;
                while self.i < s.len() && is_word(s[self.i]) { self.i += 1; }
                let w = &self.txt[st..self.i];
                if self.i < s.len() && s[self.i] == b':' { self.i += 1; return Tok::Label(w); }
                let b = w.as_bytes();
                if (b[0].is_ascii_digit() && b.iter().all(|c| c.is_ascii_digit())) || (b[0] == b'-' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit())) {
                    return Tok::Int(match w.parse::<i128>() { Ok(v) => v, Err(_) => w.parse::<u128>().unwrap() as i128 });
                }
                Tok::Word(w)
            }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> { if !self.peeked { self.pstart = self.i; self.tok = self.lex(); self.peeked = true; } self.tok }
    pub fn next(&mut self) -> Tok<'a> { if self.peeked { self.peeked = false; self.tok } else { self.lex() } }
    fn is_p(&mut self, c: u8) -> bool { self.peek() == Tok::P(c) }
    fn eat_p(&mut self, c: u8) -> bool { if self.is_p(c) { self.next(); true } else { false } }
    fn expect_p(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { self.fail(&format!("expected {:?} got {:?}", c as char, t)) } }
    fn is_w(&mut self, w: &str) -> bool { self.peek() == Tok::Word(w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.next(); true } else { false } }
    pub fn fail(&self, m: &str) -> ! {
        let st = self.txt[..self.i.min(self.txt.len())].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let en = self.txt[st..].find('\n').map(|x| x + st).unwrap_or(self.txt.len());
        panic!("IR parse error: {} in: {}", m, &self.txt[st..en])
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => d += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') | Tok::P(b'>') => { d -= 1; if d == 0 { return; } }
                Tok::Eof => self.fail("unbalanced"),
                _ => {}
            }
        }
    }
    fn starts_ty(&mut self) -> bool {
        match self.peek() {
            Tok::Word(w) => is_ty_word(w),
            Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => {
                let b = w.as_bytes();
                if b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()) { return Ty::Int(w[1..].parse().unwrap()); }
                match w {
                    "ptr" => { if self.eat_w("addrspace") { self.skip_balanced(); } Ty::Ptr }
                    "void" => Ty::Void,
                    "float" => Ty::Flt(32),
                    "double" => Ty::Flt(64),
                    "half" => Ty::Flt(16),
                    "fp128" | "x86_fp80" => Ty::Flt(128),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ => self.fail(&format!("type {}", w)),
                }
            }
            Tok::P(b'{') => { let f = self.ty_list(b'}'); Ty::Struct(f, false) }
            Tok::P(b'[') => {
                let n = match self.next() { Tok::Int(n) => n as u64, _ => self.fail("array") };
                if !self.eat_w("x") { self.fail("x") }
                let t = self.ty();
                self.expect_p(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P(b'<') => {
                if self.eat_p(b'{') { let f = self.ty_list(b'}'); self.expect_p(b'>'); return Ty::Struct(f, true); }
                let n = match self.next() { Tok::Int(n) => n as u32, _ => self.fail("vector") };
                if !self.eat_w("x") { self.fail("x") }
                let t = self.ty();
                self.expect_p(b'>');
                Ty::Vec(n, Box::new(t))
            }
            t => self.fail(&format!("type token {:?}", t)),
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat_p(end) { return f; }
        loop { f.push(self.ty()); if self.eat_p(end) { return f; } self.expect_p(b','); }
    }
}
fn is_ty_word(w: &str) -> bool {
    let b = w.as_bytes();
    (b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit())) || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "label" | "token")
}
fn is_const_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add" | "xor" | "bitcast" | "splat" | "trunc" | "blockaddress" | "asm" | "ptrtoaddr") || w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-'
}
pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { r.push(b'\\'); i += 2; continue; }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            r.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else { r.push(b[i]); i += 1; }
    }
    r
}

/// operand: register slot or constant (hi holds bits above 64)
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opd { R(u32), C(u64), W(u128) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Zext, Sext, Trunc }

#[derive(Debug)]
pub struct Edge { pub target: u32, pub moves: Box<[(u32, Opd)]> }
#[derive(Debug)]
pub struct Sw { pub v: Opd, pub w: u16, pub map: HashMap<u64, u32>, pub edges: Vec<Edge>, pub groups: Vec<Vec<u64>> }
#[derive(Debug)]
pub enum Callee { Func(u32), Ind(Opd), Named(String) }
#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<(Box<[Opd]>, Box<[u16]>)>, pub d: u32, pub rw: Box<[u16]>, pub inv: Option<(Edge, Edge)>, pub ext: RefCell<Option<usize>> }
#[derive(Debug)]
pub enum I {
    Bin { op: Bin, w: u16, d: u32, a: Opd, b: Opd },
    BinV { op: Bin, w: u16, d: u32, a: Box<[Opd]>, b: Box<[Opd]> },
    Icmp { p: Pred, w: u16, d: u32, a: Opd, b: Opd },
    IcmpV { p: Pred, w: u16, d: u32, a: Box<[Opd]>, b: Box<[Opd]> },
    Cast { c: Cast, wf: u16, wt: u16, d: u32, a: Opd },
    CastV { c: Cast, wf: u16, wt: u16, d: u32, a: Box<[Opd]> },
    Copy { d: u32, a: Opd },
    CopyN { d: u32, a: Box<[Opd]> },
    Repack { d: u32, a: Box<[Opd]>, wf: u16, wt: u16, nt: u32 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: u16, ptr: bool },
    SelectN { d: u32, c: Box<[Opd]>, a: Box<[Opd]>, b: Box<[Opd]>, w: Box<[u16]> },
    Load { d: u32, p: Opd, w: u16, ptr: bool },
    LoadN { d: u32, p: Opd, leaves: Box<[(u32, u16)]> },
    Store { p: Opd, v: Opd, w: u16 },
    StoreN { p: Opd, v: Box<[Opd]>, leaves: Box<[(u32, u16)]> },
    Alloca { d: u32, size: u64, align: u64 },
    Gep { d: u32, base: Opd, off: u64 },
    GepT { d: u32, base: Opd, off: u64, terms: Box<[(Opd, u16, u64)]> },
    Br(Edge),
    CBr(Opd, Box<(Edge, Edge)>),
    Switch(Box<Sw>),
    Call(Box<CallI>),
    Ret(Box<[Opd]>),
    Unreachable,
    Resume(Opd),
    Landing { d: u32, sel: i32 },
    Rmw { op: u8, p: Opd, v: Opd, w: u16, d: u32 },
    CmpXchg { p: Opd, cmp: Opd, new: Opd, w: u16, d: u32 },
    Nop,
    Unsup(String),
}
pub struct Func { pub name: String, pub nslots: u32, pub params: Vec<(u32, u32)>, pub insts: Vec<I> }

pub struct FInfo { pub name: String, pub off: usize, pub decl: bool, pub weak: bool, pub code: RefCell<Option<Rc<Func>>> }
pub struct Module {
    pub src: &'static str,
    pub funcs: Vec<FInfo>,
    pub fidx: HashMap<&'static str, u32>,
    pub gaddr: HashMap<&'static str, u64>,
    pub ginit: Vec<(u64, Vec<u8>)>,
    pub gend: u64,
}
pub const FBASE: u64 = 0x7000_0000;
pub const GBASE: u64 = 0x0010_0000;

enum Pend { None, Br(usize), CBr(Opd, usize, usize), Switch(Opd, u16, Vec<(u64, usize)>, usize), Invoke(CallI, usize, usize) }
struct Phi { d: u32, n: u32, inc: Vec<(Vec<Opd>, String)> }

impl Module {
    pub fn load(path: &str) -> Module {
        let s = std::fs::read_to_string(path).expect("read ll");
        let src: &'static str = Box::leak(s.into_boxed_str());
        let b = src.as_bytes();
        let mut m = Module { src, funcs: vec![], fidx: HashMap::new(), gaddr: HashMap::new(), ginit: vec![], gend: GBASE };
        let mut glines = vec![];
        let mut aliases = vec![];
        let mut i = 0;
        while i < b.len() {
            let e = src[i..].find('\n').map(|x| x + i).unwrap_or(b.len());
            let line = &src[i..e];
            if line.starts_with("define") || line.starts_with("declare") {
                let decl = line.starts_with("declare");
                let at = line.find('@').unwrap();
                let mut lx = Lx::new(src, i + at);
                let name = match lx.next() { Tok::Global(n) => n, _ => panic!() };
                let id = m.funcs.len() as u32;
                m.funcs.push(FInfo { name: name.to_string(), off: i, decl, weak: line.contains("extern_weak"), code: RefCell::new(None) });
                m.fidx.insert(name, id);
                if !decl { i = src[e - 1..].find("\n}").unwrap() + e - 1 + 2; continue; }
            } else if b[i] == b'@' {
                glines.push(i);
            }
            i = e + 1;
        }
        let mut addr = GBASE;
        let mut inits = vec![];
        for off in glines {
            let mut lx = Lx::new(src, off);
            let name = match lx.next() { Tok::Global(n) => n, _ => panic!() };
            lx.expect_p(b'=');
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Word("global") | Tok::Word("constant") => break,
                    Tok::Word("alias") => { alias = true; break; }
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::P(b'(') => { while lx.next() != Tok::P(b')') {} }
                    Tok::Eof => panic!("global {}", name),
                    _ => {}
                }
            }
            if alias { let _ = lx.ty(); lx.expect_p(b','); let _ = lx.ty(); aliases.push((name, lx.next())); continue; }
            let t = lx.ty();
            addr = (addr + 15) / 16 * 16;
            let a = t.align().max(16);
            addr = (addr + a - 1) / a * a;
            m.gaddr.insert(name, addr);
            if !external { inits.push((addr, t.clone(), if lx.peeked { lx.pstart } else { lx.i })); } else { m.ginit.push((addr, vec![0; t.size() as usize])); }
            addr += t.size().max(1) + 16;
        }
        for (n, t) in aliases {
            if let Tok::Global(g) = t {
                if let Some(&a) = m.gaddr.get(g) { m.gaddr.insert(n, a); }
                else if let Some(&f) = m.fidx.get(g) { m.fidx.insert(n, f); }
            }
        }
        m.gend = addr;
        let mut gi = vec![];
        for (a, t, off) in inits {
            let mut buf = vec![0u8; t.size() as usize];
            let mut lx = Lx::new(src, off);
            m.init(&mut lx, &t, &mut buf, 0);
            gi.push((a, buf));
        }
        m.ginit.extend(gi);
        m
    }
    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(&a) = self.gaddr.get(n) { return Some(a); }
        if let Some(&f) = self.fidx.get(n) {
            if self.funcs[f as usize].weak { return Some(0); }
            return Some(FBASE + 16 * f as u64);
        }
        None
    }
    fn init(&self, lx: &mut Lx<'static>, t: &Ty, buf: &mut [u8], off: usize) {
        match lx.peek() {
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") => { lx.next(); return; }
            Tok::CStr(s) => { lx.next(); let v = unescape(s); buf[off..off + v.len()].copy_from_slice(&v); return; }
            _ => {}
        }
        match t {
            Ty::Struct(f, packed) => {
                if *packed { lx.expect_p(b'<'); }
                lx.expect_p(b'{');
                for i in 0..f.len() {
                    if i > 0 { lx.expect_p(b','); }
                    let ft = lx.ty();
                    let (_, o, _) = t.field(i as u64);
                    self.init(lx, &ft, buf, off + o as usize);
                }
                lx.expect_p(b'}');
                if *packed { lx.expect_p(b'>'); }
            }
            Ty::Arr(n, _) => {
                let n = *n;
                lx.expect_p(b'[');
                for i in 0..n {
                    if i > 0 { lx.expect_p(b','); }
                    let ft = lx.ty();
                    let o = i as usize * ft.size() as usize;
                    self.init(lx, &ft, buf, off + o);
                }
                lx.expect_p(b']');
            }
            Ty::Vec(..) => {
                let v = self.constant(lx, t);
                let mut l = vec![];
                t.leaves(0, &mut l);
                for ((o, w), x) in l.into_iter().zip(v) { let n = (w as usize + 7) / 8; let by = opd_u128(x).to_le_bytes(); buf[off + o as usize..off + o as usize + n].copy_from_slice(&by[..n]); }
            }
            _ => {
                let v = opd_u128(self.constant(lx, t)[0]);
                let n = t.store() as usize;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    /// parse a constant of the given type
    fn constant(&self, lx: &mut Lx<'_>, t: &Ty) -> Vec<Opd> {
        let n = t.nslots() as usize;
        match lx.next() {
            Tok::Int(v) => {
                match t {
                    Ty::Int(w) if *w <= 64 => vec![Opd::C((v as u128 & crate::expr::mask(*w)) as u64)],
                    Ty::Int(w) => vec![Opd::W(v as u128 & crate::expr::mask(*w))],
                    _ => vec![Opd::C(v as u64)],
                }
            }
            Tok::Word("true") => vec![Opd::C(1)],
            Tok::Word("false") | Tok::Word("null") | Tok::Word("none") => vec![Opd::C(0)],
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => vec![Opd::C(0); n],
            Tok::Global(g) => match self.sym_addr(g) { Some(a) => vec![Opd::C(a)], None => lx.fail(&format!("unknown global {}", g)) },
            Tok::CStr(s) => unescape(s).into_iter().map(|b| Opd::C(b as u64)).collect(),
            Tok::Word("getelementptr") => {
                while let Tok::Word(w) = lx.peek() { if w == "inbounds" || w == "nuw" || w == "nusw" { lx.next(); } else { break; } }
                if lx.is_w("inrange") { lx.next(); lx.skip_balanced(); }
                lx.expect_p(b'(');
                let bt = lx.ty();
                lx.expect_p(b',');
                let pt = lx.ty();
                let base = opd_u64(self.constant(lx, &pt)[0]);
                let mut off = 0u64;
                let mut cur = bt;
                let mut first = true;
                while lx.eat_p(b',') {
                    let it = lx.ty();
                    let iw = if let Ty::Int(w) = it { w } else { 64 };
                    let v = crate::expr::sext_to(opd_u64(self.constant(lx, &it)[0]) as u128, iw) as u64;
                    if first { off = off.wrapping_add(v.wrapping_mul(cur.size())); first = false; }
                    else { let (t2, o, _) = { let (a, b, c) = cur.field(v); (a.clone(), b, c) }; off = off.wrapping_add(o); cur = t2; }
                }
                lx.expect_p(b')');
                vec![Opd::C(base.wrapping_add(off))]
            }
            Tok::Word("ptrtoint") | Tok::Word("inttoptr") | Tok::Word("bitcast") | Tok::Word("trunc") | Tok::Word("ptrtoaddr") => {
                lx.expect_p(b'(');
                let st = lx.ty();
                let v = opd_u64(self.constant(lx, &st)[0]);
                if !lx.eat_w("to") { lx.fail("to") }
                let dt = lx.ty();
                lx.expect_p(b')');
                let w = if let Ty::Int(w) = dt { w } else { 64 };
                vec![Opd::C((v as u128 & crate::expr::mask(w)) as u64)]
            }
            Tok::Word(op @ ("sub" | "add" | "xor")) => {
                while let Tok::Word(_) = lx.peek() { lx.next(); }
                lx.expect_p(b'(');
                let st = lx.ty();
                let a = opd_u64(self.constant(lx, &st)[0]);
                lx.expect_p(b',');
                let st = lx.ty();
                let b = opd_u64(self.constant(lx, &st)[0]);
                lx.expect_p(b')');
                vec![Opd::C(match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b })]
            }
            Tok::Word("splat") => {
                lx.expect_p(b'(');
                let et = lx.ty();
                let v = self.constant(lx, &et);
                lx.expect_p(b')');
                let mut r = vec![];
                for _ in 0..n / v.len() { r.extend(v.iter().copied()); }
                r
            }
            Tok::P(b'<') => {
                let packed = lx.eat_p(b'{');
                let mut r = vec![];
                loop {
                    let et = lx.ty();
                    r.extend(self.constant(lx, &et));
                    if !lx.eat_p(b',') { break; }
                }
                if packed { lx.expect_p(b'}'); }
                lx.expect_p(b'>');
                r
            }
            Tok::P(c @ (b'{' | b'[')) => {
                let mut r = vec![];
                loop {
                    let et = lx.ty();
                    r.extend(self.constant(lx, &et));
                    if !lx.eat_p(b',') { break; }
                }
                lx.expect_p(if c == b'{' { b'}' } else { b']' });
                r
            }
            Tok::Word(w) if matches!(t, Ty::Flt(_)) => {
                // hexadecimal or decimal floating constant
                if let Some(h) = w.strip_prefix("0x") { vec![Opd::C(u64::from_str_radix(h, 16).unwrap_or(0))] } else { vec![Opd::C(w.parse::<f64>().unwrap_or(0.0).to_bits())] }
            }
            tk => lx.fail(&format!("constant {:?} of {:?}", tk, t)),
        }
    }
    pub fn func(&self, id: u32) -> Rc<Func> {
        let fi = &self.funcs[id as usize];
        if let Some(f) = &*fi.code.borrow() { return f.clone(); }
        let f = Rc::new(Dec::new(self, fi).run());
        *fi.code.borrow_mut() = Some(f.clone());
        f
    }
}
pub fn opd_u64(o: Opd) -> u64 { match o { Opd::C(v) => v, Opd::W(v) => v as u64, _ => panic!("not a constant") } }
pub fn opd_u128(o: Opd) -> u128 { match o { Opd::C(v) => v as u128, Opd::W(v) => v, _ => panic!("not a constant") } }

struct Dec<'m> {
    m: &'m Module,
    lx: Lx<'static>,
    name: String,
    regs: FxMap<&'static str, u32>,
    nslots: u32,
    insts: Vec<I>,
    blocks: Vec<(String, u32)>,
    bidx: HashMap<String, usize>,
    phis: HashMap<usize, Vec<Phi>>,
    pend: Vec<(usize, usize, Pend)>, // inst index, block, pending
    cur: usize,
}

impl<'m> Dec<'m> {
    fn new(m: &'m Module, fi: &FInfo) -> Self {
        Dec { m, lx: Lx::new(m.src, fi.off), name: fi.name.clone(), regs: Default::default(), nslots: 0, insts: vec![], blocks: vec![], bidx: HashMap::new(), phis: HashMap::new(), pend: vec![], cur: 0 }
    }
    fn reg(&mut self, n: &'static str, slots: u32) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nslots;
        self.nslots += slots;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: &str) -> usize {
        if let Some(&b) = self.bidx.get(n) { return b; }
        let b = self.blocks.len();
        self.blocks.push((n.to_string(), u32::MAX));
        self.bidx.insert(n.to_string(), b);
        b
    }
    fn opd(&mut self, t: &Ty) -> Vec<Opd> {
        if let Tok::Local(n) = self.lx.peek() {
            self.lx.next();
            let k = t.nslots();
            let r = self.reg(n, k);
            return (0..k).map(|i| Opd::R(r + i)).collect();
        }
        self.m.constant(&mut self.lx, t)
    }
    fn opd1(&mut self, t: &Ty) -> Opd { self.opd(t)[0] }
    fn skip_attrs(&mut self) {
        loop {
            match self.lx.peek() {
                Tok::Word(w) if !is_const_word(w) => {
                    self.lx.next();
                    if self.lx.is_p(b'(') { self.lx.skip_balanced(); }
                    else if w == "align" { if let Tok::Int(_) = self.lx.peek() { self.lx.next(); } }
                }
                Tok::Str(_) => { self.lx.next(); if self.lx.eat_p(b'=') { self.lx.next(); } }
                Tok::Attr => { self.lx.next(); }
                _ => return,
            }
        }
    }
    fn label(&mut self) -> usize {
        if !self.lx.eat_w("label") { self.lx.fail("label") }
        match self.lx.next() { Tok::Local(n) => self.block(n), t => self.lx.fail(&format!("label {:?}", t)) }
    }
    /// skip everything that may follow an instruction: metadata, alignment, ...
    fn tail(&mut self) {
        loop {
            if self.lx.is_p(b',') {
                self.lx.next();
                match self.lx.peek() {
                    Tok::Meta => { self.lx.next(); if let Tok::Meta = self.lx.peek() { self.lx.next(); } if self.lx.is_p(b'{') { self.lx.skip_balanced(); } }
                    Tok::Word("align") => { self.lx.next(); self.lx.next(); }
                    Tok::Word("addrspace") => { self.lx.next(); self.lx.skip_balanced(); }
                    t => self.lx.fail(&format!("tail {:?}", t)),
                }
            } else if let Tok::Attr = self.lx.peek() { self.lx.next(); }
            else { return; }
        }
    }
    fn run(mut self) -> Func {
        // header
        let t = self.lx.next();
        assert!(t == Tok::Word("define"));
        loop {
            if self.lx.starts_ty() { break; }
            match self.lx.next() {
                Tok::Word("align") => { self.lx.next(); }
                Tok::Word(_) | Tok::Int(_) | Tok::Str(_) => { if self.lx.is_p(b'(') { self.lx.skip_balanced(); } }
                t => self.lx.fail(&format!("function header {:?}", t)),
            }
        }
        let _ret = self.lx.ty();
        self.lx.next(); // name
        self.lx.expect_p(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !self.lx.eat_p(b')') {
            loop {
                if self.lx.eat_p(b'.') { while self.lx.eat_p(b'.') {} self.lx.expect_p(b')'); break; }
                if self.lx.is_w("...") { self.lx.next(); self.lx.expect_p(b')'); break; }
                let t = self.lx.ty();
                self.skip_attrs();
                let n = t.nslots();
                if let Tok::Local(name) = self.lx.peek() {
                    self.lx.next();
                    if name.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                    let r = self.reg(name, n);
                    params.push((r, n));
                } else { let r = self.nslots; self.nslots += n; unnamed += 1; params.push((r, n)); }
                if self.lx.eat_p(b')') { break; }
                self.lx.expect_p(b',');
            }
        }
        while !self.lx.is_p(b'{') { if self.lx.is_p(b'(') { self.lx.skip_balanced(); } else if self.lx.next() == Tok::Eof { panic!("eof in header of {}", self.name) } }
        self.lx.next();
        // body
        let mut first = true;
        loop {
            match self.lx.peek() {
                Tok::P(b'}') => break,
                Tok::Label(n) => {
                    self.lx.next();
                    let b = self.block(n);
                    self.blocks[b].1 = self.insts.len() as u32;
                    self.cur = b;
                    first = false;
                }
                _ => {
                    if first { let n = unnamed.to_string(); let b = self.block(&n); self.blocks[b].1 = 0; self.cur = b; first = false; }
                    self.inst();
                }
            }
        }
        // resolve edges
        let pend = std::mem::take(&mut self.pend);
        for (ip, blk, p) in pend {
            let i = match p {
                Pend::None => continue,
                Pend::Br(t) => I::Br(self.edge(blk, t)),
                Pend::CBr(c, a, b) => I::CBr(c, Box::new((self.edge(blk, a), self.edge(blk, b)))),
                Pend::Switch(v, w, cases, def) => {
                    let mut tg: Vec<usize> = vec![def];
                    let mut groups: Vec<Vec<u64>> = vec![vec![]];
                    let mut map = HashMap::new();
                    for (k, t) in cases {
                        let gi = match tg.iter().position(|&x| x == t) { Some(g) => g, None => { tg.push(t); groups.push(vec![]); tg.len() - 1 } };
                        if gi != 0 { groups[gi].push(k); }
                        map.insert(k, gi as u32);
                    }
                    let edges = tg.iter().map(|&t| self.edge(blk, t)).collect();
                    I::Switch(Box::new(Sw { v, w, map, edges, groups }))
                }
                Pend::Invoke(mut c, n, u) => { c.inv = Some((self.edge(blk, n), self.edge(blk, u))); I::Call(Box::new(c)) }
            };
            self.insts[ip] = i;
        }
        Func { name: self.name, nslots: self.nslots, params, insts: self.insts }
    }
    fn edge(&self, from: usize, to: usize) -> Edge {
        let mut moves = vec![];
        if let Some(ph) = self.phis.get(&to) {
            let fname = &self.blocks[from].0;
            for p in ph {
                let inc = p.inc.iter().find(|x| &x.1 == fname).unwrap_or_else(|| panic!("phi without edge in {}", self.name));
                for i in 0..p.n { let s = inc.0[i as usize]; if s != Opd::R(p.d + i) { moves.push((p.d + i, s)); } }
            }
        }
        Edge { target: self.blocks[to].1, moves: moves.into_boxed_slice() }
    }
    fn add_pend(&mut self, p: Pend) { let ip = self.insts.len(); self.insts.push(I::Nop); self.pend.push((ip, self.cur, p)); }
    fn intw(t: &Ty) -> (u16, u32) {
        match t { Ty::Int(w) => (*w, 1), Ty::Ptr => (64, 1), Ty::Flt(w) => (*w, 1), Ty::Vec(n, t) => (Self::intw(t).0, *n), _ => (0, 0) }
    }
    fn inst(&mut self) {
        let mut dst: Option<&'static str> = None;
        let start = self.lx.i;
        if let Tok::Local(n) = self.lx.peek() { self.lx.next(); self.lx.expect_p(b'='); dst = Some(n); }
        let op = match self.lx.next() { Tok::Word(w) => w, t => self.lx.fail(&format!("instruction {:?}", t)) };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "nuw" | "nsw" | "exact" | "disjoint") { self.lx.next(); } else { break; } }
                let t = self.lx.ty();
                let a = self.opd(&t);
                self.lx.expect_p(b',');
                let b = self.opd(&t);
                let (w, n) = Self::intw(&t);
                let d = self.reg(dst.unwrap(), n);
                let o = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, _ => Bin::AShr };
                if n == 1 && !matches!(t, Ty::Vec(..)) { self.insts.push(I::Bin { op: o, w, d, a: a[0], b: b[0] }) } else { self.insts.push(I::BinV { op: o, w, d, a: a.into(), b: b.into() }) }
                self.tail();
            }
            "icmp" => {
                if self.lx.is_w("samesign") { self.lx.next(); }
                let p = match self.lx.next() { Tok::Word(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => self.lx.fail("pred") }, _ => self.lx.fail("pred") };
                let t = self.lx.ty();
                let a = self.opd(&t);
                self.lx.expect_p(b',');
                let b = self.opd(&t);
                let (w, n) = Self::intw(&t);
                let d = self.reg(dst.unwrap(), n);
                if n == 1 { self.insts.push(I::Icmp { p, w, d, a: a[0], b: b[0] }) } else { self.insts.push(I::IcmpV { p, w, d, a: a.into(), b: b.into() }) }
                self.tail();
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "nneg" | "nuw" | "nsw") { self.lx.next(); } else { break; } }
                let t = self.lx.ty();
                let a = self.opd(&t);
                if !self.lx.eat_w("to") { self.lx.fail("to") }
                let t2 = self.lx.ty();
                let (wf, nf) = Self::intw(&t);
                let (wt, nt) = Self::intw(&t2);
                let d = self.reg(dst.unwrap(), nt);
                if op == "bitcast" {
                    if wf == wt && nf == nt { self.insts.push(I::CopyN { d, a: a.into() }) }
                    else { self.insts.push(I::Repack { d, a: a.into(), wf, wt, nt }) }
                } else {
                    let c = if op == "sext" { Cast::Sext } else if wt < wf { Cast::Trunc } else { Cast::Zext };
                    if nf == 1 {
                        if wf == wt { self.insts.push(I::Copy { d, a: a[0] }) } else { self.insts.push(I::Cast { c, wf, wt, d, a: a[0] }) }
                    } else if wf == wt { self.insts.push(I::CopyN { d, a: a.into() }) } else { self.insts.push(I::CastV { c, wf, wt, d, a: a.into() }) }
                }
                self.tail();
            }
            "select" => {
                let ct = self.lx.ty();
                let c = self.opd(&ct);
                self.lx.expect_p(b',');
                let t = self.lx.ty();
                let a = self.opd(&t);
                self.lx.expect_p(b',');
                let t2 = self.lx.ty();
                let b = self.opd(&t2);
                let n = t.nslots();
                let d = self.reg(dst.unwrap(), n);
                let ws = t.widths();
                if n == 1 { self.insts.push(I::Select { d, c: c[0], a: a[0], b: b[0], w: ws[0], ptr: t == Ty::Ptr }) }
                else {
                    let c = if c.len() == n as usize { c } else { vec![c[0]; n as usize] };
                    self.insts.push(I::SelectN { d, c: c.into(), a: a.into(), b: b.into(), w: ws.into() })
                }
                self.tail();
            }
            "freeze" => {
                let t = self.lx.ty();
                let a = self.opd(&t);
                let d = self.reg(dst.unwrap(), t.nslots());
                self.insts.push(I::CopyN { d, a: a.into() });
                self.tail();
            }
            "load" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "atomic" | "volatile") { self.lx.next(); } else { break; } }
                let t = self.lx.ty();
                self.lx.expect_p(b',');
                let pt = self.lx.ty();
                let p = self.opd1(&pt);
                if self.lx.is_w("syncscope") { self.lx.next(); self.lx.skip_balanced(); }
                if let Tok::Word("unordered" | "monotonic" | "acquire" | "seq_cst") = self.lx.peek() { self.lx.next(); }
                let n = t.nslots();
                let d = self.reg(dst.unwrap(), n);
                let mut l = vec![];
                t.leaves(0, &mut l);
                if n == 1 { self.insts.push(I::Load { d, p, w: l[0].1, ptr: t == Ty::Ptr }) }
                else if matches!(&t, Ty::Vec(_, e) if matches!(**e, Ty::Int(w) if w < 8)) { {
                    let (lw, ln) = Self::intw(&t);
                    let tot = lw * ln as u16;
                    let tmp = self.nslots;
                    self.nslots += 1;
                    self.insts.push(I::Load { d: tmp, p, w: tot, ptr: false });
                    self.insts.push(I::Repack { d, a: vec![Opd::R(tmp)].into(), wf: tot, wt: lw, nt: ln });
                } }
                else { self.insts.push(I::LoadN { d, p, leaves: l.into() }) }
                self.tail();
            }
            "store" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "atomic" | "volatile") { self.lx.next(); } else { break; } }
                let t = self.lx.ty();
                let v = self.opd(&t);
                self.lx.expect_p(b',');
                let pt = self.lx.ty();
                let p = self.opd1(&pt);
                if self.lx.is_w("syncscope") { self.lx.next(); self.lx.skip_balanced(); }
                if let Tok::Word("unordered" | "monotonic" | "release" | "seq_cst") = self.lx.peek() { self.lx.next(); }
                let mut l = vec![];
                t.leaves(0, &mut l);
                if l.len() == 1 { self.insts.push(I::Store { p, v: v[0], w: l[0].1 }) }
                else if matches!(&t, Ty::Vec(_, e) if matches!(**e, Ty::Int(w) if w < 8)) { {
                    let (lw, ln) = Self::intw(&t);
                    let tot = lw * ln as u16;
                    let tmp = self.nslots;
                    self.nslots += 1;
                    self.insts.push(I::Repack { d: tmp, a: v.into(), wf: lw, wt: tot, nt: 1 });
                    self.insts.push(I::Store { p, v: Opd::R(tmp), w: tot });
                } }
                else { self.insts.push(I::StoreN { p, v: v.into(), leaves: l.into() }) }
                self.tail();
            }
            "alloca" => {
                if self.lx.is_w("inalloca") { self.lx.next(); }
                let t = self.lx.ty();
                let mut size = t.size();
                let mut align = t.align();
                let mut bad = false;
                while self.lx.is_p(b',') {
                    // count or align
                    let save = (self.lx.i, self.lx.tok, self.lx.peeked);
                    self.lx.next();
                    match self.lx.peek() {
                        Tok::Word("align") => { self.lx.next(); if let Tok::Int(a) = self.lx.next() { align = a as u64; } }
                        Tok::Word(w) if is_ty_word(w) => { let ct = self.lx.ty(); match self.opd1(&ct) { Opd::C(n) => size *= n, _ => bad = true } }
                        _ => { self.lx.i = save.0; self.lx.tok = save.1; self.lx.peeked = save.2; break; }
                    }
                }
                let d = self.reg(dst.unwrap(), 1);
                if bad { self.insts.push(I::Unsup("dynamic alloca".into())) } else { self.insts.push(I::Alloca { d, size, align: align.max(1) }) }
                self.tail();
            }
            "getelementptr" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "inbounds" | "nuw" | "nusw") { self.lx.next(); } else { break; } }
                let bt = self.lx.ty();
                self.lx.expect_p(b',');
                let pt = self.lx.ty();
                let base = self.opd1(&pt);
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.lx.is_p(b',') {
                    let save = (self.lx.i, self.lx.tok, self.lx.peeked);
                    self.lx.next();
                    if !self.lx.starts_ty() { self.lx.i = save.0; self.lx.tok = save.1; self.lx.peeked = save.2; break; }
                    let it = self.lx.ty();
                    let iw = if let Ty::Int(w) = it { w } else { 64 };
                    let v = self.opd1(&it);
                    let scale;
                    if first { scale = cur.size(); first = false; }
                    else if let Ty::Struct(..) = cur {
                        let (t2, o, _) = { let (a, b, c) = cur.field(opd_u64(v)); (a.clone(), b, c) };
                        off = off.wrapping_add(o);
                        cur = t2;
                        continue;
                    } else {
                        let t2 = match &cur { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => self.lx.fail("gep") };
                        scale = t2.size();
                        cur = t2;
                    }
                    match v {
                        Opd::R(_) => terms.push((v, iw, scale)),
                        _ => off = off.wrapping_add((crate::expr::sext_to(opd_u64(v) as u128, iw) as u64).wrapping_mul(scale)),
                    }
                }
                let d = self.reg(dst.unwrap(), 1);
                if terms.is_empty() { self.insts.push(I::Gep { d, base, off }) } else { self.insts.push(I::GepT { d, base, off, terms: terms.into() }) }
                self.tail();
            }
            "extractvalue" => {
                let t = self.lx.ty();
                let a = self.opd(&t);
                let mut s = 0;
                let mut cur = &t;
                while self.lx.is_p(b',') {
                    let save = (self.lx.i, self.lx.tok, self.lx.peeked);
                    self.lx.next();
                    if let Tok::Int(i) = self.lx.peek() { self.lx.next(); let (t2, _, so) = cur.field(i as u64); s += so; cur = t2; }
                    else { self.lx.i = save.0; self.lx.tok = save.1; self.lx.peeked = save.2; break; }
                }
                let n = cur.nslots();
                let d = self.reg(dst.unwrap(), n);
                let v: Vec<Opd> = a[s as usize..(s + n) as usize].to_vec();
                if n == 1 { self.insts.push(I::Copy { d, a: v[0] }) } else { self.insts.push(I::CopyN { d, a: v.into() }) }
                self.tail();
            }
            "insertvalue" => {
                let t = self.lx.ty();
                let mut a = self.opd(&t);
                self.lx.expect_p(b',');
                let vt = self.lx.ty();
                let v = self.opd(&vt);
                let mut s = 0;
                let mut cur = &t;
                while self.lx.is_p(b',') {
                    let save = (self.lx.i, self.lx.tok, self.lx.peeked);
                    self.lx.next();
                    if let Tok::Int(i) = self.lx.peek() { self.lx.next(); let (t2, _, so) = cur.field(i as u64); s += so; cur = t2; }
                    else { self.lx.i = save.0; self.lx.tok = save.1; self.lx.peeked = save.2; break; }
                }
                for (i, x) in v.into_iter().enumerate() { a[s as usize + i] = x; }
                let d = self.reg(dst.unwrap(), t.nslots());
                self.insts.push(I::CopyN { d, a: a.into() });
                self.tail();
            }
            "extractelement" => {
                let t = self.lx.ty();
                let a = self.opd(&t);
                self.lx.expect_p(b',');
                let it = self.lx.ty();
                let i = self.opd1(&it);
                let d = self.reg(dst.unwrap(), 1);
                match i { Opd::C(i) => self.insts.push(I::Copy { d, a: a[i as usize] }), _ => self.insts.push(I::Unsup("extractelement with variable index".into())) }
                self.tail();
            }
            "insertelement" => {
                let t = self.lx.ty();
                let mut a = self.opd(&t);
                self.lx.expect_p(b',');
                let vt = self.lx.ty();
                let v = self.opd1(&vt);
                self.lx.expect_p(b',');
                let it = self.lx.ty();
                let i = self.opd1(&it);
                let d = self.reg(dst.unwrap(), t.nslots());
                match i { Opd::C(i) => { a[i as usize] = v; self.insts.push(I::CopyN { d, a: a.into() }) } _ => self.insts.push(I::Unsup("insertelement with variable index".into())) }
                self.tail();
            }
            "shufflevector" => {
                let t = self.lx.ty();
                let mut a = self.opd(&t);
                self.lx.expect_p(b',');
                let t2 = self.lx.ty();
                let b = self.opd(&t2);
                self.lx.expect_p(b',');
                let mt = self.lx.ty();
                let mk = self.opd(&mt);
                a.extend(b);
                let r: Vec<Opd> = mk.iter().map(|&x| a[(opd_u64(x) as usize).min(a.len() - 1)]).collect();
                let d = self.reg(dst.unwrap(), r.len() as u32);
                self.insts.push(I::CopyN { d, a: r.into() });
                self.tail();
            }
            "phi" => {
                while let Tok::Word(w) = self.lx.peek() { if is_ty_word(w) { break; } self.lx.next(); }
                let t = self.lx.ty();
                let n = t.nslots();
                let mut inc = vec![];
                loop {
                    self.lx.expect_p(b'[');
                    let v = self.opd(&t);
                    self.lx.expect_p(b',');
                    let b = match self.lx.next() { Tok::Local(b) => b.to_string(), _ => self.lx.fail("phi") };
                    self.lx.expect_p(b']');
                    inc.push((v, b));
                    if self.lx.is_p(b',') {
                        let save = (self.lx.i, self.lx.tok, self.lx.peeked);
                        self.lx.next();
                        if self.lx.is_p(b'[') { continue; }
                        self.lx.i = save.0; self.lx.tok = save.1; self.lx.peeked = save.2;
                    }
                    break;
                }
                let d = self.reg(dst.unwrap(), n);
                self.phis.entry(self.cur).or_default().push(Phi { d, n, inc });
                self.tail();
            }
            "br" => {
                if self.lx.is_w("label") { let t = self.label(); self.add_pend(Pend::Br(t)); }
                else {
                    let t = self.lx.ty();
                    let c = self.opd1(&t);
                    self.lx.expect_p(b',');
                    let a = self.label();
                    self.lx.expect_p(b',');
                    let b = self.label();
                    self.add_pend(Pend::CBr(c, a, b));
                }
                self.tail();
            }
            "switch" => {
                let t = self.lx.ty();
                let v = self.opd1(&t);
                self.lx.expect_p(b',');
                let def = self.label();
                self.lx.expect_p(b'[');
                let mut cases = vec![];
                while !self.lx.eat_p(b']') {
                    let ct = self.lx.ty();
                    let k = opd_u64(self.opd1(&ct));
                    self.lx.expect_p(b',');
                    let l = self.label();
                    cases.push((k, l));
                }
                self.add_pend(Pend::Switch(v, Self::intw(&t).0, cases, def));
                self.tail();
            }
            "ret" => {
                let t = self.lx.ty();
                let v = if t == Ty::Void { vec![] } else { self.opd(&t) };
                self.insts.push(I::Ret(v.into()));
                self.tail();
            }
            "unreachable" => { self.insts.push(I::Unreachable); self.tail(); }
            "resume" => {
                let t = self.lx.ty();
                let v = self.opd(&t);
                self.insts.push(I::Resume(v[0]));
                self.tail();
            }
            "landingpad" => {
                let t = self.lx.ty();
                let mut sel = 0;
                loop {
                    match self.lx.peek() {
                        Tok::Word("cleanup") => { self.lx.next(); }
                        Tok::Word("catch") => { self.lx.next(); let t = self.lx.ty(); self.opd(&t); if sel == 0 { sel = 1; } }
                        Tok::Word("filter") => { self.lx.next(); let t = self.lx.ty(); if self.lx.is_w("zeroinitializer") || self.lx.is_w("undef") || self.lx.is_w("poison") { self.lx.next(); } else { self.lx.skip_balanced(); } let _ = t; if sel == 0 { sel = -1; } }
                        _ => break,
                    }
                }
                let d = self.reg(dst.unwrap(), t.nslots());
                self.insts.push(I::Landing { d, sel });
                self.tail();
            }
            "fence" => {
                loop { match self.lx.peek() { Tok::Word("syncscope") => { self.lx.next(); self.lx.skip_balanced(); } Tok::Word("acquire" | "release" | "acq_rel" | "seq_cst") => { self.lx.next(); break; } _ => break } }
                self.tail();
            }
            "atomicrmw" => {
                if self.lx.is_w("volatile") { self.lx.next(); }
                let o = match self.lx.next() { Tok::Word(w) => w, _ => self.lx.fail("rmw") };
                let pt = self.lx.ty();
                let p = self.opd1(&pt);
                self.lx.expect_p(b',');
                let t = self.lx.ty();
                let v = self.opd1(&t);
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") { self.lx.next(); } else { break; } }
                let w = Self::intw(&t).0;
                let d = self.reg(dst.unwrap_or("$none"), 1);
                let oc = match o { "add" => 0, "sub" => 1, "xchg" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, _ => 255 };
                if oc == 255 { self.insts.push(I::Unsup(format!("atomicrmw {}", o))) } else { self.insts.push(I::Rmw { op: oc, p, v, w, d }) }
                self.tail();
            }
            "cmpxchg" => {
                while let Tok::Word("weak" | "volatile") = self.lx.peek() { self.lx.next(); }
                let pt = self.lx.ty();
                let p = self.opd1(&pt);
                self.lx.expect_p(b',');
                let t = self.lx.ty();
                let cmp = self.opd1(&t);
                self.lx.expect_p(b',');
                let t = self.lx.ty();
                let new = self.opd1(&t);
                while let Tok::Word("monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") = self.lx.peek() { self.lx.next(); }
                let d = self.reg(dst.unwrap(), 2);
                self.insts.push(I::CmpXchg { p, cmp, new, w: Self::intw(&t).0, d });
                self.tail();
            }
            "tail" | "musttail" | "notail" => { self.lx.next(); self.call(dst, false); }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            _ => {
                // unknown instruction: keep as a trap that fires only if executed
                let _ = start;
                let t = self.lx.i;
                let e = self.m.src[t..].find('\n').unwrap() + t;
                self.insts.push(I::Unsup(format!("{} {}", op, &self.m.src[t..e])));
                self.lx.i = e;
                self.lx.peeked = false;
                if let Some(dn) = dst { self.reg(dn, 16); }
            }
        }
    }
    fn call(&mut self, dst: Option<&'static str>, invoke: bool) {
        // calling convention, return attributes
        loop {
            if self.lx.starts_ty() { break; }
            match self.lx.next() {
                Tok::Word("align") | Tok::Word("cc") => { self.lx.next(); }
                Tok::Word(_) => { if self.lx.is_p(b'(') { self.lx.skip_balanced(); } }
                Tok::Str(_) => { if self.lx.eat_p(b'=') { self.lx.next(); } }
                t => self.lx.fail(&format!("call {:?}", t)),
            }
        }
        let rt = self.lx.ty();
        // optional function type (varargs)
        if self.lx.is_p(b'(') { self.lx.skip_balanced(); }
        let mut asm: Option<String> = None;
        let callee = match self.lx.next() {
            Tok::Global(g) => match self.m.fidx.get(g) { Some(&f) => Callee::Func(f), None => Callee::Named(g.to_string()) },
            Tok::Local(l) => Callee::Ind(Opd::R(self.reg(l, 1))),
            Tok::Word("asm") => {
                while let Tok::Word(_) = self.lx.peek() { self.lx.next(); }
                let s = match self.lx.next() { Tok::Str(s) => s.to_string(), _ => self.lx.fail("asm") };
                self.lx.expect_p(b',');
                self.lx.next();
                asm = Some(s.clone());
                Callee::Named(format!("asm:{}", s))
            }
            t => self.lx.fail(&format!("callee {:?}", t)),
        };
        self.lx.expect_p(b'(');
        let mut args = vec![];
        if !self.lx.eat_p(b')') {
            loop {
                let t = self.lx.ty();
                if t == Ty::Other {
                    // metadata argument
                    loop { match self.lx.peek() { Tok::P(b',') | Tok::P(b')') => break, Tok::P(b'(') | Tok::P(b'{') => self.lx.skip_balanced(), _ => { self.lx.next(); } } }
                } else {
                    self.skip_attrs();
                    let v = self.opd(&t);
                    args.push((v.into_boxed_slice(), t.widths().into_boxed_slice()));
                }
                if self.lx.eat_p(b')') { break; }
                self.lx.expect_p(b',');
            }
        }
        // function attributes, operand bundles
        loop {
            match self.lx.peek() {
                Tok::Attr => { self.lx.next(); }
                Tok::P(b'[') => self.lx.skip_balanced(),
                Tok::Str(_) => { self.lx.next(); if self.lx.eat_p(b'=') { self.lx.next(); } }
                Tok::Word(w) if !invoke && matches!(w, "nounwind" | "noreturn" | "cold") => { self.lx.next(); }
                _ => break,
            }
        }
        let _ = asm;
        let n = rt.nslots();
        let d = match dst { Some(x) => self.reg(x, n), None => u32::MAX };
        let c = CallI { callee, args, d, rw: rt.widths().into(), inv: None, ext: RefCell::new(None) };
        if invoke {
            if !self.lx.eat_w("to") { self.lx.fail("to") }
            let a = self.label();
            if !self.lx.eat_w("unwind") { self.lx.fail("unwind") }
            let b = self.label();
            self.add_pend(Pend::Invoke(c, a, b));
        } else {
            self.insts.push(I::Call(Box::new(c)));
        }
        self.tail();
    }
}
