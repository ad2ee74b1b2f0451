//! Hash-consed bit-vector expressions with local simplification.
//! Width-1 expressions are booleans. Zero extension is a concatenation with a zero constant.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, Eq, Ult, Slt, SExt, Extract, Concat, Ite }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub v: u128 }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext_to(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

pub struct Model { pub id: u64, pub vals: Vec<u64> }

pub struct Pool {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    pub vars: Vec<(u16, E)>,
    support: Vec<Option<Rc<[u32]>>>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur_stamp: u32,
    cur_model: u64,
    next_model: u64,
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool { n: vec![], map: Default::default(), vars: vec![], support: vec![], stamp: vec![], memo: vec![], cur_stamp: 0, cur_model: 0, next_model: 1 };
        // id 0 is reserved
        p.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, v: 0 });
        p
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.n.len() as E;
        self.n.push(n);
        self.support.push(None);
        self.stamp.push(0);
        self.memo.push(0);
        id
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let id = self.push(n);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    pub fn k(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.v) } else { None } }
    pub fn cst(&mut self, v: u128, w: u16) -> E { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) }) }
    pub fn tru(&mut self) -> E { self.cst(1, 1) }
    pub fn fls(&mut self) -> E { self.cst(0, 1) }
    pub fn var(&mut self, idx: usize, w: u16) -> E {
        // vars are identified by (sequence number on the path, width)
        let key = Node { op: Op::Var, w, a: idx as E, b: 0, c: 0, v: 0 };
        if let Some(&e) = self.map.get(&key) { return e; }
        let vid = self.vars.len() as u128;
        let e = self.push(Node { v: vid, ..key });
        self.map.insert(key, e);
        self.vars.push((w, e));
        e
    }
    pub fn var_id(&self, e: E) -> usize { self.n[e as usize].v as usize }
    pub fn new_model(&mut self, vals: Vec<u64>) -> Rc<Model> { let id = self.next_model; self.next_model += 1; Rc::new(Model { id, vals }) }

    fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: E, v: u128) -> E { self.mk(Node { op, w, a, b, c, v }) }

    /// segments, from most to least significant
    fn segs(&self, mut e: E) -> Vec<E> {
        let mut r = vec![];
        loop {
            let n = &self.n[e as usize];
            if n.op == Op::Concat { r.push(n.a); e = n.b; } else { r.push(e); return r; }
        }
    }
    fn from_segs(&mut self, s: Vec<E>) -> E {
        // merge neighbours
        let mut out: Vec<E> = vec![];
        for x in s {
            let nx = self.n[x as usize];
            if nx.op == Op::Concat { for y in self.segs(x) { self.push_seg(&mut out, y) } } else { self.push_seg(&mut out, x) }
        }
        let mut e = *out.last().unwrap();
        for &h in out[..out.len() - 1].iter().rev() {
            let w = self.w(h) + self.w(e);
            e = self.raw(Op::Concat, w, h, e, 0, 0);
        }
        e
    }
    fn push_seg(&mut self, out: &mut Vec<E>, x: E) {
        if let Some(&l) = out.last() {
            let (nl, nx) = (self.n[l as usize], self.n[x as usize]);
            if nl.op == Op::Const && nx.op == Op::Const {
                let w = nl.w + nx.w;
                let e = self.cst((nl.v << nx.w) | nx.v, w);
                *out.last_mut().unwrap() = e;
                return;
            }
            if nl.op == Op::Ite && nx.op == Op::Ite && nl.a == nx.a {
                let x = self.concat(nl.b, nx.b);
                let y = self.concat(nl.c, nx.c);
                let e = self.raw_ite(nl.a, x, y);
                *out.last_mut().unwrap() = e;
                return;
            }
            if nl.op == Op::Extract {
                if nx.op == Op::Extract && nl.a == nx.a && nl.v == nx.v + nx.w as u128 {
                    let e = self.extract(nl.a, nx.v as u16, nl.w + nx.w);
                    *out.last_mut().unwrap() = e;
                    return;
                }
                // the low part of a sum may have been simplified on its own
                if nl.v >= nx.w as u128 && matches!(self.n[nl.a as usize].op, Op::Add | Op::Sub | Op::Mul) {
                    let lo = nl.v as u16 - nx.w;
                    if lo == 0 && self.extract(nl.a, 0, nx.w) == x {
                        let e = self.extract(nl.a, 0, nl.w + nx.w);
                        *out.last_mut().unwrap() = e;
                        return;
                    }
                }
            }
        }
        out.push(x);
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E { self.from_segs(vec![hi, lo]) }
    pub fn concat_many(&mut self, s: Vec<E>) -> E { self.from_segs(s) }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let we = self.w(e);
        if we == w { return e; }
        let z = self.cst(0, w - we);
        self.concat(z, e)
    }
    fn topbit(&self, e: E) -> Option<bool> {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => Some((n.v >> (n.w - 1)) & 1 == 1),
            Op::Concat => self.topbit(n.a),
            Op::SExt => self.topbit(n.a),
            Op::Ite => { let a = self.topbit(n.b)?; if self.topbit(n.c)? == a { Some(a) } else { None } }
            _ => None,
        }
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(v) = self.k(e) { return self.cst(sext_to(v, we) as u128, w); }
        if let Some(b) = self.topbit(e) {
            let h = self.cst(if b { u128::MAX } else { 0 }, w - we);
            return self.concat(h, e);
        }
        let n = self.n[e as usize];
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if n.op == Op::Ite { let a = self.sext(n.b, w); let b = self.sext(n.c, w); return self.ite(n.a, a, b); }
        self.raw(Op::SExt, w, e, 0, 0, 0)
    }
    /// one byte of a value as it is stored in memory; re-assembling the bytes gives the value back
    pub fn byte(&mut self, e: E, lo: u16) -> E {
        let n = self.n[e as usize];
        match n.op {
            Op::Add | Op::Sub | Op::Mul if n.w > 8 => self.raw(Op::Extract, 8, e, 0, 0, lo as u128),
            _ => self.extract(e, lo, 8),
        }
    }
    pub fn trunc(&mut self, e: E, w: u16) -> E { self.extract(e, 0, w) }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n[e as usize];
        if lo == 0 && w == n.w { return e; }
        match n.op {
            Op::Const => self.cst(n.v >> lo, w),
            Op::Extract => self.extract(n.a, n.v as u16 + lo, w),
            Op::Concat => {
                let segs = self.segs(e);
                let mut pos = n.w;
                let mut out = vec![];
                for s in segs {
                    let ws = self.w(s);
                    let (shi, slo) = (pos, pos - ws);
                    pos = slo;
                    let a = lo.max(slo);
                    let b = (lo + w).min(shi);
                    if a < b { let x = self.extract(s, a - slo, b - a); out.push(x); }
                }
                self.from_segs(out)
            }
            Op::Ite => { let a = self.extract(n.b, lo, w); let b = self.extract(n.c, lo, w); self.ite(n.a, a, b) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                match n.op { Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), _ => self.mul(a, b) }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi { self.extract(n.a, lo, w) }
                else if lo == 0 { self.sext(n.a, w) }
                else if lo >= wi { let t = self.extract(n.a, wi - 1, 1); self.sext(t, w) }
                else { let a = self.extract(n.a, lo, wi - lo); self.sext(a, w) }
            }
            _ if w == 1 && lo + 1 == n.w && n.w > 1 => { let h = self.cst(1u128 << lo, n.w); let r = self.ult(e, h); self.not(r) }
            _ => self.raw(Op::Extract, w, e, 0, 0, lo as u128),
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.cst(!n.v, n.w),
            Op::Not => n.a,
            Op::Concat => { let s = self.segs(e); let s = s.into_iter().map(|x| self.not(x)).collect(); self.from_segs(s) }
            Op::Ite if self.k(n.b).is_some() || self.k(n.c).is_some() => { let a = self.not(n.b); let b = self.not(n.c); self.ite(n.a, a, b) }
            _ => self.raw(Op::Not, n.w, e, 0, 0, 0),
        }
    }
    /// cut two segmented values at common boundaries (most significant first)
    fn align(&mut self, a: E, b: E) -> Vec<(E, E)> {
        let w = self.w(a);
        let mut cuts = vec![0u16, w];
        for x in [a, b] {
            let mut p = w;
            for s in self.segs(x) { p -= self.w(s); cuts.push(p); }
        }
        // cut constants at runs of equal bits
        cuts.sort();
        cuts.dedup();
        let mut r = vec![];
        for i in (0..cuts.len() - 1).rev() {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            r.push((x, y));
        }
        r
    }
    fn runs(v: u128, w: u16) -> Vec<(bool, u16, u16)> {
        // (bit, lo, len) low to high
        let mut r: Vec<(bool, u16, u16)> = vec![];
        for i in 0..w {
            let b = (v >> i) & 1 == 1;
            match r.last_mut() { Some(l) if l.0 == b => l.2 += 1, _ => r.push((b, i, 1)) }
        }
        r
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst(ka & kb, w); }
            if kb == 0 { return b; }
            if kb == mask(w) { return a; }
            let rs = Self::runs(kb, w);
            if rs.len() <= 8 {
                let mut out = vec![];
                for (bit, lo, len) in rs.into_iter().rev() {
                    let x = if bit { self.extract(a, lo, len) } else { self.cst(0, len) };
                    out.push(x);
                }
                return self.from_segs(out);
            }
            return self.raw(Op::And, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if w == 1 {
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.fls(); }
            // absorb: and(x, and(x,y))
            if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::And && (na.a == b || na.b == b) { return a; }
            // x <= y and y <= x
            if na.op == Op::Not && nb.op == Op::Not {
                let (p, q) = (self.n[na.a as usize], self.n[nb.a as usize]);
                if p.op == Op::Ult && q.op == Op::Ult && p.a == q.b && p.b == q.a { return self.eq(p.a, p.b); }
            }
        } else if na.op == Op::Concat || nb.op == Op::Concat {
            let al = self.align(a, b);
            let out = al.into_iter().map(|(x, y)| self.and(x, y)).collect();
            return self.from_segs(out);
        }
        self.raw(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == b { return a; }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        let w = self.w(a);
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst(ka | kb, w); }
            if kb == 0 { return a; }
            if kb == mask(w) { return b; }
            let rs = Self::runs(kb, w);
            if rs.len() <= 8 {
                let mut out = vec![];
                for (bit, lo, len) in rs.into_iter().rev() {
                    let x = if bit { self.cst(u128::MAX, len) } else { self.extract(a, lo, len) };
                    out.push(x);
                }
                return self.from_segs(out);
            }
            return self.raw(Op::Or, w, a, b, 0, 0);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if w == 1 {
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.tru(); }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
            if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
            if na.op == Op::Ult && nb.op == Op::Ult && na.a == nb.b && na.b == nb.a { let x = self.eq(na.a, na.b); return self.not(x); }
        } else if na.op == Op::Concat || nb.op == Op::Concat {
            let al = self.align(a, b);
            let out = al.into_iter().map(|(x, y)| self.or(x, y)).collect();
            return self.from_segs(out);
        }
        self.raw(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst(ka ^ kb, w); }
            if kb == 0 { return a; }
            if kb == mask(w) { return self.not(a); }
            let rs = Self::runs(kb, w);
            if rs.len() <= 8 {
                let mut out = vec![];
                for (bit, lo, len) in rs.into_iter().rev() {
                    let x = self.extract(a, lo, len);
                    let x = if bit { self.not(x) } else { x };
                    out.push(x);
                }
                return self.from_segs(out);
            }
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if na.op == Op::Not { let x = self.xor(na.a, b); return self.not(x); }
            if nb.op == Op::Not { let x = self.xor(a, nb.a); return self.not(x); }
        }
        self.raw(Op::Xor, w, a, b, 0, 0)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        let na = self.n[a as usize];
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst(ka.wrapping_add(kb), w); }
            if kb == 0 { return a; }
            if na.op == Op::Add { if let Some(k2) = self.k(na.b) { let c = self.cst(k2.wrapping_add(kb), w); return self.add(na.a, c); } }
            if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                let x = self.add(na.b, b); let y = self.add(na.c, b); return self.ite(na.a, x, y);
            }
            return self.raw(Op::Add, w, a, b, 0, 0);
        }
        let nb = self.n[b as usize];
        // float constants outwards
        if na.op == Op::Add { if self.k(na.b).is_some() { let x = self.add(na.a, b); return self.add(x, na.b); } }
        if nb.op == Op::Add { if self.k(nb.b).is_some() { let x = self.add(a, nb.a); return self.add(x, nb.b); } }
        if nb.op == Op::Sub && nb.b == a { return nb.a; }
        if na.op == Op::Sub && na.b == b { return na.a; }
        self.raw(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.cst(0, w); }
        if let Some(kb) = self.k(b) { let c = self.cst(kb.wrapping_neg(), w); return self.add(a, c); }
        if w == 1 { return self.xor(a, b); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Add {
            if na.a == b { return na.b; }
            if na.b == b { return na.a; }
            if self.k(na.b).is_some() { let x = self.sub(na.a, b); return self.add(x, na.b); }
        }
        if nb.op == Op::Add {
            if nb.a == a { let z = self.cst(0, w); return self.sub(z, nb.b); }
            if let Some(k) = self.k(nb.b) { let x = self.sub(a, nb.a); let c = self.cst(k.wrapping_neg(), w); return self.add(x, c); }
        }
        self.raw(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.and(a, b); }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst(ka.wrapping_mul(kb), w); }
            if kb == 0 { return b; }
            if kb == 1 { return a; }
            if kb.is_power_of_two() { let s = self.cst(kb.trailing_zeros() as u128, w); return self.shl(a, s); }
            let na = self.n[a as usize];
            if na.op == Op::Ite && self.k(na.b).is_some() && self.k(na.c).is_some() {
                let x = self.mul(na.b, b); let y = self.mul(na.c, b); return self.ite(na.a, x, y);
            }
        }
        self.raw(Op::Mul, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.k(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(0, w); }
            let k = k as u16;
            let h = self.extract(a, 0, w - k);
            let z = self.cst(0, k);
            return self.concat(h, z);
        }
        self.raw(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.k(b) {
            if k == 0 { return a; }
            if k >= w as u128 { return self.cst(0, w); }
            let k = k as u16;
            let h = self.extract(a, k, w - k);
            return self.zext(h, w);
        }
        self.raw(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.k(b) {
            if k == 0 { return a; }
            let k = k.min(w as u128 - 1) as u16;
            let h = self.extract(a, k, w - k);
            return self.sext(h, w);
        }
        self.raw(Op::AShr, w, a, b, 0, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { if y != 0 { return self.cst(x / y, w); } }
        if let Some(y) = self.k(b) { if y.is_power_of_two() { let s = self.cst(y.trailing_zeros() as u128, w); return self.lshr(a, s); } }
        self.raw(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { if y != 0 { return self.cst(x % y, w); } }
        if let Some(y) = self.k(b) { if y.is_power_of_two() { let s = self.cst(y - 1, w); return self.and(a, s); } }
        self.raw(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { if y != 0 { return self.cst(sext_to(x, w).wrapping_div(sext_to(y, w)) as u128, w); } }
        self.raw(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { if y != 0 { return self.cst(sext_to(x, w).wrapping_rem(sext_to(y, w)) as u128, w); } }
        self.raw(Op::SRem, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.tru(); }
        let (a, b) = if self.k(a).is_some() { (b, a) } else if self.k(b).is_some() { (a, b) } else if a > b { (b, a) } else { (a, b) };
        let na = self.n[a as usize];
        let w = na.w;
        if let Some(kb) = self.k(b) {
            if let Some(ka) = self.k(a) { return self.cst((ka == kb) as u128, 1); }
            if w == 1 { return if kb == 1 { a } else { self.not(a) }; }
            match na.op {
                Op::Concat => {
                    let mut r = self.tru();
                    let mut pos = w;
                    for s in self.segs(a) {
                        pos -= self.w(s);
                        let c = self.cst(kb >> pos, self.w(s));
                        let x = self.eq(s, c);
                        r = self.and(r, x);
                    }
                    return r;
                }
                Op::Add => if let Some(k2) = self.k(na.b) { let c = self.cst(kb.wrapping_sub(k2), w); return self.eq(na.a, c); },
                Op::Sub => {
                    if kb == 0 { return self.eq(na.a, na.b); }
                    if let Some(k2) = self.k(na.a) { let c = self.cst(k2.wrapping_sub(kb), w); return self.eq(na.b, c); }
                }
                Op::Xor => if kb == 0 { return self.eq(na.a, na.b); } else if let Some(k2) = self.k(na.b) { let c = self.cst(k2 ^ kb, w); return self.eq(na.a, c); },
                Op::Not => { let c = self.cst(!kb, w); return self.eq(na.a, c); }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let c = self.cst(kb, wi);
                    if sext_to(kb & mask(wi), wi) as u128 & mask(w) != kb { return self.fls(); }
                    return self.eq(na.a, c);
                }
                Op::Ite => {
                    let (kx, ky) = (self.k(na.b), self.k(na.c));
                    if kx.is_some() || ky.is_some() || self.n[na.b as usize].op == Op::Ite || self.n[na.c as usize].op == Op::Ite {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
            return self.raw(Op::Eq, 1, a, b, 0, 0);
        }
        let nb = self.n[b as usize];
        if w == 1 { let x = self.xor(a, b); return self.not(x); }
        if na.op == Op::Concat || nb.op == Op::Concat {
            let al = self.align(a, b);
            if al.len() > 1 && (na.op == nb.op || al.iter().any(|&(x, y)| self.k(x).is_some() || self.k(y).is_some())) && al.len() <= 16 {
                let mut r = self.tru();
                for (x, y) in al { let z = self.eq(x, y); r = self.and(r, z); }
                return r;
            }
        }
        if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
        if na.op == Op::Add { if na.a == b { let z = self.cst(0, w); return self.eq(na.b, z); } if na.b == b { let z = self.cst(0, w); return self.eq(na.a, z); } }
        if nb.op == Op::Add { if nb.a == a { let z = self.cst(0, w); return self.eq(nb.b, z); } if nb.b == a { let z = self.cst(0, w); return self.eq(nb.a, z); } }
        self.raw(Op::Eq, 1, a, b, 0, 0)
    }
    /// the value without the zero bits above it, or (x for x + k) a representative that orders the same way
    pub fn narrow(&self, e: E) -> (E, u128) {
        let n = &self.n[e as usize];
        if n.op == Op::Concat && self.k(n.a) == Some(0) { return (n.b, 0); }
        if let Some((x, k)) = self.plus(e) { return (self.n[x as usize].b, k); }
        (e, 0)
    }
    /// e = x + k without wrap-around
    fn plus(&self, e: E) -> Option<(E, u128)> {
        let n = &self.n[e as usize];
        if n.op != Op::Add { return None; }
        let k = self.k(n.b)?;
        let x = &self.n[n.a as usize];
        if x.op != Op::Concat || self.k(x.a) != Some(0) { return None; }
        if mask(self.w(x.b)).checked_add(k)? <= mask(n.w) { Some((n.a, k)) } else { None }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.cst((x < y) as u128, 1); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        if let Some(x) = ka {
            if x == mask(w) { return self.fls(); }
            let c = self.cst(x + 1, w);
            let r = self.ult(b, c);
            return self.not(r);
        }
        let na = self.n[a as usize];
        if let Some(y) = kb {
            if y == 0 { return self.fls(); }
            if y == 1 { let z = self.cst(0, w); return self.eq(a, z); }
            if y == mask(w) { let r = self.eq(a, b); return self.not(r); }
            if na.op == Op::Concat {
                if let Some(h) = self.k(na.a) {
                    let wl = self.w(na.b);
                    let kh = y >> wl;
                    if h < kh { return self.tru(); }
                    if h > kh { return self.fls(); }
                    let c = self.cst(y, wl);
                    return self.ult(na.b, c);
                }
                if y & mask(self.w(na.b)) == 0 {
                    let wh = self.w(na.a);
                    let c = self.cst(y >> self.w(na.b), wh);
                    return self.ult(na.a, c);
                }
            }
            if na.op == Op::Ite {
                let (kx, ky) = (self.k(na.b), self.k(na.c));
                if kx.is_some() || ky.is_some() || self.n[na.b as usize].op == Op::Ite || self.n[na.c as usize].op == Op::Ite {
                    let x = self.ult(na.b, b);
                    let z = self.ult(na.c, b);
                    return self.ite(na.a, x, z);
                }
            }
            if na.op == Op::Add {
                if let Some(k) = self.k(na.b) {
                    // x + k < y: x is in the interval of y values from -k
                    let lo = k.wrapping_neg() & mask(w);
                    let hi = lo.wrapping_add(y - 1) & mask(w);
                    let l = self.cst(lo, w);
                    let l = self.ult(na.a, l);
                    let l = self.not(l);
                    let h = self.cst(hi, w);
                    let h = self.ult(h, na.a);
                    let h = self.not(h);
                    return if lo <= hi { self.and(l, h) } else { self.or(l, h) };
                }
            }
            return self.raw(Op::Ult, 1, a, b, 0, 0);
        }
        // sums that cannot wrap around
        match (self.plus(a), self.plus(b)) {
            (Some((x, i)), Some((y, j))) if i == j => return self.ult(x, y),
            (None, Some((y, 1))) => { let r = self.ult(y, a); return self.not(r); }
            _ => {}
        }
        let nb = self.n[b as usize];
        if na.op == Op::Concat && nb.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.k(na.a), self.k(nb.a)) {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.min(wb);
                let (hx, hy) = (x >> (wa - m), y >> (wb - m));
                if hx < hy { return self.tru(); }
                if hx > hy { return self.fls(); }
                let x = self.extract(a, 0, w - m);
                let y = self.extract(b, 0, w - m);
                return self.ult(x, y);
            }
        }
        self.raw(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.cst((sext_to(x, w) < sext_to(y, w)) as u128, 1); }
        if w == 1 { let nb = self.not(b); return self.and(a, nb); }
        match (self.topbit(a), self.topbit(b)) {
            (Some(x), Some(y)) => { if x == y { return self.ult(a, b); } return self.cst(x as u128, 1); }
            _ => {}
        }
        if self.k(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.k(a) == Some(mask(w)) { let t = self.extract(b, w - 1, 1); return self.not(t); }
        // constants on the right: c < x  <=>  !(x < c+1)
        if let Some(x) = self.k(a) {
            if x == mask(w) >> 1 { return self.fls(); }
            let c = self.cst(x + 1, w);
            let r = self.slt(b, c);
            return self.not(r);
        }
        if let Some(y) = self.k(b) {
            if y == 1u128 << (w - 1) { return self.fls(); }
            let na = self.n[a as usize];
            if na.op == Op::Ite && (self.k(na.b).is_some() || self.k(na.c).is_some()) {
                let x = self.slt(na.b, b);
                let z = self.slt(na.c, b);
                return self.ite(na.a, x, z);
            }
            if na.op == Op::SExt {
                let wi = self.w(na.a);
                let sy = sext_to(y, w);
                let (min, max) = (-(1i128 << (wi - 1)), (1i128 << (wi - 1)) - 1);
                if sy > max { return self.tru(); }
                if sy <= min { return self.fls(); }
                let c = self.cst(sy as u128, wi);
                return self.slt(na.a, c);
            }
        }
        self.raw(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.k(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => { let n = self.not(c); return self.and(n, b); }
                (_, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let o = self.or(c, nb.a); return self.ite(o, a, nb.c); }
        // the same constant added on both sides
        if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && self.k(na.b).is_some() {
            let x = self.ite(c, na.a, nb.a);
            return self.add(x, na.b);
        }
        // common high/low constant parts
        if w > 1 && na.op == Op::Concat && nb.op == Op::Concat {
            let al = self.align(a, b);
            if al.iter().any(|&(x, y)| x == y) && al.len() <= 8 {
                let out = al.into_iter().map(|(x, y)| self.ite(c, x, y)).collect();
                return self.from_segs(out);
            }
        }
        if w > 8 {
            // zero high parts
            let za = if let Some(k) = self.k(a) { (128 - k.leading_zeros()) as u16 } else if na.op == Op::Concat && self.k(na.a) == Some(0) { self.w(na.b) } else { w };
            let zb = if let Some(k) = self.k(b) { (128 - k.leading_zeros()) as u16 } else if nb.op == Op::Concat && self.k(nb.a) == Some(0) { self.w(nb.b) } else { w };
            let z = za.max(zb).max(1);
            if z < w {
                let x = self.extract(a, 0, z);
                let y = self.extract(b, 0, z);
                let r = self.raw_ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.raw_ite(c, a, b)
    }
    fn raw_ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 && (self.k(a).is_some() || self.k(b).is_some()) { return self.ite(c, a, b); }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.support[e as usize] { return s.clone(); }
        let n = self.n[e as usize];
        let r: Rc<[u32]> = match n.op {
            Op::Const => Rc::from(vec![]),
            Op::Var => Rc::from(vec![n.v as u32]),
            _ => {
                let mut v: Vec<u32> = vec![];
                for x in [n.a, n.b, n.c] { if x != 0 { v.extend(self.support(x).iter()); } }
                v.sort_unstable();
                v.dedup();
                Rc::from(v)
            }
        };
        self.support[e as usize] = Some(r.clone());
        r
    }

    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if self.cur_model != m.id { self.cur_model = m.id; self.cur_stamp += 1; }
        self.ev(e, &m.vals)
    }
    fn ev(&mut self, e: E, vals: &[u64]) -> u128 {
        let n = self.n[e as usize];
        match n.op { Op::Const => return n.v, Op::Var => return vals.get(n.v as usize).copied().unwrap_or(0) as u128 & mask(n.w), _ => {} }
        if self.stamp[e as usize] == self.cur_stamp { return self.memo[e as usize]; }
        let w = n.w;
        let r = match n.op {
            Op::Ite => { if self.ev(n.a, vals) == 1 { self.ev(n.b, vals) } else { self.ev(n.c, vals) } }
            Op::Not => !self.ev(n.a, vals),
            Op::Extract => self.ev(n.a, vals) >> n.v,
            Op::SExt => { let wi = self.w(n.a); sext_to(self.ev(n.a, vals), wi) as u128 }
            Op::Concat => { let wl = self.w(n.b); (self.ev(n.a, vals) << wl) | self.ev(n.b, vals) }
            _ => {
                let a = self.ev(n.a, vals);
                let b = self.ev(n.b, vals);
                let wi = self.w(n.a);
                match n.op {
                    Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
                    Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => if b == 0 { mask(w) } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => { let (x, y) = (sext_to(a, w), sext_to(b, w)); if y == 0 { if x < 0 { 1 } else { mask(w) } } else { x.wrapping_div(y) as u128 } }
                    Op::SRem => { let (x, y) = (sext_to(a, w), sext_to(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
                    Op::Shl => if b >= w as u128 { 0 } else { a << b },
                    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
                    Op::AShr => (sext_to(a, w) >> b.min(w as u128 - 1)) as u128,
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Slt => (sext_to(a, wi) < sext_to(b, wi)) as u128,
                    _ => unreachable!(),
                }
            }
        } & mask(w);
        self.stamp[e as usize] = self.cur_stamp;
        self.memo[e as usize] = r;
        r
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = &self.n[e as usize];
        if depth == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{}:{}", n.v, n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.v, n.w),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] { if x != 0 { s += " "; s += &self.show(x, depth - 1); } }
                s + ")"
            }
        }
    }
}
