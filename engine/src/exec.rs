//! Symbolic executor for decoded LLVM IR.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V { pub v: u64, pub e: E }
pub const Z: V = V { v: 0, e: 0 };
#[inline(always)]
pub fn c(v: u64) -> V { V { v, e: 0 } }
#[inline(always)]
fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline(always)]
fn sx(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w as u32; ((v << s) as i64) >> s } }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub id: u32, pub ip: u32, pub base: u32, pub sp: u64 }

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub ip: u32,
    pub base: u32,
    pub sp: u64,
    pub exc: u64,
    pub pc: Vec<E>,
    pub known: FxMap<E, bool>,
    pub bounds: FxMap<E, (u128, u128)>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    pub outs: Vec<V>,
    pub outw: Vec<u16>,
    pub reach: Vec<u64>,
    pub last_panic: Option<String>,
    pub steps: u64,
    pub forks: u32,
    pub depth: u32,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Killed,
    Violation(String, String, String), // kind, message, location
    Incomplete(String),
}
type Res<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Unresolved, Code, Unknown, Nop, Ret0, RetM1, Ret1, Memcpy, Memset, Fshl, Fshr, UMax, UMin, SMax, SMin,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Cttz, Ctlz, Ctpop, Bswap, BitRev, Abs, UAddSat, USubSat, SAddSat, SSubSat, Ucmp, Scmp,
    Id, Trap, RedOr, RedAnd, RedAdd, RedMax, RedMin, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Strlen, Write, Writev, Errno, Abort,
    PanicFmt, PanicHook, PanicAbort, Raise, Syscall, Getrandom,
    SymInt(u16), SymParam, SymAssume, SymCheck, SymReach, SymOut, SymOut8, SymFail, SymConc, SymTrace, SymIsSym, IsConst,
}

pub struct Sample { pub inputs: Vec<(u16, u64)>, pub outs: u64, pub nouts: usize, pub steps: u64 }
pub struct Viol { pub kind: String, pub msg: String, pub loc: String, pub inputs: Vec<(u16, u64)>, pub count: u64 }

pub struct Opts { pub params: Vec<u64>, pub max_steps: u64, pub max_viol: u64, pub rlimit: u32, pub seed: u64, pub samples: usize, pub trace: bool }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub p: Pool,
    pub z: Z3,
    pub st: State,
    pub work: Vec<State>,
    kinds: Vec<X>,
    qcache: FxMap<Vec<E>, (R, Vec<(u32, u64)>)>,
    addrcache: FxMap<(E, Vec<E>), Option<Rc<Vec<u64>>>>,
    pub o: Opts,
    pub executed: Vec<u64>,
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub nforks: u64,
    pub violations: Vec<Viol>,
    pub nviol: u64,
    pub incomplete: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub reach: std::collections::BTreeMap<u64, u64>,
    pub sym_panic: Option<u32>,
    pub decided_by_solver: u64,
    log_queries: bool,
    pub checks: u64,
    rng: u64,
    pub maxdepth: u32,
    pub maxpathsteps: u64,
    pub panics: std::collections::BTreeMap<String, u64>,
    errno: u64,
}

const MAXDEPTH: usize = 30_000;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, o: Opts) -> Exec<'m> {
        let mut mem = Mem::new();
        for (a, b) in &m.ginit { mem.map_static(*a, b); }
        let errno = 0x000f_0000;
        mem.map_static(errno, &[0; 16]);
        let mut p = Pool::new();
        let model = p.new_model(vec![]);
        let st = State { mem, regs: vec![], frames: vec![], ip: 0, base: 0, sp: STACK + STACK_SIZE, exc: 0, pc: vec![], known: Default::default(), bounds: Default::default(), model, inputs: vec![], outs: vec![], outw: vec![], reach: vec![], last_panic: None, steps: 0, forks: 0, depth: 0 };
        let sym_panic = m.fidx.get("sym_panic").copied();
        let z = Z3::new(o.rlimit);
        let rng = o.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Exec { m, p, z, st, work: vec![], kinds: vec![X::Unresolved; m.funcs.len()], qcache: Default::default(), addrcache: Default::default(), o, executed: vec![0; m.funcs.len()], paths: 0, killed: 0, steps: 0, nforks: 0, violations: vec![], nviol: 0, incomplete: Default::default(), samples: vec![], reach: Default::default(), sym_panic, decided_by_solver: 0, log_queries: std::env::var("SYMX_QUERIES").is_ok(), checks: 0, rng, maxdepth: 0, maxpathsteps: 0, panics: Default::default(), errno }
    }
    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let id = *self.m.fidx.get(name).ok_or(format!("no function {}", name))?;
        if self.m.funcs[id as usize].decl { return Err(format!("{} is only declared", name)); }
        self.push_frame(id, &[]).map_err(|e| format!("{:?}", e))
    }

    // ---------------------------------------------------------------- values
    #[inline(always)]
    fn reg(&self, r: u32) -> V { unsafe { *self.st.regs.get_unchecked((self.st.base + r) as usize) } }
    #[inline(always)]
    fn set(&mut self, r: u32, v: V) { let i = (self.st.base + r) as usize; debug_assert!(i < self.st.regs.len()); unsafe { *self.st.regs.get_unchecked_mut(i) = v } }
    #[inline(always)]
    fn get(&mut self, o: Opd) -> V { match o { Opd::R(r) => self.reg(r), Opd::C(v) => c(v), Opd::W(v) => { let e = self.p.cst(v, 128); V { v: 0, e } } } }
    /// expression of a value with width w
    fn ex(&mut self, v: V, w: u16) -> E {
        if v.e != 0 {
            // constants written as 128-bit operands
            let ew = self.p.w(v.e);
            if ew != w { if let Some(k) = self.p.k(v.e) { return self.p.cst(k, w); } panic!("width mismatch {} vs {} in {}", ew, w, self.loc()); }
            v.e
        } else { self.p.cst(v.v as u128, w) }
    }
    fn val(&self, e: E) -> V {
        if let Some(k) = self.p.k(e) { if self.p.w(e) <= 64 { return c(k as u64); } }
        if self.p.w(e) == 1 { if let Some(b) = self.lookup(e) { return c(b as u64); } }
        let n = &self.p.n[e as usize];
        if n.op == Op::Concat && self.p.k(n.a) == Some(0) {
            // the low bits of a value whose high bits are known to be zero
            let x = &self.p.n[n.b as usize];
            if x.op == Op::Extract && x.v == 0 && self.p.w(x.a) == n.w && self.range(x.a).1 <= mask(x.w) { return V { v: 0, e: x.a }; }
        }
        V { v: 0, e }
    }
    fn loc(&self) -> String { match self.st.frames.last() { Some(f) => f.f.name.clone(), None => "?".into() } }

    // ---------------------------------------------------------------- deciding
    fn norm(&self, mut e: E) -> (E, bool) {
        let mut pos = true;
        loop { let n = &self.p.n[e as usize]; if n.op == Op::Not && n.w == 1 { e = n.a; pos = !pos; } else { return (e, pos); } }
    }
    fn lookup(&self, e: E) -> Option<bool> {
        let (b, pos) = self.norm(e);
        if let Some(k) = self.p.k(b) { return Some((k == 1) == pos); }
        if let Some(&x) = self.st.known.get(&b) { return Some(x == pos); }
        let n = &self.p.n[b as usize];
        match n.op {
            Op::Ult => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if ha < lb { return Some(pos); }
                if la >= hb { return Some(!pos); }
            }
            Op::Eq => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if ha < lb || hb < la { return Some(!pos); }
            }
            Op::And if n.w == 1 => {
                let (x, y) = (self.lookup(n.a), self.lookup(n.b));
                if x == Some(false) || y == Some(false) { return Some(!pos); }
                if x == Some(true) && y == Some(true) { return Some(pos); }
            }
            Op::Or if n.w == 1 => {
                let (x, y) = (self.lookup(n.a), self.lookup(n.b));
                if x == Some(true) || y == Some(true) { return Some(pos); }
                if x == Some(false) && y == Some(false) { return Some(!pos); }
            }
            _ => {}
        }
        None
    }
    /// select(a < b, a, b) where the path already orders a and b
    fn minmax(&mut self, k: E, x: V, y: V) -> Option<V> {
        let (b, pos) = self.norm(k);
        let n = self.p.n[b as usize];
        if n.op != Op::Ult || x.e == 0 || y.e == 0 { return None; }
        let (x, y) = if pos { (x, y) } else { (y, x) };
        let same = |p: &Pool, v: E, e: E| { let (v, e) = (p.narrow(v), p.narrow(e)); v == e };
        if !(same(&self.p, x.e, n.a) && same(&self.p, y.e, n.b) || same(&self.p, x.e, n.b) && same(&self.p, y.e, n.a)) { return None; }
        // a < b ? x : y; when b < a is impossible the operands may be taken as ordered
        let r = self.p.ult(n.b, n.a);
        if self.lookup(r) == Some(false) { Some(x) } else { None }
    }
    fn range(&self, e: E) -> (u128, u128) {
        if let Some(k) = self.p.k(e) { return (k, k); }
        if let Some(&r) = self.st.bounds.get(&e) { return r; }
        let n = &self.p.n[e as usize];
        if n.op == Op::Concat && self.p.k(n.a) == Some(0) { return self.range(n.b); }
        if n.op == Op::Add {
            if let Some((x, k)) = self.p.k(n.b).map(|k| (n.a, k)).or(self.p.k(n.a).map(|k| (n.b, k))) {
                let (l, h) = self.range(x);
                // the shifted range, if all of it wraps or none of it does
                let m = mask(n.w);
                let (lc, l2) = add_w(l, k, m);
                let (hc, h2) = add_w(h, k, m);
                if lc == hc { return (l2, h2); }
            } else {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if let Some(h) = ha.checked_add(hb) { if h <= mask(n.w) { return (la + lb, h); } }
            }
        }
        if n.op == Op::Extract && n.v == 0 { let r = self.range(n.a); if r.1 <= mask(n.w) { return r; } }
        if n.w == 1 { if let Some(b) = self.lookup(e) { return (b as u128, b as u128); } }
        (0, mask(n.w))
    }
    fn note(&mut self, e: E) {
        let (b, pos) = self.norm(e);
        if self.p.k(b).is_some() { return; }
        self.st.known.insert(b, pos);
        let n = self.p.n[b as usize];
        match n.op {
            Op::And if n.w == 1 && pos => { self.note(n.a); self.note(n.b); }
            Op::Or if n.w == 1 && !pos => { let (x, y) = (self.p.not(n.a), self.p.not(n.b)); self.note(x); self.note(y); }
            Op::Ult => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if pos {
                    // a < b
                    if hb > 0 { self.tighten(n.a, la, ha.min(hb - 1)); }
                    self.tighten(n.b, lb.max(la.saturating_add(1)), hb);
                } else {
                    // a >= b
                    self.tighten(n.a, la.max(lb), ha);
                    self.tighten(n.b, lb, hb.min(ha));
                }
            }
            Op::Eq if n.w != 1 || true => {
                let (la, ha) = self.range(n.a);
                let (lb, hb) = self.range(n.b);
                if pos { let (l, h) = (la.max(lb), ha.min(hb)); self.tighten(n.a, l, h); self.tighten(n.b, l, h); }
                else if lb == hb { if la == lb { self.tighten(n.a, la.saturating_add(1), ha) } else if ha == lb { self.tighten(n.a, la, ha.saturating_sub(1)) } }
                else if la == ha { if lb == la { self.tighten(n.b, lb.saturating_add(1), hb) } else if hb == la { self.tighten(n.b, lb, hb.saturating_sub(1)) } }
            }
            _ => {}
        }
    }
    fn tighten(&mut self, e: E, l: u128, h: u128) {
        if self.p.k(e).is_some() || l > h { return; }
        let n = self.p.n[e as usize];
        if n.op == Op::Concat && self.p.k(n.a) == Some(0) { let m = mask(self.p.w(n.b)); if l <= m { self.tighten(n.b, l, h.min(m)); } }
        let (ol, oh) = self.range(e);
        let (l, h) = (l.max(ol), h.min(oh));
        if l > h { return; }
        self.st.bounds.insert(e, (l, h));
        if n.op == Op::Add {
            if let Some((x, k)) = self.p.k(n.b).map(|k| (n.a, k)).or(self.p.k(n.a).map(|k| (n.b, k))) {
                let m = mask(n.w);
                let nk = if k == 0 { 0 } else { (m - k) + 1 };
                let (lc, l2) = add_w(l, nk, m);
                let (hc, h2) = add_w(h, nk, m);
                if lc == hc { self.tighten(x, l2, h2); }
            }
        }
    }
    fn assert(&mut self, e: E) {
        let n = self.p.n[e as usize];
        if n.op == Op::And && n.w == 1 { self.assert(n.a); self.assert(n.b); self.st.known.insert(e, true); return; }
        if self.p.k(e) == Some(1) { return; }
        self.note(e);
        self.st.pc.push(e);
    }
    /// path constraints that share variables (transitively) with e, plus e
    fn slice(&mut self, e: E) -> Vec<E> {
        let mut vars: Vec<u32> = self.p.support(e).to_vec();
        let pc = &self.st.pc;
        let sup: Vec<Rc<[u32]>> = pc.iter().map(|&x| self.p.support(x)).collect();
        let mut used = vec![false; sup.len()];
        loop {
            let mut ch = false;
            for i in 0..sup.len() {
                if used[i] { continue; }
                if sup[i].iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true;
                    for v in sup[i].iter() { if let Err(k) = vars.binary_search(v) { vars.insert(k, *v); ch = true; } }
                }
            }
            if !ch { break; }
        }
        let mut r: Vec<E> = (0..sup.len()).filter(|&i| used[i]).map(|i| self.st.pc[i]).collect();
        r.push(e);
        r.sort_unstable();
        r.dedup();
        r
    }
    fn query(&mut self, e: E) -> (R, Vec<(u32, u64)>) {
        let s = self.slice(e);
        if let Some(r) = self.qcache.get(&s) { return r.clone(); }
        let mut vs: Vec<u32> = vec![];
        for &x in &s { vs.extend(self.p.support(x).iter()); }
        vs.sort_unstable();
        vs.dedup();
        let want: Vec<E> = vs.iter().map(|&v| self.p.vars[v as usize].1).collect();
        if self.log_queries { let v: Vec<String> = s.iter().map(|&x| self.p.show(x, 9)).collect(); eprintln!("[query] {} :: {}   @{}", self.p.show(e, 9), v.join(" ; "), self.loc()); }
        let (r, vals) = self.z.check(&self.p, &s, &want);
        let out = (r, vs.into_iter().zip(vals).collect::<Vec<_>>());
        if self.qcache.len() > 400_000 { self.qcache.clear(); }
        self.qcache.insert(s, out.clone());
        out
    }
    fn with_vals(&mut self, a: &[(u32, u64)]) -> Rc<Model> {
        let mut v = self.st.model.vals.clone();
        for &(i, x) in a { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = x; }
        self.p.new_model(v)
    }
    fn fork(&mut self, cond: E, model: Rc<Model>) {
        self.nforks += 1;
        let mut o = self.st.clone();
        self.st.mem.flush();
        o.model = model;
        o.forks += 1;
        std::mem::swap(&mut self.st, &mut o);
        self.assert(cond);
        std::mem::swap(&mut self.st, &mut o);
        self.work.push(o);
    }
    /// Truth value of e on this path; pushes the other side as a new state when both are possible.
    fn decide(&mut self, e: E) -> Res<bool> {
        if let Some(b) = self.lookup(e) { return Ok(b); }
        let m = self.st.model.clone();
        let side = self.p.eval(e, &m) == 1;
        let ne = self.p.not(e);
        let (here, other) = if side { (e, ne) } else { (ne, e) };
        self.decided_by_solver += 1;
        match self.query(other) {
            (R::Unsat, _) => { self.note(here); Ok(side) }
            (R::Sat, vals) => {
                let nm = self.with_vals(&vals);
                self.fork(other, nm);
                self.assert(here);
                Ok(side)
            }
            (R::Unknown, _) => Err(Stop::Incomplete("solver returned unknown".into())),
        }
    }
    fn assume(&mut self, e: E) -> Res<()> {
        match self.lookup(e) { Some(true) => return Ok(()), Some(false) => return Err(Stop::Killed), None => {} }
        let m = self.st.model.clone();
        if self.p.eval(e, &m) != 1 {
            match self.query(e) {
                (R::Unsat, _) => return Err(Stop::Killed),
                (R::Unknown, _) => return Err(Stop::Incomplete("solver returned unknown".into())),
                (R::Sat, vals) => { self.st.model = self.with_vals(&vals); }
            }
        }
        self.assert(e);
        Ok(())
    }
    fn conc(&mut self, v: V, w: u16) -> Res<u64> {
        if v.e == 0 { return Ok(v.v); }
        let e = self.ex(v, w);
        if let Some(k) = self.p.k(e) { return Ok(k as u64); }
        loop {
            let (l, h) = self.range(e);
            if l == h { return Ok(l as u64); }
            let m = self.st.model.clone();
            let k = self.p.eval(e, &m);
            let kc = self.p.cst(k, w);
            let q = self.p.eq(e, kc);
            if self.decide(q)? { return Ok(k as u64); }
        }
    }
    #[inline(always)]
    fn ptr(&mut self, o: Opd) -> Res<u64> { let v = self.get(o); if v.e == 0 { Ok(v.v) } else { self.conc(v, 64) } }
    fn truth(&mut self, v: V) -> Res<bool> { if v.e == 0 { return Ok(v.v & 1 != 0); } let e = self.ex(v, 1); self.decide(e) }
    /// all feasible values of e on this path, if there are at most lim
    fn feasible(&mut self, e: E, lim: usize) -> Res<Option<Rc<Vec<u64>>>> {
        let mut key = self.slice(e);
        key.retain(|&x| x != e);
        if let Some(r) = self.addrcache.get(&(e, key.clone())) { return Ok(r.clone()); }
        let w = self.p.w(e);
        let mut vals = vec![];
        let mut cs = key.clone();
        let m = self.st.model.clone();
        let mut v = self.p.eval(e, &m) as u64;
        let r = loop {
            vals.push(v);
            if vals.len() > lim { break None; }
            let k = self.p.cst(v as u128, w);
            let q = self.p.eq(e, k);
            let nq = self.p.not(q);
            cs.push(nq);
            let sup = self.p.support(e);
            let mut vs: Vec<u32> = sup.to_vec();
            for &x in &key { vs.extend(self.p.support(x).iter()); }
            vs.sort_unstable();
            vs.dedup();
            let want: Vec<E> = vs.iter().map(|&v| self.p.vars[v as usize].1).collect();
            match self.z.check(&self.p, &cs, &want) {
                (R::Unsat, _) => { vals.sort_unstable(); break Some(Rc::new(vals)); }
                (R::Sat, a) => {
                    let asg: Vec<(u32, u64)> = vs.into_iter().zip(a).collect();
                    let nm = self.with_vals(&asg);
                    v = self.p.eval(e, &nm) as u64;
                }
                (R::Unknown, _) => return Err(Stop::Incomplete("solver returned unknown".into())),
            }
        };
        self.addrcache.insert((e, key), r.clone());
        Ok(r)
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: Bin, w: u16, a: V, b: V) -> Res<V> {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.v, b.v);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx(x, w) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Violation("ub".into(), "division by zero reached".into(), self.loc())),
                Bin::UDiv => x / y, Bin::URem => x % y,
                Bin::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                Bin::SRem => sx(x, w).wrapping_rem(sx(y, w)) as u64,
            };
            return Ok(c(r & m64(w)));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
            let z = self.p.cst(0, w);
            let q = self.p.eq(y, z);
            if self.decide(q)? { return Err(Stop::Violation("ub".into(), "division by zero reached".into(), self.loc())); }
        }
        let p = &mut self.p;
        let r = match op {
            Bin::Add => p.add(x, y), Bin::Sub => p.sub(x, y), Bin::Mul => p.mul(x, y), Bin::And => p.and(x, y), Bin::Or => p.or(x, y), Bin::Xor => p.xor(x, y),
            Bin::Shl => p.shl(x, y), Bin::LShr => p.lshr(x, y), Bin::AShr => p.ashr(x, y),
            Bin::UDiv => p.udiv(x, y), Bin::URem => p.urem(x, y), Bin::SDiv => p.sdiv(x, y), Bin::SRem => p.srem(x, y),
        };
        Ok(self.val(r))
    }
    fn cmp(&mut self, pr: Pred, w: u16, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.v, b.v);
            return c(match pr {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx(x, w) < sx(y, w), Pred::Sle => sx(x, w) <= sx(y, w), Pred::Sgt => sx(x, w) > sx(y, w), Pred::Sge => sx(x, w) >= sx(y, w),
            } as u64);
        }
        let (mut x, mut y) = (self.ex(a, w), self.ex(b, w));
        if w > 1 && !matches!(pr, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge) {
            let (bx, by) = (self.whole(x), self.whole(y));
            if bx != x || by != y {
                let wm = self.p.w(bx).max(self.p.w(by));
                let k = |s: &mut Self, e: E| match s.p.k(e) { Some(k) => s.p.cst(k, wm), None => s.p.zext(e, wm) };
                let cut = |s: &Self, e: E| match s.p.k(e) { Some(k) => k <= mask(wm), None => s.p.w(e) <= wm };
                // (a constant keeps its width; it may not fit into the narrower one)
                if cut(self, bx) && cut(self, by) { x = k(self, bx); y = k(self, by); }
            }
        }
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => { let q = p.eq(x, y); p.not(q) }
            Pred::Ult => p.ult(x, y),
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => { let q = p.ult(x, y); p.not(q) }
            Pred::Ule => { let q = p.ult(y, x); p.not(q) }
            Pred::Slt => p.slt(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => { let q = p.slt(x, y); p.not(q) }
            Pred::Sle => { let q = p.slt(y, x); p.not(q) }
        };
        self.val(r)
    }
    /// a shorter way to write the number e: without zero bits above it, and not as the low bits of something that fits into them anyway
    fn whole(&self, mut e: E) -> E {
        loop {
            let n = &self.p.n[e as usize];
            if n.op == Op::Concat && self.p.k(n.a) == Some(0) && self.p.w(n.b) > 1 { e = n.b; continue; }
            if n.op == Op::Extract && n.v == 0 && n.w > 1 && self.range(n.a).1 <= mask(n.w) { e = n.a; continue; }
            return e;
        }
    }
    fn cast(&mut self, k: Cast, wf: u16, wt: u16, a: V) -> V {
        if a.e == 0 && wf <= 64 && wt <= 64 {
            return c(match k { Cast::Zext => a.v, Cast::Trunc => a.v & m64(wt), Cast::Sext => sx(a.v, wf) as u64 & m64(wt) });
        }
        let x = self.ex(a, wf);
        let r = match k { Cast::Zext => self.p.zext(x, wt), Cast::Sext => self.p.sext(x, wt), Cast::Trunc => self.p.trunc(x, wt) };
        self.val(r)
    }
    fn ite(&mut self, cd: V, a: V, b: V, w: u16) -> V {
        if cd.e == 0 { return if cd.v & 1 != 0 { a } else { b }; }
        if a.e == b.e && (a.e != 0 || a.v == b.v) { return a; }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.p.ite(cd.e, x, y);
        self.val(r)
    }

    // ---------------------------------------------------------------- memory
    fn fault(&self, f: Fault) -> Stop {
        if f.0.starts_with("engine") { Stop::Incomplete(f.0) } else { Stop::Violation("memory".into(), f.0, self.loc()) }
    }
    fn load(&mut self, a: u64, w: u16) -> Res<V> {
        if w <= 64 {
            if let Some(v) = self.st.mem.read_fast(a, (w as usize + 7) / 8) { return Ok(c(v & m64(w))); }
        }
        match self.st.mem.read(&mut self.p, a, w) { Ok((v, e)) => Ok(V { v, e }), Err(f) => Err(self.fault(f)) }
    }
    fn store(&mut self, a: u64, w: u16, v: V) -> Res<()> {
        if v.e == 0 && self.st.mem.write_fast(a, (w as usize + 7) / 8, v.v) { return Ok(()); }
        if w > 64 || v.e != 0 {
            let e = self.ex(v, w);
            if w <= 64 { if let Some(k) = self.p.k(e) { return self.st.mem.write(&mut self.p, a, w, k as u64, 0).map_err(|f| self.fault(f)); } }
            return self.st.mem.write(&mut self.p, a, w, 0, e).map_err(|f| self.fault(f));
        }
        self.st.mem.write(&mut self.p, a, w, v.v, 0).map_err(|f| self.fault(f))
    }
    fn load_sym(&mut self, pe: V, w: u16, isptr: bool) -> Res<V> {
        let e = self.ex(pe, 64);
        if !isptr && w <= 64 {
            if let Some(addrs) = self.feasible(e, 300)? {
                // values at each feasible address, then a chain over runs of equal values
                let mut vs = Vec::with_capacity(addrs.len());
                for &a in addrs.iter() { let x = self.load(a, w); match x { Ok(v) => vs.push(v), Err(_) => { let a = self.conc(pe, 64)?; return self.load(a, w); } } }
                let mut r = *vs.last().unwrap();
                for i in (0..vs.len() - 1).rev() {
                    if vs[i].v == r.v && vs[i].e == r.e { continue; }
                    // addresses <= addrs[i] take vs[i] (given all larger thresholds failed)
                    let k = self.p.cst(addrs[i] as u128, 64);
                    let lt = self.p.ult(k, e);
                    let cd = self.p.not(lt);
                    let cv = self.val(cd);
                    r = self.ite(cv, vs[i], r, w);
                }
                return Ok(r);
            }
        }
        let a = self.conc(pe, 64)?;
        self.load(a, w)
    }

    // ---------------------------------------------------------------- control
    fn push_frame(&mut self, id: u32, args: &[V]) -> Res<()> {
        let f = self.m.func(id);
        self.executed[id as usize] += 1;
        if self.st.frames.len() >= MAXDEPTH { return Err(Stop::Violation("stack".into(), "call depth exceeded (unbounded recursion)".into(), self.loc())); }
        let st = &mut self.st;
        if let Some(fr) = st.frames.last_mut() { fr.ip = st.ip; }
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nslots as usize, Z);
        let mut i = 0;
        for &(r, n) in &f.params { for k in 0..n { if i < args.len() { st.regs[(base + r + k) as usize] = args[i]; } i += 1; } }
        st.frames.push(Frame { f, id, ip: 0, base, sp: st.sp });
        st.ip = 0;
        st.base = base;
        self.maxdepth = self.maxdepth.max(st.frames.len() as u32);
        Ok(())
    }
    fn pop_frame(&mut self) -> bool {
        let st = &mut self.st;
        let fr = st.frames.pop().unwrap();
        st.sp = fr.sp;
        st.regs.truncate(fr.base as usize);
        match st.frames.last() { Some(f) => { st.ip = f.ip; st.base = f.base; true } None => false }
    }
    #[inline(always)]
    fn edge(&mut self, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = self.get(e.moves[0].1); self.set(e.moves[0].0, v); }
            2 => { let a = self.get(e.moves[0].1); let b = self.get(e.moves[1].1); self.set(e.moves[0].0, a); self.set(e.moves[1].0, b); }
            _ => {
                let v: Vec<V> = e.moves.iter().map(|m| self.get(m.1)).collect();
                for (m, v) in e.moves.iter().zip(v) { self.set(m.0, v); }
            }
        }
        self.st.ip = e.target;
    }
    /// continue after the call instruction at the current ip with result slots
    fn finish_call(&mut self, ci: &CallI, r: &[V]) {
        if ci.d != u32::MAX { for (i, v) in r.iter().enumerate().take(ci.rw.len()) { self.set(ci.d + i as u32, *v); } }
        match &ci.inv { Some((n, _)) => self.edge(n), None => self.st.ip += 1 }
    }
    fn unwind(&mut self, exc: u64) -> Res<()> {
        self.st.exc = exc;
        loop {
            if !self.pop_frame() {
                let l = self.st.last_panic.clone().unwrap_or_default();
                return Err(Stop::Violation("panic".into(), "uncaught panic".into(), l));
            }
            let f = self.st.frames.last().unwrap().f.clone();
            if let I::Call(ci) = &f.insts[self.st.ip as usize] {
                if let Some((_, u)) = &ci.inv { self.edge(u); return Ok(()); }
            } else { return Err(Stop::Incomplete("unwinding through a frame that is not at a call".into())); }
        }
    }
    fn read_str(&mut self, a: u64, n: u64) -> String {
        match self.st.mem.read_bytes(a, n.min(400)) { Ok(b) => String::from_utf8_lossy(&b.into_iter().map(|x| if x.1 != 0 { b'?' } else { x.0 }).collect::<Vec<u8>>()).into_owned(), Err(_) => "<unreadable>".into() }
    }
    fn location(&mut self, a: u64) -> String {
        let g = |s: &mut Self, o: u64, w: u16| s.st.mem.read(&mut s.p, a + o, w).map(|x| x.0).unwrap_or(0);
        let (p, n, l, co) = (g(self, 0, 64), g(self, 8, 64), g(self, 16, 32), g(self, 20, 32));
        let f = self.read_str(p, n.saturating_sub(0));
        let f = f.trim_end_matches('\0').to_string();
        format!("{}:{}:{}", f, l, co)
    }
    /// first literal piece of a formatting template, for reports only
    fn template(&mut self, a: u64) -> String {
        let mut s = String::new();
        for i in 0..80 {
            match self.st.mem.read_bytes(a + i, 1) { Ok(b) => { let ch = b[0].0; if ch >= 32 && ch < 127 { s.push(ch as char) } else if i > 0 { break; } } Err(_) => break }
        }
        s
    }

    fn resolve(&self, id: u32) -> X {
        let f = &self.m.funcs[id as usize];
        let n = f.name.as_str();
        if n.contains("9panicking9panic_fmt") { return X::PanicFmt; }
        if n.contains("9panicking15panic_with_hook") { return X::PanicHook; }
        if n.contains("9panicking18panic_nounwind_fmt") || n.contains("alloc18handle_alloc_error") || n.contains("9panicking16panic_in_cleanup") || n.contains("9panicking14panic_nounwind") || n.contains("9panicking19panic_cannot_unwind") || n.contains("9panicking26panic_nounwind_nobacktrace") { return X::PanicAbort; }
        if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") { return X::Nop; }
        if !f.decl { return X::Code; }
        if let Some(r) = n.strip_prefix("llvm.") {
            let starts = |s: &str| r.starts_with(s);
            let t: &[(&str, X)] = &[
                ("lifetime.", X::Nop), ("experimental.noalias.scope.decl", X::Nop), ("assume", X::Nop), ("dbg.", X::Nop), ("prefetch", X::Nop), ("donothing", X::Nop), ("x86.sse2.pause", X::Nop), ("invariant.", X::Nop),
                ("memcpy.", X::Memcpy), ("memmove.", X::Memcpy), ("memset.", X::Memset), ("fshl.", X::Fshl), ("fshr.", X::Fshr),
                ("umax.", X::UMax), ("umin.", X::UMin), ("smax.", X::SMax), ("smin.", X::SMin),
                ("uadd.with", X::UAddO), ("usub.with", X::USubO), ("umul.with", X::UMulO), ("sadd.with", X::SAddO), ("ssub.with", X::SSubO), ("smul.with", X::SMulO),
                ("cttz.", X::Cttz), ("ctlz.", X::Ctlz), ("ctpop.", X::Ctpop), ("bswap.", X::Bswap), ("bitreverse.", X::BitRev), ("abs.", X::Abs),
                ("uadd.sat", X::UAddSat), ("usub.sat", X::USubSat), ("sadd.sat", X::SAddSat), ("ssub.sat", X::SSubSat), ("ucmp.", X::Ucmp), ("scmp.", X::Scmp),
                ("is.constant", X::IsConst), ("threadlocal.address", X::Id), ("expect.", X::Id), ("trap", X::Trap), ("ubsantrap", X::Trap), ("debugtrap", X::Trap), ("ssa.copy", X::Id),
                ("vector.reduce.or", X::RedOr), ("vector.reduce.and", X::RedAnd), ("vector.reduce.add", X::RedAdd), ("vector.reduce.umax", X::RedMax), ("vector.reduce.umin", X::RedMin),
            ];
            for (k, x) in t { if starts(k) { return *x; } }
            return X::Unknown;
        }
        match n {
            "malloc" => X::Malloc, "calloc" => X::Calloc, "realloc" => X::Realloc, "free" => X::Free, "posix_memalign" => X::Memalign,
            "memcmp" | "bcmp" => X::Memcmp, "memcpy" | "memmove" => X::Memcpy, "strlen" => X::Strlen, "getenv" => X::Ret0, "write" => X::Write, "writev" => X::Writev, "__errno_location" => X::Errno,
            "abort" => X::Abort, "_Unwind_RaiseException" => X::Raise, "_Unwind_DeleteException" => X::Nop, "syscall" => X::Syscall, "getrandom" => X::Getrandom,
            "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "sigaction" | "pthread_self" => X::Ret0,
            "gettid" | "sysconf" => X::Ret1, "__xpg_strerror_r" => X::Ret0, "open64" | "open" | "sched_getaffinity" => X::RetM1,
            "sym_u8" => X::SymInt(8), "sym_u16" => X::SymInt(16), "sym_u21" => X::SymInt(21), "sym_u32" => X::SymInt(32), "sym_u64" => X::SymInt(64), "sym_bool" => X::SymInt(1),
            "sym_param" => X::SymParam, "sym_assume" => X::SymAssume, "sym_check" => X::SymCheck, "sym_reach" => X::SymReach, "sym_out" => X::SymOut, "sym_out8" => X::SymOut8, "sym_fail" => X::SymFail,
            "sym_concrete" => X::SymConc, "sym_trace" => X::SymTrace, "sym_is_symbolic" => X::SymIsSym,
            _ => X::Unknown,
        }
    }

    fn do_call(&mut self, ci: &CallI) -> Res<()> {
        let id = match &ci.callee {
            Callee::Func(id) => *id,
            Callee::Ind(o) => {
                let a = self.ptr(*o)?;
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 >= self.m.funcs.len() as u64 { return Err(Stop::Violation("memory".into(), format!("call of a non-function address {:#x}", a), self.loc())); }
                ((a - FBASE) / 16) as u32
            }
            Callee::Named(n) => {
                if let Some(s) = n.strip_prefix("asm:") {
                    if s.is_empty() { let r = vec![Z; ci.rw.len()]; self.finish_call(ci, &r); return Ok(()); }
                    if s.contains("cpuid") { let r = vec![Z; ci.rw.len()]; self.finish_call(ci, &r); return Ok(()); }
                }
                return Err(Stop::Incomplete(format!("call of {}", n)));
            }
        };
        let mut x = self.kinds[id as usize];
        if x == X::Unresolved { x = self.resolve(id); self.kinds[id as usize] = x; }
        if x == X::Code {
            let mut buf = [Z; 24];
            let mut n = 0;
            let mut big = vec![];
            for (ops, _) in &ci.args { for o in ops.iter() { let v = self.get(*o); if n < 24 { buf[n] = v; } else { if big.is_empty() { big.extend_from_slice(&buf); } big.push(v); } n += 1; } }
            if self.o.trace { eprintln!("{:width$}{}", "", self.m.funcs[id as usize].name, width = self.st.frames.len()); }
            return if n <= 24 { self.push_frame(id, &buf[..n]) } else { self.push_frame(id, &big) };
        }
        self.ext(x, id, ci)
    }
    fn arg(&mut self, ci: &CallI, i: usize) -> V { let o = ci.args[i].0[0]; self.get(o) }
    fn argw(&self, ci: &CallI, i: usize) -> u16 { ci.args[i].1[0] }
    fn argc(&mut self, ci: &CallI, i: usize) -> Res<u64> { let v = self.arg(ci, i); let w = self.argw(ci, i); self.conc(v, w) }

    fn ext(&mut self, x: X, id: u32, ci: &CallI) -> Res<()> {
        // lane-wise integer intrinsics
        let lanes = ci.rw.len();
        match x {
            X::UMax | X::UMin | X::SMax | X::SMin | X::Fshl | X::Fshr | X::Cttz | X::Ctlz | X::Ctpop | X::Bswap | X::BitRev | X::Abs | X::UAddSat | X::USubSat | X::SAddSat | X::SSubSat | X::Ucmp | X::Scmp => {
                let mut r = Vec::with_capacity(lanes);
                for l in 0..lanes {
                    let g = |s: &mut Self, i: usize| { let o = ci.args[i].0[l.min(ci.args[i].0.len() - 1)]; s.get(o) };
                    let w = ci.args[0].1[0];
                    let a = g(self, 0);
                    let b = if ci.args.len() > 1 { g(self, 1) } else { Z };
                    let v = match x {
                        X::UMax => { let k = self.cmp(Pred::Ult, w, a, b); match if k.e != 0 { self.minmax(k.e, b, a) } else { None } { Some(r) => r, None => self.ite(k, b, a, w) } }
                        X::UMin => { let k = self.cmp(Pred::Ult, w, a, b); match if k.e != 0 { self.minmax(k.e, a, b) } else { None } { Some(r) => r, None => self.ite(k, a, b, w) } }
                        X::SMax => { let k = self.cmp(Pred::Slt, w, a, b); self.ite(k, b, a, w) }
                        X::SMin => { let k = self.cmp(Pred::Slt, w, a, b); self.ite(k, a, b, w) }
                        X::Ucmp | X::Scmp => {
                            let rw = ci.rw[l];
                            let pr = if x == X::Ucmp { Pred::Ult } else { Pred::Slt };
                            let lt = self.cmp(pr, w, a, b);
                            let gt = self.cmp(pr, w, b, a);
                            let t = self.ite(gt, c(1), c(0), rw);
                            self.ite(lt, c(m64(rw)), t, rw)
                        }
                        X::USubSat => { let k = self.cmp(Pred::Ult, w, a, b); let d = self.bin(Bin::Sub, w, a, b)?; self.ite(k, c(0), d, w) }
                        X::UAddSat => { let d = self.bin(Bin::Add, w, a, b)?; let k = self.cmp(Pred::Ult, w, d, a); self.ite(k, c(m64(w)), d, w) }
                        X::Abs => { let k = self.cmp(Pred::Slt, w, a, c(0)); let n = self.bin(Bin::Sub, w, c(0), a)?; self.ite(k, n, a, w) }
                        X::Fshl | X::Fshr => {
                            let sh = g(self, 2);
                            let s = self.conc(sh, w)? % w as u64;
                            if a.e == 0 && b.e == 0 && w <= 64 {
                                let t = ((a.v as u128) << w) | b.v as u128;
                                c(if x == X::Fshl { ((t << s) >> w) as u64 } else { (t >> s) as u64 } & m64(w))
                            } else {
                                let (p, q) = (self.ex(a, w), self.ex(b, w));
                                if w <= 64 {
                                    let t = self.p.concat(p, q);
                                    let lo = if x == X::Fshl { w - s as u16 } else { s as u16 };
                                    let r = self.p.extract(t, lo, w);
                                    self.val(r)
                                } else { return Err(Stop::Incomplete("wide funnel shift".into())); }
                            }
                        }
                        _ => {
                            if a.e == 0 && w <= 64 {
                                let k = a.v;
                                c(match x {
                                    X::Cttz => if k == 0 { w as u64 } else { k.trailing_zeros() as u64 },
                                    X::Ctlz => k.leading_zeros() as u64 - (64 - w as u64),
                                    X::Ctpop => k.count_ones() as u64,
                                    X::Bswap => k.swap_bytes() >> (64 - w),
                                    X::BitRev => k.reverse_bits() >> (64 - w),
                                    _ => return Err(Stop::Incomplete(format!("intrinsic {:?}", x))),
                                })
                            } else {
                                let e = self.ex(a, w);
                                let p = &mut self.p;
                                let r = match x {
                                    X::Cttz | X::Ctlz => {
                                        let mut r = p.cst(w as u128, w);
                                        for i in 0..w { let bit = if x == X::Cttz { w - 1 - i } else { i }; let b = p.extract(e, bit, 1); let k = p.cst(if x == X::Cttz { bit } else { w - 1 - bit } as u128, w); r = p.ite(b, k, r); }
                                        r
                                    }
                                    X::Ctpop => { let mut r = p.cst(0, w); for i in 0..w { let b = p.extract(e, i, 1); let z = p.zext(b, w); r = p.add(r, z); } r }
                                    X::Bswap => { let v: Vec<E> = (0..w / 8).map(|i| p.extract(e, i * 8, 8)).collect(); p.concat_many(v) }
                                    X::BitRev => { let v: Vec<E> = (0..w).map(|i| p.extract(e, i, 1)).collect(); p.concat_many(v) }
                                    _ => return Err(Stop::Incomplete(format!("intrinsic {:?}", x))),
                                };
                                self.val(r)
                            }
                        }
                    };
                    r.push(v);
                }
                self.finish_call(ci, &r);
                return Ok(());
            }
            X::UAddO | X::USubO | X::UMulO | X::SAddO | X::SSubO | X::SMulO => {
                let n = ci.args[0].0.len();
                let w = self.argw(ci, 0);
                let mut vals = vec![];
                let mut ovf = vec![];
                for l in 0..n {
                    let (oa, ob) = (ci.args[0].0[l], ci.args[1].0[l]);
                    let (a, b) = (self.get(oa), self.get(ob));
                    let op = match x { X::UAddO | X::SAddO => Bin::Add, X::USubO | X::SSubO => Bin::Sub, _ => Bin::Mul };
                    let v = self.bin(op, w, a, b)?;
                    let o = if a.e == 0 && b.e == 0 && w <= 64 {
                        let (ua, ub) = (a.v as u128, b.v as u128);
                        let (sa, sb) = (sx(a.v, w) as i128, sx(b.v, w) as i128);
                        let sr = |r: i128| { let h = 1i128 << (w - 1); r < -h || r >= h };
                        c(match x {
                            X::UAddO => ua + ub > mask(w), X::USubO => ua < ub, X::UMulO => ua * ub > mask(w),
                            X::SAddO => sr(sa + sb), X::SSubO => sr(sa - sb), _ => sr(sa.wrapping_mul(sb)),
                        } as u64)
                    } else {
                        match x {
                            X::UAddO => self.cmp(Pred::Ult, w, v, a),
                            X::USubO => self.cmp(Pred::Ult, w, a, b),
                            _ => {
                                if w > 63 && x != X::UMulO || w > 64 { return Err(Stop::Incomplete("wide overflow arithmetic".into())); }
                                let (p, q) = (self.ex(a, w), self.ex(b, w));
                                let ww = if x == X::UMulO { 2 * w } else if x == X::SMulO { 2 * w } else { w + 1 };
                                let pl = &mut self.p;
                                let (p2, q2) = if x == X::UMulO { (pl.zext(p, ww), pl.zext(q, ww)) } else { (pl.sext(p, ww), pl.sext(q, ww)) };
                                let r = match x { X::SAddO => pl.add(p2, q2), X::SSubO => pl.sub(p2, q2), _ => pl.mul(p2, q2) };
                                let lo = pl.trunc(r, w);
                                let back = if x == X::UMulO { pl.zext(lo, ww) } else { pl.sext(lo, ww) };
                                let eq = pl.eq(back, r);
                                let ne = pl.not(eq);
                                self.val(ne)
                            }
                        }
                    };
                    vals.push(v);
                    ovf.push(o);
                }
                vals.extend(ovf);
                self.finish_call(ci, &vals);
                return Ok(());
            }
            _ => {}
        }
        let mut ret: Vec<V> = vec![Z; lanes];
        macro_rules! r0 { ($v:expr) => { if lanes > 0 { ret[0] = $v; } } }
        match x {
            X::Nop => {}
            X::Ret0 => r0!(c(0)),
            X::Ret1 => r0!(c(1)),
            X::RetM1 => r0!(c(m64(ci.rw[0]))),
            X::Id => { let v = self.arg(ci, 0); r0!(v) }
            X::IsConst => r0!(c(0)),
            X::Trap => return Err(Stop::Violation("abort".into(), "trap executed".into(), self.loc())),
            X::Memcpy => {
                let (d, s, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?, self.argc(ci, 2)?);
                self.st.mem.copy(d, s, n).map_err(|f| self.fault(f))?;
                if lanes > 0 { ret[0] = c(d); }
            }
            X::Memset => {
                let d = self.argc(ci, 0)?;
                let n = self.argc(ci, 2)?;
                let v = self.arg(ci, 1);
                self.st.mem.fill(d, v.v as u8, v.e, n).map_err(|f| self.fault(f))?;
            }
            X::RedOr | X::RedAnd | X::RedAdd | X::RedMax | X::RedMin => {
                let ops = ci.args[0].0.clone();
                let w = self.argw(ci, 0);
                let mut a = self.get(ops[0]);
                for o in ops[1..].iter() {
                    let b = self.get(*o);
                    a = match x {
                        X::RedOr => self.bin(Bin::Or, w, a, b)?, X::RedAnd => self.bin(Bin::And, w, a, b)?, X::RedAdd => self.bin(Bin::Add, w, a, b)?,
                        X::RedMax => { let k = self.cmp(Pred::Ult, w, a, b); self.ite(k, b, a, w) }
                        _ => { let k = self.cmp(Pred::Ult, w, a, b); self.ite(k, a, b, w) }
                    };
                }
                r0!(a)
            }
            X::Malloc => { let n = self.argc(ci, 0)?; let a = self.st.mem.malloc(n, 16).map_err(|f| self.fault(f))?; r0!(c(a)) }
            X::Calloc => {
                let (k, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?);
                let a = self.st.mem.malloc(k * n, 16).map_err(|f| self.fault(f))?;
                self.st.mem.fill(a, 0, 0, k * n).map_err(|f| self.fault(f))?;
                r0!(c(a))
            }
            X::Memalign => {
                let (pp, al, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?, self.argc(ci, 2)?);
                let a = self.st.mem.malloc(n, al).map_err(|f| self.fault(f))?;
                self.store(pp, 64, c(a))?;
                r0!(c(0))
            }
            X::Realloc => {
                let (a, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?);
                let old = if a == 0 { 0 } else { self.st.mem.size_of(a).map_err(|f| self.fault(f))? };
                let b = self.st.mem.malloc(n, 16).map_err(|f| self.fault(f))?;
                if a != 0 {
                    self.st.mem.copy(b, a, old.min(n)).map_err(|f| self.fault(f))?;
                    self.st.mem.free(a).map_err(|f| self.fault(f))?;
                }
                r0!(c(b))
            }
            X::Free => { let a = self.argc(ci, 0)?; self.st.mem.free(a).map_err(|f| self.fault(f))?; }
            X::Memcmp => {
                let (a, b, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?, self.argc(ci, 2)?);
                let x = self.st.mem.read_bytes(a, n).map_err(|f| self.fault(f))?;
                let y = self.st.mem.read_bytes(b, n).map_err(|f| self.fault(f))?;
                let mut r = c(0);
                let mut start = 0;
                // concrete prefix
                let mut done = None;
                while start < x.len() {
                    let (p, q) = (x[start], y[start]);
                    if p.1 == 0 && q.1 == 0 { if p.0 != q.0 { done = Some(if p.0 < q.0 { 0xffff_ffffu64 } else { 1 }); break; } } else if p.1 != q.1 { break; }
                    start += 1;
                }
                if let Some(k) = done { r = c(k); }
                else {
                    // find the first position with concretely different bytes: later ones do not matter
                    let mut end = x.len();
                    for i in start..x.len() { if x[i].1 == 0 && y[i].1 == 0 && x[i].0 != y[i].0 { end = i + 1; break; } }
                    for i in (start..end).rev() {
                        let (p, q) = (V { v: x[i].0 as u64, e: x[i].1 }, V { v: y[i].0 as u64, e: y[i].1 });
                        let eq = self.cmp(Pred::Eq, 8, p, q);
                        let lt = self.cmp(Pred::Ult, 8, p, q);
                        let d = self.ite(lt, c(0xffff_ffff), c(1), 32);
                        r = self.ite(eq, r, d, 32);
                    }
                }
                r0!(r)
            }
            X::Strlen => {
                let a = self.argc(ci, 0)?;
                let mut n = 0;
                loop { let v = self.load(a + n, 8)?; let k = self.conc(v, 8)?; if k == 0 { break; } n += 1; }
                r0!(c(n))
            }
            X::Write => { let v = self.arg(ci, 2); r0!(v) }
            X::Writev => {
                let (iov, n) = (self.argc(ci, 1)?, self.argc(ci, 2)?);
                let mut t = 0;
                for i in 0..n { t += self.load(iov + 16 * i + 8, 64)?.v; }
                r0!(c(t))
            }
            X::Getrandom => {
                let (a, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?);
                self.st.mem.fill(a, 0x5a, 0, n).map_err(|f| self.fault(f))?;
                r0!(c(n))
            }
            X::Syscall => {
                // only getrandom (318) is answered with data; gettid and futex wakes return 0
                let nr = self.argc(ci, 0)?;
                if nr == 318 { let (a, n) = (self.argc(ci, 1)?, self.argc(ci, 2)?); self.st.mem.fill(a, 0x5a, 0, n).map_err(|f| self.fault(f))?; r0!(c(n)) } else { r0!(c(0)) }
            }
            X::Errno => r0!(c(self.errno)),
            X::Abort => return Err(Stop::Violation("abort".into(), "process abort".into(), self.loc())),
            X::PanicAbort => { let l = self.st.last_panic.clone().unwrap_or_default(); return Err(Stop::Violation("abort".into(), format!("abort: {}", self.m.funcs[id as usize].name), l)); }
            X::PanicFmt => {
                let k = ci.args.len();
                let la = self.argc(ci, k - 1)?;
                let l = self.location(la);
                let t = self.argc(ci, 0)?;
                let tm = self.template(t);
                let key = format!("{} [{}]", l, tm);
                if self.o.trace { eprintln!("PANIC {}", key); }
                *self.panics.entry(key.clone()).or_insert(0) += 1;
                self.st.last_panic = Some(key);
                let Some(sp) = self.sym_panic else { return Err(Stop::Incomplete("harness has no sym_panic".into())) };
                let args: Vec<V> = (0..k).map(|i| self.arg(ci, i)).collect();
                return self.push_frame(sp, &args);
            }
            X::PanicHook => {
                self.st.last_panic = Some("panic with payload".into());
                let Some(sp) = self.m.fidx.get("sym_panic_plain").copied() else { return Err(Stop::Incomplete("harness has no sym_panic_plain".into())) };
                return self.push_frame(sp, &[]);
            }
            X::Raise => { let e = self.argc(ci, 0)?; return self.unwind(e); }
            X::SymInt(w) => {
                let i = self.st.inputs.len();
                let e = self.p.var(i, w);
                let vid = self.p.var_id(e);
                if self.st.model.vals.len() <= vid { let mut v = self.st.model.vals.clone(); v.resize(vid + 1, 0); self.st.model = self.p.new_model(v); }
                self.st.inputs.push(e);
                let rw = ci.rw[0];
                let x = if rw > w { self.p.zext(e, rw) } else { e };
                r0!(self.val(x))
            }
            X::SymParam => { let i = self.argc(ci, 0)? as usize; r0!(c(self.o.params.get(i).copied().unwrap_or(0))) }
            X::SymAssume => {
                let v = self.arg(ci, 0);
                let w = self.argw(ci, 0);
                let k = self.cmp(Pred::Ne, w, v, c(0));
                if k.e == 0 { if k.v == 0 { return Err(Stop::Killed); } } else { self.assume(k.e)?; }
            }
            X::SymCheck => {
                let v = self.arg(ci, 0);
                let w = self.argw(ci, 0);
                self.checks += 1;
                let k = self.cmp(Pred::Ne, w, v, c(0));
                if !self.truth(k)? {
                    let (a, n) = (self.argc(ci, 1)?, self.argc(ci, 2)?);
                    let s = self.read_str(a, n);
                    return Err(Stop::Violation("check".into(), s, String::new()));
                }
            }
            X::SymFail => { let (a, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?); let s = self.read_str(a, n); let l = self.st.last_panic.clone().unwrap_or_default(); return Err(Stop::Violation("check".into(), s, l)); }
            X::SymReach => { let k = self.argc(ci, 0)?; self.st.reach.push(k); }
            X::SymOut => { let v = self.arg(ci, 0); let w = self.argw(ci, 0); self.st.outs.push(v); self.st.outw.push(w); }
            X::SymOut8 => {
                let (a, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?);
                let b = self.st.mem.read_bytes(a, n).map_err(|f| self.fault(f))?;
                for (v, e) in b { self.st.outs.push(V { v: v as u64, e }); self.st.outw.push(8); }
            }
            X::SymConc => { let v = self.argc(ci, 0)?; r0!(c(v)) }
            X::SymIsSym => { let v = self.arg(ci, 0); r0!(c((v.e != 0) as u64)) }
            X::SymTrace => {
                let (a, n) = (self.argc(ci, 0)?, self.argc(ci, 1)?);
                if std::env::var("SYMX_LOG").is_ok() { let v = self.arg(ci, 2); let s = self.read_str(a, n); let sh = if v.e != 0 { self.p.show(v.e, 6) } else { format!("{}", v.v) }; eprintln!("[trace] {} {}", s, sh); }
            }
            _ => return Err(Stop::Incomplete(format!("call of unmodelled function {}", self.m.funcs[id as usize].name))),
        }
        self.finish_call(ci, &ret);
        Ok(())
    }

    pub fn run_path(&mut self) -> Stop {
        loop {
            match self.run_inner() { Ok(()) => return Stop::Done, Err(e) => return e }
        }
    }
    fn run_inner(&mut self) -> Res<()> {
        'frame: loop {
            let fr = self.st.frames.last().unwrap();
            let f: *const Func = Rc::as_ptr(&fr.f);
            let insts: &[I] = unsafe { &(*f).insts };
            loop {
                self.st.steps += 1;
                if self.st.steps & 0xfff == 0 {
                    if self.st.steps > self.o.max_steps { return Err(Stop::Violation("steps".into(), "step limit exceeded (possible non-termination)".into(), self.loc())); }
                    if crate::timed_out() { return Err(Stop::Incomplete("time limit".into())); }
                }
                let ins = unsafe { insts.get_unchecked(self.st.ip as usize) };
                match ins {
                    I::Bin { op, w, d, a, b } => { let (x, y) = (self.get(*a), self.get(*b)); let r = self.bin(*op, *w, x, y)?; self.set(*d, r); }
                    I::Icmp { p, w, d, a, b } => { let (x, y) = (self.get(*a), self.get(*b)); let r = self.cmp(*p, *w, x, y); self.set(*d, r); }
                    I::Gep { d, base, off } => {
                        let b = self.get(*base);
                        let r = if b.e == 0 { c(b.v.wrapping_add(*off)) } else { self.bin(Bin::Add, 64, b, c(*off))? };
                        self.set(*d, r);
                    }
                    I::GepT { d, base, off, terms } => {
                        let b = self.get(*base);
                        let mut r = if b.e == 0 { c(b.v.wrapping_add(*off)) } else { self.bin(Bin::Add, 64, b, c(*off))? };
                        for (o, iw, sc) in terms.iter() {
                            let mut v = self.get(*o);
                            if v.e == 0 && r.e == 0 { r.v = r.v.wrapping_add((sx(v.v, *iw) as u64).wrapping_mul(*sc)); }
                            else {
                                if *iw < 64 { v = self.cast(Cast::Sext, *iw, 64, v); }
                                let t = self.bin(Bin::Mul, 64, v, c(*sc))?;
                                r = self.bin(Bin::Add, 64, r, t)?;
                            }
                        }
                        self.set(*d, r);
                    }
                    I::Load { d, p, w, ptr } => {
                        let a = self.get(*p);
                        let r = if a.e == 0 { self.load(a.v, *w)? } else { self.load_sym(a, *w, *ptr)? };
                        self.set(*d, r);
                    }
                    I::Store { p, v, w } => { let a = self.ptr(*p)?; let x = self.get(*v); self.store(a, *w, x)?; }
                    I::LoadN { d, p, leaves } => {
                        let a = self.ptr(*p)?;
                        for (i, (o, w)) in leaves.iter().enumerate() { let r = self.load(a + *o as u64, *w)?; self.set(*d + i as u32, r); }
                    }
                    I::StoreN { p, v, leaves } => {
                        let a = self.ptr(*p)?;
                        for (i, (o, w)) in leaves.iter().enumerate() { let x = self.get(v[i]); self.store(a + *o as u64, *w, x)?; }
                    }
                    I::Copy { d, a } => { let v = self.get(*a); self.set(*d, v); }
                    I::CopyN { d, a } => {
                        if a.len() <= 4 {
                            let mut t = [Z; 4];
                            for (i, o) in a.iter().enumerate() { t[i] = self.get(*o); }
                            for i in 0..a.len() { self.set(*d + i as u32, t[i]); }
                        } else {
                            let t: Vec<V> = a.iter().map(|o| self.get(*o)).collect();
                            for (i, v) in t.into_iter().enumerate() { self.set(*d + i as u32, v); }
                        }
                    }
                    I::Cast { c: k, wf, wt, d, a } => { let v = self.get(*a); let r = self.cast(*k, *wf, *wt, v); self.set(*d, r); }
                    I::Select { d, c: cd, a, b, w, ptr } => {
                        let k = self.get(*cd);
                        let (x, y) = (self.get(*a), self.get(*b));
                        let r = if k.e == 0 { if k.v & 1 != 0 { x } else { y } }
                            else if *ptr && !(x.e == y.e && x.v == y.v) { if self.truth(k)? { x } else { y } }
                            else { match self.lookup(k.e) { Some(true) => x, Some(false) => y, None => match self.minmax(k.e, x, y) { Some(r) => r, None => self.ite(k, x, y, *w) } } };
                        self.set(*d, r);
                    }
                    I::Br(e) => { self.edge(e); continue; }
                    I::CBr(o, e) => {
                        let k = self.get(*o);
                        let t = if k.e == 0 { k.v & 1 != 0 } else { self.truth(k)? };
                        self.edge(if t { &e.0 } else { &e.1 });
                        continue;
                    }
                    I::Switch(s) => {
                        let v = self.get(s.v);
                        let g = if v.e == 0 { *s.map.get(&v.v).unwrap_or(&0) as usize } else { self.switch(s, v)? };
                        self.edge(&s.edges[g]);
                        continue;
                    }
                    I::Call(ci) => { self.do_call(ci)?; continue 'frame; }
                    I::Ret(vs) => {
                        let n = vs.len();
                        let mut t = [Z; 8];
                        let mut big = vec![];
                        if n <= 8 { for (i, o) in vs.iter().enumerate() { t[i] = self.get(*o); } } else { big = vs.iter().map(|o| self.get(*o)).collect(); }
                        let vals: &[V] = if n <= 8 { &t[..n] } else { &big };
                        if !self.pop_frame() { return Ok(()); }
                        let f2 = Rc::as_ptr(&self.st.frames.last().unwrap().f);
                        match unsafe { &(&(*f2).insts)[self.st.ip as usize] } {
                            I::Call(ci) => self.finish_call(ci, vals),
                            _ => return Err(Stop::Incomplete("return to a non-call".into())),
                        }
                        continue 'frame;
                    }
                    I::Alloca { d, size, align } => {
                        let a = (self.st.sp - *size) & !((*align).max(16) - 1);
                        if a < STACK + 4096 { return Err(Stop::Violation("stack".into(), "stack exhausted (unbounded recursion)".into(), self.loc())); }
                        self.st.sp = a;
                        self.st.mem.ensure_stack(a, *size);
                        self.set(*d, c(a));
                    }
                    I::BinV { op, w, d, a, b } => {
                        let mut t = Vec::with_capacity(a.len());
                        for i in 0..a.len() { let (x, y) = (self.get(a[i]), self.get(b[i])); t.push(self.bin(*op, *w, x, y)?); }
                        for (i, v) in t.into_iter().enumerate() { self.set(*d + i as u32, v); }
                    }
                    I::IcmpV { p, w, d, a, b } => {
                        let mut t = Vec::with_capacity(a.len());
                        for i in 0..a.len() { let (x, y) = (self.get(a[i]), self.get(b[i])); t.push(self.cmp(*p, *w, x, y)); }
                        for (i, v) in t.into_iter().enumerate() { self.set(*d + i as u32, v); }
                    }
                    I::CastV { c: k, wf, wt, d, a } => {
                        let t: Vec<V> = a.iter().map(|o| { let v = self.get(*o); self.cast(*k, *wf, *wt, v) }).collect();
                        for (i, v) in t.into_iter().enumerate() { self.set(*d + i as u32, v); }
                    }
                    I::SelectN { d, c: cd, a, b, w } => {
                        let mut t = Vec::with_capacity(a.len());
                        for i in 0..a.len() {
                            let (k, x, y) = (self.get(cd[i]), self.get(a[i]), self.get(b[i]));
                            if k.e != 0 && w[i] == 64 && x.e == 0 && y.e == 0 && x.v != y.v { let tr = self.truth(k)?; t.push(if tr { x } else { y }); }
                            else { t.push(self.ite(k, x, y, w[i])); }
                        }
                        for (i, v) in t.into_iter().enumerate() { self.set(*d + i as u32, v); }
                    }
                    I::Repack { d, a, wf, wt, nt } => {
                        let tot = *wf as u32 * a.len() as u32;
                        let vs: Vec<V> = a.iter().map(|o| self.get(*o)).collect();
                        if tot <= 128 && vs.iter().all(|v| v.e == 0) && *wf <= 64 && *wt <= 64 {
                            let mut x: u128 = 0;
                            for (i, v) in vs.iter().enumerate() { x |= (v.v as u128 & mask(*wf)) << (i as u32 * *wf as u32); }
                            for i in 0..*nt { self.set(*d + i, c((x >> (i * *wt as u32)) as u64 & m64(*wt))); }
                        } else if tot > 128 {
                            return Err(Stop::Incomplete("bitcast of a vector wider than 128 bits".into()));
                        } else {
                            let es: Vec<E> = vs.iter().rev().map(|v| self.ex(*v, *wf)).collect();
                            let e = self.p.concat_many(es);
                            for i in 0..*nt { let x = self.p.extract(e, (i * *wt as u32) as u16, *wt); let v = self.val(x); self.set(*d + i, v); }
                        }
                    }
                    I::Rmw { op, p, v, w, d } => {
                        let a = self.ptr(*p)?;
                        let x = self.get(*v);
                        let old = self.load(a, *w)?;
                        let n = match op {
                            0 => self.bin(Bin::Add, *w, old, x)?, 1 => self.bin(Bin::Sub, *w, old, x)?, 2 => x,
                            3 => self.bin(Bin::And, *w, old, x)?, 4 => self.bin(Bin::Or, *w, old, x)?, 5 => self.bin(Bin::Xor, *w, old, x)?,
                            6 => { let k = self.cmp(Pred::Ult, *w, old, x); self.ite(k, x, old, *w) }
                            _ => { let k = self.cmp(Pred::Ult, *w, old, x); self.ite(k, old, x, *w) }
                        };
                        self.store(a, *w, n)?;
                        self.set(*d, old);
                    }
                    I::CmpXchg { p, cmp, new, w, d } => {
                        let a = self.ptr(*p)?;
                        let (e, n) = (self.get(*cmp), self.get(*new));
                        let old = self.load(a, *w)?;
                        let k = self.cmp(Pred::Eq, *w, old, e);
                        let t = self.truth(k)?;
                        if t { self.store(a, *w, n)?; }
                        self.set(*d, old);
                        self.set(*d + 1, c(t as u64));
                    }
                    I::Landing { d, sel } => { let x = c(self.st.exc); self.set(*d, x); self.set(*d + 1, c(*sel as u32 as u64)); }
                    I::Resume(o) => { let e = self.ptr(*o)?; self.unwind(e)?; continue 'frame; }
                    I::Nop => {}
                    I::Unreachable => {
                        // core::hint::unreachable_unchecked and friends, or after a diverging call
                        return Err(Stop::Violation("ub".into(), "unreachable code reached".into(), self.loc()));
                    }
                    I::Unsup(s) => { let s = s.clone(); return Err(Stop::Incomplete(format!("unsupported instruction: {} in {}", s, self.loc()))); }
                }
                self.st.ip += 1;
            }
        }
    }
    fn switch(&mut self, s: &Sw, v: V) -> Res<usize> {
        let e = self.ex(v, s.w);
        // the group the model takes first, so that one query decides most switches
        let m = self.st.model.clone();
        let mv = self.p.eval(e, &m) as u64;
        let first = *s.map.get(&mv).unwrap_or(&0) as usize;
        let mut order: Vec<usize> = vec![];
        if first != 0 { order.push(first); }
        for g in 1..s.groups.len() { if g != first { order.push(g); } }
        if first == 0 {
            // the default: none of the cases
            let mut cd = self.p.fls();
            for g in 1..s.groups.len() { let x = self.among(e, s.w, &s.groups[g]); cd = self.p.or(cd, x); }
            if !self.decide(cd)? { return Ok(0); }
        }
        for g in order {
            let cd = self.among(e, s.w, &s.groups[g]);
            if self.decide(cd)? { return Ok(g); }
        }
        Ok(0)
    }
    fn among(&mut self, e: E, w: u16, ks: &[u64]) -> E {
        // consecutive runs become range tests
        let mut v = ks.to_vec();
        v.sort_unstable();
        let mut r = self.p.fls();
        let mut i = 0;
        while i < v.len() {
            let mut j = i;
            while j + 1 < v.len() && v[j + 1] == v[j] + 1 { j += 1; }
            let t = if i == j { let k = self.p.cst(v[i] as u128, w); self.p.eq(e, k) } else {
                let lo = self.p.cst(v[i] as u128, w);
                let hi = self.p.cst(v[j] as u128, w);
                let a = self.p.ult(e, lo);
                let b = self.p.ult(hi, e);
                let o = self.p.or(a, b);
                self.p.not(o)
            };
            r = self.p.or(r, t);
            i = j + 1;
        }
        r
    }

    fn input_vals(&mut self) -> Vec<(u16, u64)> {
        let m = self.st.model.clone();
        let ins = self.st.inputs.clone();
        ins.into_iter().map(|e| (self.p.w(e), self.p.eval(e, &m) as u64)).collect()
    }
    pub fn finish(&mut self, s: Stop) {
        self.steps += self.st.steps;
        self.maxpathsteps = self.maxpathsteps.max(self.st.steps);
        match s {
            Stop::Done => {
                self.paths += 1;
                let rs = std::mem::take(&mut self.st.reach);
                for r in rs { *self.reach.entry(r).or_insert(0) += 1; }
                // reservoir of validated paths
                self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                let slot = if self.samples.len() < self.o.samples { Some(self.samples.len()) } else { let k = (self.rng % self.paths) as usize; if k < self.o.samples { Some(k) } else { None } };
                if let Some(k) = slot {
                    let m = self.st.model.clone();
                    let mut h: u64 = 0xcbf29ce484222325;
                    for i in 0..self.st.outs.len() {
                        let v = self.st.outs[i];
                        let x = if v.e == 0 { v.v } else { self.p.eval(v.e, &m) as u64 };
                        h = (h ^ x).wrapping_mul(0x100000001b3);
                        h ^= h >> 29;
                    }
                    let sm = Sample { inputs: self.input_vals(), outs: h, nouts: self.st.outs.len(), steps: self.st.steps };
                    if k == self.samples.len() { self.samples.push(sm) } else { self.samples[k] = sm }
                }
            }
            Stop::Killed => self.killed += 1,
            Stop::Violation(kind, msg, loc) => {
                self.paths += 1;
                self.nviol += 1;
                let inputs = self.input_vals();
                let mut n = 0;
                for v in self.violations.iter_mut() { if v.kind == kind && v.msg == msg && v.loc == loc { n += 1; if n == 1 { v.count += 1; } } }
                if n < 3 { self.violations.push(Viol { kind, msg, loc, inputs, count: 1 }); }
            }
            Stop::Incomplete(r) => { *self.incomplete.entry(r).or_insert(0) += 1; }
        }
    }
}

fn add_w(a: u128, b: u128, m: u128) -> (bool, u128) {
    let (s, o) = a.overflowing_add(b);
    (o || s > m, s & m)
}
