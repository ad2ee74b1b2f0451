//! Byte-addressed memory with copy-on-write pages and a symbolic overlay.
use crate::expr::*;
use std::rc::Rc;

pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;
pub const CB: u64 = 20;
const PPC: usize = 1 << (CB - PB);
pub const HEAP: u64 = 0x1000_0000;
pub const HEAP_END: u64 = 0x6f00_0000;
pub const STACK: u64 = 0x8000_0000;
pub const STACK_SIZE: u64 = 0x80_0000;
pub const MAGIC_LIVE: u64 = 0x5359_4d58_4c49_5645;
pub const MAGIC_DEAD: u64 = 0x5359_4d58_4445_4144;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub valid: u64, pub sym: Option<Box<[E; PS]>>, pub live: u32 }
#[derive(Clone)]
pub struct Chunk { p: Vec<Option<Rc<Page>>> }

pub struct Mem {
    root: Vec<Option<Rc<Chunk>>>,
    rt: [(u64, *const Page); 64],
    wt: [(u64, *mut Page); 64],
    pub brk: u64,
    pub heap_live: u64,
    pub peak: u64,
}
#[derive(Debug)]
pub struct Fault(pub String);

impl Clone for Mem {
    fn clone(&self) -> Mem { Mem { root: self.root.clone(), rt: [(u64::MAX, std::ptr::null()); 64], wt: [(u64::MAX, std::ptr::null_mut()); 64], brk: self.brk, heap_live: self.heap_live, peak: self.peak } }
}

impl Mem {
    pub fn new() -> Mem { Mem { root: vec![None; 4096], rt: [(u64::MAX, std::ptr::null()); 64], wt: [(u64::MAX, std::ptr::null_mut()); 64], brk: HEAP, heap_live: 0, peak: 0 } }
    /// must be called on the original after it has been cloned
    pub fn flush(&mut self) { self.wt = [(u64::MAX, std::ptr::null_mut()); 64]; }
    #[inline]
    fn rpage(&mut self, pn: u64) -> *const Page {
        let e = &self.rt[(pn & 63) as usize];
        if e.0 == pn { return e.1; }
        self.rpage_slow(pn)
    }
    fn rpage_slow(&mut self, pn: u64) -> *const Page {
        let c = (pn >> (CB - PB)) as usize;
        if c >= self.root.len() { return std::ptr::null(); }
        let r = match &self.root[c] { Some(ch) => match &ch.p[pn as usize & (PPC - 1)] { Some(p) => &**p as *const Page, None => std::ptr::null() }, None => std::ptr::null() };
        if !r.is_null() { self.rt[(pn & 63) as usize] = (pn, r); }
        r
    }
    #[inline]
    fn wpage(&mut self, pn: u64) -> *mut Page {
        let e = &self.wt[(pn & 63) as usize];
        if e.0 == pn { return e.1; }
        self.wpage_slow(pn)
    }
    fn wpage_slow(&mut self, pn: u64) -> *mut Page {
        let c = (pn >> (CB - PB)) as usize;
        if c >= self.root.len() { return std::ptr::null_mut(); }
        let r = match &mut self.root[c] {
            Some(ch) => match &mut Rc::make_mut(ch).p[pn as usize & (PPC - 1)] { Some(p) => Rc::make_mut(p) as *mut Page, None => return std::ptr::null_mut() },
            None => return std::ptr::null_mut(),
        };
        // copying a chunk or page invalidates cached pointers to its old version
        for x in self.rt.iter_mut() { if x.0 == pn { x.0 = u64::MAX; } }
        self.rt[(pn & 63) as usize] = (pn, r);
        self.wt[(pn & 63) as usize] = (pn, r);
        r
    }
    fn ensure(&mut self, pn: u64, valid: u64) -> *mut Page {
        let c = (pn >> (CB - PB)) as usize;
        let ch = self.root[c].get_or_insert_with(|| Rc::new(Chunk { p: vec![None; PPC] }));
        let slot = &mut Rc::make_mut(ch).p[pn as usize & (PPC - 1)];
        if slot.is_none() { *slot = Some(Rc::new(Page { d: [0; PS], valid, sym: None, live: 0 })); }
        self.wpage(pn)
    }
    fn mark(&mut self, a: u64, n: u64, on: bool) {
        // 16-byte granules
        let mut g = a >> 4;
        let end = (a + n + 15) >> 4;
        while g < end {
            let p = self.ensure(g >> (PB - 4), 0);
            let bit = 1u64 << (g & 63);
            unsafe { if on { (*p).valid |= bit } else { (*p).valid &= !bit } }
            g += 1;
        }
    }
    pub fn map_static(&mut self, a: u64, data: &[u8]) {
        self.mark(a, data.len().max(1) as u64, true);
        for (i, b) in data.iter().enumerate() {
            let p = self.wpage((a + i as u64) >> PB);
            unsafe { (*p).d[(a as usize + i) & (PS - 1)] = *b; }
        }
    }
    pub fn ensure_stack(&mut self, a: u64, n: u64) {
        let mut p = a >> PB;
        while p <= (a + n) >> PB {
            if self.rpage(p).is_null() { self.ensure(p, u64::MAX); }
            p += 1;
        }
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> Result<u64, Fault> {
        let al = align.max(16);
        let a = (self.brk + 16 + al - 1) / al * al;
        let end = (a + n + 15) & !15;
        if end + 64 > HEAP_END { return Err(Fault("engine heap exhausted".into())); }
        self.brk = end;
        // header
        let h = self.ensure((a - 16) >> PB, 0);
        let o = (a - 16) as usize & (PS - 1);
        unsafe {
            (&mut (*h).d)[o..o + 8].copy_from_slice(&n.to_le_bytes());
            (&mut (*h).d)[o + 8..o + 16].copy_from_slice(&MAGIC_LIVE.to_le_bytes());
            if let Some(s) = &mut (*h).sym { for x in &mut s[o..o + 16] { *x = 0; } }
        }
        if n > 0 { self.mark(a, n, true); }
        let mut p = (a - 16) >> PB;
        while p <= (end - 1) >> PB { let q = self.ensure(p, 0); unsafe { (*q).live += 1; } p += 1; }
        self.heap_live += n;
        self.peak = self.peak.max(self.heap_live);
        Ok(a)
    }
    pub fn size_of(&mut self, a: u64) -> Result<u64, Fault> {
        if a < HEAP || a >= HEAP_END || a & 15 != 0 { return Err(Fault(format!("free/realloc of non-heap pointer {:#x}", a))); }
        let h = self.rpage((a - 16) >> PB);
        if h.is_null() { return Err(Fault("use of freed heap block".into())); }
        let o = (a - 16) as usize & (PS - 1);
        unsafe {
            let n = u64::from_le_bytes((&(*h).d)[o..o + 8].try_into().unwrap());
            let m = u64::from_le_bytes((&(*h).d)[o + 8..o + 16].try_into().unwrap());
            if m == MAGIC_DEAD { return Err(Fault("double free".into())); }
            if m != MAGIC_LIVE { return Err(Fault(format!("free/realloc of a pointer that is not a heap block {:#x}", a))); }
            Ok(n)
        }
    }
    pub fn free(&mut self, a: u64) -> Result<(), Fault> {
        if a == 0 { return Ok(()); }
        let n = self.size_of(a)?;
        let h = self.wpage((a - 16) >> PB);
        let o = (a - 16) as usize & (PS - 1);
        unsafe { (&mut (*h).d)[o + 8..o + 16].copy_from_slice(&MAGIC_DEAD.to_le_bytes()); }
        if n > 0 { self.mark(a, n, false); }
        self.heap_live -= n;
        let end = (a + n + 15) & !15;
        let mut p = (a - 16) >> PB;
        while p <= (end - 1) >> PB {
            let q = self.wpage(p);
            unsafe {
                (*q).live -= 1;
                if (*q).live == 0 && p < (self.brk >> PB) {
                    // nothing lives here any more and the page is behind the allocation frontier
                    let c = (p >> (CB - PB)) as usize;
                    if let Some(ch) = &mut self.root[c] { Rc::make_mut(ch).p[p as usize & (PPC - 1)] = None; }
                    self.rt[(p & 63) as usize].0 = u64::MAX;
                    self.wt[(p & 63) as usize].0 = u64::MAX;
                }
            }
            p += 1;
        }
        Ok(())
    }
    #[cold]
    fn bad(&self, a: u64, n: u64, w: bool) -> Fault { Fault(format!("invalid {} of {} bytes at {:#x}", if w { "write" } else { "read" }, n, a)) }
    fn check(&mut self, a: u64, n: u64, w: bool) -> Result<(), Fault> {
        if n == 0 { return Ok(()); }
        if a.checked_add(n).is_none() { return Err(self.bad(a, n, w)); }
        let mut g = a >> 4;
        let end = (a + n - 1) >> 4;
        while g <= end {
            let p = self.rpage(g >> (PB - 4));
            if p.is_null() || unsafe { (*p).valid } >> (g & 63) & 1 == 0 { return Err(self.bad(a, n, w)); }
            g += 1;
        }
        Ok(())
    }
    /// concrete fast path: Ok(Some) if fully concrete and in one page
    #[inline]
    pub fn read_fast(&mut self, a: u64, n: usize) -> Option<u64> {
        let o = a as usize & (PS - 1);
        if o + 8 > PS { return None; }
        let p = self.rpage(a >> PB);
        if p.is_null() { return None; }
        let p = unsafe { &*p };
        if p.sym.is_some() { return None; }
        let g0 = (o >> 4) as u32;
        let g1 = ((o + n - 1) >> 4) as u32;
        if (p.valid >> g0) & (p.valid >> g1) & 1 == 0 { return None; }
        let v = u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap());
        Some(if n == 8 { v } else { v & ((1u64 << (n * 8)) - 1) })
    }
    #[inline]
    pub fn write_fast(&mut self, a: u64, n: usize, v: u64) -> bool {
        let o = a as usize & (PS - 1);
        if o + n > PS { return false; }
        let p = self.wpage(a >> PB);
        if p.is_null() { return false; }
        let p = unsafe { &mut *p };
        if p.sym.is_some() { return false; }
        let g0 = (o >> 4) as u32;
        let g1 = ((o + n - 1) >> 4) as u32;
        if (p.valid >> g0) & (p.valid >> g1) & 1 == 0 { return false; }
        p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        true
    }
    /// one byte: concrete value or expression
    #[inline]
    fn rb(&mut self, a: u64) -> (u8, E) {
        let p = unsafe { &*self.rpage(a >> PB) };
        let o = a as usize & (PS - 1);
        (p.d[o], match &p.sym { Some(s) => s[o], None => 0 })
    }
    fn wb(&mut self, a: u64, v: u8, e: E) {
        let p = unsafe { &mut *self.wpage(a >> PB) };
        let o = a as usize & (PS - 1);
        p.d[o] = v;
        if e != 0 { p.sym.get_or_insert_with(|| Box::new([0; PS]))[o] = e; } else if let Some(s) = &mut p.sym { s[o] = 0; }
    }
    pub fn read_bytes(&mut self, a: u64, n: u64) -> Result<Vec<(u8, E)>, Fault> {
        self.check(a, n, false)?;
        Ok((0..n).map(|i| self.rb(a + i)).collect())
    }
    pub fn write_bytes(&mut self, a: u64, b: &[(u8, E)]) -> Result<(), Fault> {
        self.check(a, b.len() as u64, true)?;
        for (i, &(v, e)) in b.iter().enumerate() { self.wb(a + i as u64, v, e); }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 { return Ok(()); }
        self.check(s, n, false)?;
        self.check(d, n, true)?;
        if s == d { return Ok(()); }
        // page-wise fast path for concrete, non-overlapping data
        let overlap = s < d + n && d < s + n;
        let mut i = 0;
        if overlap {
            let v: Vec<(u8, E)> = (0..n).map(|i| self.rb(s + i)).collect();
            for (i, (b, e)) in v.into_iter().enumerate() { self.wb(d + i as u64, b, e); }
            return Ok(());
        }
        while i < n {
            let (so, dof) = ((s + i) as usize & (PS - 1), (d + i) as usize & (PS - 1));
            let k = ((n - i) as usize).min(PS - so).min(PS - dof);
            let wp = self.wpage((d + i) >> PB);
            let rp = self.rpage((s + i) >> PB);
            unsafe {
                std::ptr::copy((*rp).d.as_ptr().add(so), (*wp).d.as_mut_ptr().add(dof), k);
                let rsym = (*rp).sym.as_ref().map(|s| s[so..so + k].to_vec());
                match rsym {
                    Some(v) if v.iter().any(|&x| x != 0) => { let t = (*wp).sym.get_or_insert_with(|| Box::new([0; PS])); t[dof..dof + k].copy_from_slice(&v); }
                    _ => if let Some(t) = &mut (*wp).sym { for x in &mut t[dof..dof + k] { *x = 0; } }
                }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, e: E, n: u64) -> Result<(), Fault> {
        self.check(d, n, true)?;
        for i in 0..n { self.wb(d + i, v, e); }
        Ok(())
    }
    pub fn read(&mut self, p: &mut Pool, a: u64, w: u16) -> Result<(u64, E), Fault> {
        let n = (w as usize + 7) / 8;
        self.check(a, n as u64, false)?;
        let mut any = false;
        let mut v: u128 = 0;
        let mut by = [(0u8, 0 as E); 16];
        for i in 0..n { let b = self.rb(a + i as u64); by[i] = b; if b.1 != 0 { any = true; } v |= (b.0 as u128) << (8 * i); }
        if !any {
            if w <= 64 { return Ok((v as u64 & mask(w) as u64, 0)); }
            return Ok((0, p.cst(v, w)));
        }
        let mut segs = vec![];
        for i in (0..n).rev() { let e = if by[i].1 != 0 { by[i].1 } else { p.cst(by[i].0 as u128, 8) }; segs.push(e); }
        let mut e = p.concat_many(segs);
        if w as usize != n * 8 { e = p.trunc(e, w); }
        if let Some(k) = p.k(e) { if w <= 64 { return Ok((k as u64, 0)); } }
        Ok((0, e))
    }
    pub fn write(&mut self, p: &mut Pool, a: u64, w: u16, v: u64, e: E) -> Result<(), Fault> {
        let n = (w as usize + 7) / 8;
        self.check(a, n as u64, true)?;
        if e == 0 {
            for i in 0..n { self.wb(a + i as u64, (v >> (8 * i)) as u8, 0); }
            return Ok(());
        }
        let full = p.zext(e, n as u16 * 8);
        for i in 0..n {
            let b = p.byte(full, i as u16 * 8);
            match p.k(b) { Some(k) => self.wb(a + i as u64, k as u8, 0), None => self.wb(a + i as u64, 0, b) }
        }
        Ok(())
    }
}
