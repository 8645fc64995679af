//! Byte-precise symbolic memory: objects in disjoint 16 MB address slots, copy-on-write pages.
use crate::ir::SLOT;
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const PG: usize = 256;
pub const HEAP0: u64 = 0x100000;
pub const STACK0: u64 = 0x8000000;

#[derive(Clone)]
pub enum Page { Zero, Uninit, Conc(Rc<[u8; PG]>), Mixed(Rc<Mixed>) }
#[derive(Clone)]
pub struct Mixed { pub b: [u8; PG], pub s: [u64; PG] }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { C(u8), U, S(T, u8) }
#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub kind: u8, pub pages: Vec<Page> } // kind 0 heap 1 stack 2 const 3 global

fn enc(b: B) -> (u8, u64) { match b { B::C(x) => (x, 0), B::U => (0, 1), B::S(t, i) => (0, ((t as u64 + 1) << 8) | i as u64) } }
fn dec(b: u8, s: u64) -> B { if s == 0 { B::C(b) } else if s == 1 { B::U } else { B::S(((s >> 8) - 1) as T, s as u8) } }

impl Page {
    pub fn get(&self, i: usize) -> B { match self { Page::Zero => B::C(0), Page::Uninit => B::U, Page::Conc(b) => B::C(b[i]), Page::Mixed(m) => dec(m.b[i], m.s[i]) } }
    pub fn same(&self, o: &Page) -> bool {
        match (self, o) { (Page::Zero, Page::Zero) | (Page::Uninit, Page::Uninit) => true, (Page::Conc(a), Page::Conc(b)) => Rc::ptr_eq(a, b) || a == b, (Page::Mixed(a), Page::Mixed(b)) => Rc::ptr_eq(a, b), _ => false }
    }
    fn mixed(&mut self) -> &mut Mixed {
        if !matches!(self, Page::Mixed(_)) {
            let m = match self { Page::Zero => Mixed { b: [0; PG], s: [0; PG] }, Page::Uninit => Mixed { b: [0; PG], s: [1; PG] }, Page::Conc(c) => Mixed { b: **c, s: [0; PG] }, _ => unreachable!() };
            *self = Page::Mixed(Rc::new(m));
        }
        match self { Page::Mixed(m) => Rc::make_mut(m), _ => unreachable!() }
    }
    pub fn set(&mut self, i: usize, b: B) {
        match (&mut *self, b) {
            (Page::Conc(c), B::C(x)) => { Rc::make_mut(c)[i] = x; }
            (Page::Zero, B::C(x)) => { if x != 0 { let mut a = [0u8; PG]; a[i] = x; *self = Page::Conc(Rc::new(a)); } }
            (Page::Uninit, B::U) => {}
            _ => { let m = self.mixed(); let (x, s) = enc(b); m.b[i] = x; m.s[i] = s; }
        }
    }
}
impl Obj {
    pub fn new(base: u64, size: u64, kind: u8, zero: bool) -> Obj {
        let n = (size as usize + PG - 1) / PG;
        Obj { base, size, kind, pages: vec![if zero { Page::Zero } else { Page::Uninit }; n] }
    }
    #[inline]
    pub fn get(&self, off: u64) -> B { self.pages[off as usize / PG].get(off as usize % PG) }
    #[inline]
    pub fn set(&mut self, off: u64, b: B) { self.pages[off as usize / PG].set(off as usize % PG, b) }
    /// fast concrete read
    #[inline]
    pub fn read_conc(&self, off: u64, n: u64) -> Option<u64> {
        let (p, o) = (off as usize / PG, off as usize % PG);
        if o + n as usize <= PG {
            match &self.pages[p] {
                Page::Zero => return Some(0),
                Page::Conc(c) => { let mut r = 0u64; for i in (0..n as usize).rev() { r = r << 8 | c[o + i] as u64; } return Some(r); }
                Page::Mixed(m) => { let mut r = 0u64; for i in (0..n as usize).rev() { if m.s[o + i] != 0 { return None; } r = r << 8 | m.b[o + i] as u64; } return Some(r); }
                Page::Uninit => return None,
            }
        }
        let mut r = 0u64;
        for i in (0..n).rev() { match self.get(off + i) { B::C(x) => r = r << 8 | x as u64, _ => return None } }
        Some(r)
    }
    pub fn write_conc(&mut self, off: u64, n: u64, v: u64) {
        let (p, o) = (off as usize / PG, off as usize % PG);
        if o + n as usize <= PG {
            if let Page::Conc(c) = &mut self.pages[p] { let c = Rc::make_mut(c); for i in 0..n as usize { c[o + i] = (v >> (8 * i)) as u8; } return; }
            if let Page::Mixed(m) = &mut self.pages[p] { let m = Rc::make_mut(m); for i in 0..n as usize { m.b[o + i] = (v >> (8 * i)) as u8; m.s[o + i] = 0; } return; }
        }
        for i in 0..n { self.set(off + i, B::C((v >> (8 * i)) as u8)); }
    }
    pub fn write_term(&mut self, off: u64, n: u64, t: T) {
        let nd = node(t);
        for i in 0..n {
            let (z, o) = (nd.kz >> (8 * i) & 0xff, nd.ko >> (8 * i) & 0xff);
            let b = if z | o == 0xff { B::C(o as u8) } else { B::S(t, i as u8) };
            self.set(off + i, b);
        }
    }
    /// read n<=16 bytes as a term; fresh() supplies values for uninitialised bytes
    pub fn read_term(&mut self, off: u64, n: u64, fresh: &mut dyn FnMut() -> T) -> T {
        let mut i = 0;
        let mut r: Option<T> = None;
        while i < n {
            let piece = match self.get(off + i) {
                B::C(_) => { let mut v = 0u128; let mut k = 0; while i + k < n { if let B::C(x) = self.get(off + i + k) { v |= (x as u128) << (8 * k); k += 1; } else { break; } } i += k; mk_c(8 * k as u8, v) }
                B::U => { let t = fresh(); self.set(off + i, B::S(t, 0)); i += 1; t }
                B::S(t, b) => { let mut k = 1u8; while i + (k as u64) < n && self.get(off + i + k as u64) == B::S(t, b + k) { k += 1; } i += k as u64; extract(t, 8 * b, 8 * k) }
            };
            r = Some(match r { None => piece, Some(p) => cat(piece, p) });
        }
        r.unwrap()
    }
}

#[derive(Clone)]
pub struct Mem {
    pub globs: Rc<HashMap<u64, Rc<Obj>>>,
    pub heap: Vec<Rc<Vec<Option<Rc<Obj>>>>>, // chunks of 64
    pub next: u64,
    pub stack: Vec<Rc<Obj>>,
}
pub enum Fault { Null, Wild(u64), Freed(u64), ConstWrite }
impl Mem {
    pub fn new() -> Mem { Mem { globs: Rc::new(HashMap::new()), heap: vec![], next: 0, stack: vec![] } }
    pub fn obj(&self, id: u64) -> Result<&Rc<Obj>, Fault> {
        if id >= STACK0 { return self.stack.get((id - STACK0) as usize).ok_or(Fault::Wild(id)); }
        if id >= HEAP0 {
            let k = (id - HEAP0) as usize;
            if k as u64 >= self.next { return Err(Fault::Wild(id)); }
            return self.heap[k / 64][k % 64].as_ref().ok_or(Fault::Freed(id));
        }
        if let Some(o) = self.globs.get(&id) { return Ok(o); }
        if id == 0 { return Err(Fault::Null); }
        Err(Fault::Wild(id))
    }
    pub fn obj_mut(&mut self, id: u64) -> Result<&mut Obj, Fault> {
        if id >= STACK0 { return match self.stack.get_mut((id - STACK0) as usize) { Some(o) => Ok(Rc::make_mut(o)), None => Err(Fault::Wild(id)) }; }
        if id >= HEAP0 {
            let k = (id - HEAP0) as usize;
            if k as u64 >= self.next { return Err(Fault::Wild(id)); }
            let c = Rc::make_mut(&mut self.heap[k / 64]);
            return match c[k % 64].as_mut() { Some(o) => Ok(Rc::make_mut(o)), None => Err(Fault::Freed(id)) };
        }
        if id == 0 { return Err(Fault::Null); }
        match Rc::make_mut(&mut self.globs).get_mut(&id) { Some(o) => { if o.kind == 2 { return Err(Fault::ConstWrite); } Ok(Rc::make_mut(o)) } None => Err(Fault::Wild(id)) }
    }
    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> u64 {
        let k = self.next; self.next += 1;
        if k as usize / 64 >= self.heap.len() { self.heap.push(Rc::new(vec![None; 64])); }
        // exactly minimally aligned (malloc gives 16), so alignment is never better than promised
        let base = ((HEAP0 + k) << SLOT) + (0x1000 + align.max(16)).max(align);
        let base = if align > 0x1000 { ((HEAP0 + k) << SLOT) + align } else { base };
        assert!(size < (1 << SLOT) - 0x4000, "allocation of {} bytes exceeds the model", size);
        Rc::make_mut(&mut self.heap[k as usize / 64])[k as usize % 64] = Some(Rc::new(Obj::new(base, size, 0, zero)));
        base
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let id = addr >> SLOT;
        if id < HEAP0 || id >= STACK0 { return Err(format!("free of non-heap address {:#x}", addr)); }
        let k = (id - HEAP0) as usize;
        if k as u64 >= self.next { return Err("free of wild address".into()); }
        match &self.heap[k / 64][k % 64] { None => return Err("double free".into()), Some(o) => if o.base != addr { return Err("free of interior pointer".into()); } }
        Rc::make_mut(&mut self.heap[k / 64])[k % 64] = None;
        Ok(())
    }
    pub fn push_stack(&mut self, size: u64) -> u64 {
        let id = STACK0 + self.stack.len() as u64;
        let base = (id << SLOT) + 0x1000;
        self.stack.push(Rc::new(Obj::new(base, size, 1, false)));
        base
    }
}
