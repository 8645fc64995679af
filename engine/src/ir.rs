//! Parser for textual LLVM IR (the subset rustc emits), compiled lazily per function.
use crate::term::{self, mk_c, T};
use std::collections::HashMap;
use std::rc::Rc;

pub type Ty = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK { Void, Int(u32), F32, F64, Ptr, Struct(Vec<Ty>, bool), Array(u64, Ty), Vector(u32, Ty), Other(String) }

#[derive(Clone, Debug, PartialEq)]
pub enum Val { C(u64), S(T), A(Rc<Vec<Val>>), U }
impl Default for Val { fn default() -> Val { Val::U } }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, Zext, Sext, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, Bitcast }

#[derive(Clone, Debug)]
pub struct CallI { pub callee: Opd, pub name: Option<Rc<str>>, pub args: Vec<(Ty, Opd)>, pub ret: Ty, pub inv: Option<(u32, u32)>, pub intr: u32 }

#[derive(Clone, Debug)]
pub enum IK {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Alloca(u64, u64),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElt(Opd, Opd),
    InsertElt(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Select(Ty, Ty, Opd, Opd, Opd),
    Call(Box<CallI>),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Ty, Opd),
    LandingPad(u8),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Resume(Opd),
    Nop,
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: IK }
pub const NODST: u32 = u32::MAX;

pub struct Block { pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub insts: Vec<Inst>, pub name: String, pub live_in: Option<Vec<u32>> }
pub struct Func { pub name: Rc<str>, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub ipdom: Vec<u32>, pub id: u32 }

pub struct FnInfo { pub name: Rc<str>, pub pretty: Rc<str>, pub start: usize, pub end: usize, pub parsed: Option<Rc<Func>>, pub declared_only: bool }
pub struct GlobalInfo { pub name: Rc<str>, pub ty: Ty, pub pos: usize, pub konst: bool, pub ext: bool, pub size: u64 }

pub struct Module {
    pub src: Vec<u8>,
    pub tys: Vec<TyK>,
    tymap: HashMap<TyK, Ty>,
    named: HashMap<String, Ty>,
    pub fns: Vec<FnInfo>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    pub glob_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub intr_names: Vec<String>,
    intr_map: HashMap<String, u32>,
}
pub const SLOT: u32 = 24; // address bits inside one object
pub const GLOBAL0: u64 = 0x1000;
pub const FN0: u64 = 0x10; // object id of the function "object"; functions live at 16-byte steps inside ids FN0..
pub fn fn_addr(i: u32) -> u64 { (FN0 << SLOT) + (i as u64 + 1) * 16 }
pub fn addr_fn(a: u64) -> Option<u32> { if a >> SLOT == FN0 && a & 15 == 0 { Some((((a & 0xffffff) / 16) - 1) as u32) } else { None } }
pub fn glob_addr(i: u32) -> u64 { (GLOBAL0 + i as u64) << SLOT }

pub struct P<'a> { m: &'a mut Module, s: &'a [u8], p: usize, regs: HashMap<Vec<u8>, u32>, labels: HashMap<Vec<u8>, u32> }

impl Module {
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.tymap.get(&k) { return *t; }
        let t = self.tys.len() as Ty; self.tys.push(k.clone()); self.tymap.insert(k, t); t
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match &self.tys[t as usize] { TyK::Int(w) => *w, TyK::F32 => 32, TyK::F64 | TyK::Ptr => 64, k => panic!("bits of {:?}", k) }
    }
    pub fn align(&self, t: Ty) -> u64 {
        match &self.tys[t as usize] {
            TyK::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            TyK::F32 => 4, TyK::F64 | TyK::Ptr => 8,
            TyK::Struct(f, p) => if *p { 1 } else { f.iter().map(|x| self.align(*x)).max().unwrap_or(1) },
            TyK::Array(_, e) => self.align(*e),
            TyK::Vector(..) => self.size(t).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self, t: Ty) -> u64 {
        match &self.tys[t as usize] {
            TyK::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            TyK::F32 => 4, TyK::F64 | TyK::Ptr => 8,
            TyK::Struct(f, p) => {
                let mut o = 0; for x in f { let a = if *p { 1 } else { self.align(*x) }; o = (o + a - 1) / a * a + self.size(*x); }
                let a = self.align(t); (o + a - 1) / a * a
            }
            TyK::Array(n, e) => n * self.size(*e),
            TyK::Vector(n, e) => { let b = self.bits(*e) as u64 * *n as u64; (b + 7) / 8 }
            k => panic!("size of {:?}", k),
        }
    }
    pub fn field_off(&self, t: Ty, i: usize) -> (u64, Ty) {
        match &self.tys[t as usize] {
            TyK::Struct(f, p) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() { let a = if *p { 1 } else { self.align(*x) }; o = (o + a - 1) / a * a; if j == i { return (o, *x); } o += self.size(*x); }
                panic!()
            }
            TyK::Array(_, e) | TyK::Vector(_, e) => (self.size(*e) * i as u64, *e),
            k => panic!("field of {:?}", k),
        }
    }
    pub fn intr_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.intr_map.get(n) { return *i; }
        let i = self.intr_names.len() as u32; self.intr_names.push(n.to_string()); self.intr_map.insert(n.to_string(), i); i
    }
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).expect("read IR");
        let mut m = Module { src, tys: vec![], tymap: HashMap::new(), named: HashMap::new(), fns: vec![], fn_by_name: HashMap::new(), globals: vec![], glob_by_name: HashMap::new(), aliases: HashMap::new(), intr_names: vec!["".into()], intr_map: HashMap::new() };
        m.ty(TyK::Void);
        let src = std::mem::take(&mut m.src);
        let mut i = 0;
        let n = src.len();
        let mut pretty: Option<String> = None;
        let mut glob_lines = vec![];
        while i < n {
            let e = memchr(&src, b'\n', i).unwrap_or(n);
            let line = &src[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let def = line.starts_with(b"define ");
                let at = memchr(line, b'@', 0).unwrap();
                let (name, _) = sym_name(line, at + 1);
                let end = if def { find_end(&src, e) } else { e };
                let id = m.fns.len() as u32;
                m.fns.push(FnInfo { name: name.clone().into(), pretty: pretty.take().unwrap_or_else(|| name.clone()).into(), start: i, end, parsed: None, declared_only: !def });
                m.fn_by_name.insert(name, id);
                i = end; pretty = None;
            } else if line.starts_with(b"@") {
                let (name, p) = sym_name(line, 1);
                glob_lines.push((name, i + p, e));
            } else if line.starts_with(b"; ") {
                let t = String::from_utf8_lossy(&line[2..]).to_string();
                if !t.starts_with("Function Attrs") && !t.starts_with("invoke ") && !t.starts_with("call ") { pretty = Some(t); }
            } else if line.starts_with(b"%") {
                // named struct types
                let s = String::from_utf8_lossy(line).to_string();
                if let Some(k) = s.find(" = type ") {
                    let nm = s[..k].to_string();
                    let body = s[k + 8..].as_bytes().to_vec();
                    let t = { let mut p = P { m: &mut m, s: &body, p: 0, regs: HashMap::new(), labels: HashMap::new() }; p.ty() };
                    m.named.insert(nm, t);
                }
            } else if line.starts_with(b"!") || line.starts_with(b"attributes ") {
                // metadata section: nothing of interest follows definitions
            }
            i = e + 1;
        }
        m.src = src;
        let src = std::mem::take(&mut m.src);
        for (name, p, e) in glob_lines {
            // " = [linkage...] (global|constant|alias) type init"
            let mut q = P { m: &mut m, s: &src[..e], p, regs: HashMap::new(), labels: HashMap::new() };
            q.ws(); q.p += 1; // '='
            let mut ext = false;
            let mut alias = false;
            let konst;
            loop {
                let w = q.word();
                match w.as_str() {
                    "global" => { konst = false; break; }
                    "constant" => { konst = true; break; }
                    "alias" => { konst = true; alias = true; break; }
                    "external" | "extern_weak" => ext = true,
                    "" => panic!("global line {}", name),
                    _ => { q.ws(); if q.peek() == b'(' { q.skip_parens(); } }
                }
            }
            if alias { let s = String::from_utf8_lossy(&src[q.p..e]).to_string(); if let Some(a) = s.rfind('@') { let (t, _) = sym_name(s.as_bytes(), a + 1); m.aliases.insert(name, t); } continue; }
            let ty = q.ty();
            let pos = q.p;
            let id = m.globals.len() as u32;
            let size = m.size(ty);
            m.glob_by_name.insert(name.clone(), id);
            m.globals.push(GlobalInfo { name: name.into(), ty, pos, konst, ext, size });
        }
        m.src = src;
        m
    }
    pub fn global_init(&mut self, id: u32) -> Option<Val> {
        let g = &self.globals[id as usize];
        if g.ext { return None; }
        let (ty, pos) = (g.ty, g.pos);
        let src = std::mem::take(&mut self.src);
        let e = memchr(&src, b'\n', pos).unwrap_or(src.len());
        let v = { let mut q = P { m: self, s: &src[..e], p: pos, regs: HashMap::new(), labels: HashMap::new() }; q.konst(ty) };
        self.src = src;
        Some(v)
    }
    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed { return Some(f.clone()); }
        if self.fns[id as usize].declared_only { return None; }
        let (s, e) = (self.fns[id as usize].start, self.fns[id as usize].end);
        let name = self.fns[id as usize].name.clone();
        let src = std::mem::take(&mut self.src);
        let f = { let mut q = P { m: self, s: &src[..e], p: s, regs: HashMap::new(), labels: HashMap::new() }; q.function(name, id) };
        self.src = src;
        let f = Rc::new(f);
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }
}
fn memchr(s: &[u8], c: u8, from: usize) -> Option<usize> { s[from..].iter().position(|x| *x == c).map(|i| i + from) }
fn find_end(s: &[u8], from: usize) -> usize {
    let mut i = from;
    loop {
        let e = match memchr(s, b'\n', i) { Some(e) => e, None => return s.len() };
        if s.get(e + 1) == Some(&b'}') { return e + 2; }
        i = e + 1;
    }
}
fn sym_name(s: &[u8], p: usize) -> (String, usize) {
    if s[p] == b'"' { let e = memchr(s, b'"', p + 1).unwrap(); (String::from_utf8_lossy(&s[p + 1..e]).to_string(), e + 1) }
    else { let mut e = p; while e < s.len() && is_id(s[e]) { e += 1 } (String::from_utf8_lossy(&s[p..e]).to_string(), e) }
}
fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    /// Skips blanks; crosses a line end only into a continuation line (deeper indentation, or the
    /// closing bracket of a switch).
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' => self.p += 1,
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => { while !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') || false { self.p += 1 } self.p += 2; }
                b'\n' => {
                    let mut q = self.p + 1;
                    while q < self.s.len() && self.s[q] == b' ' { q += 1 }
                    let ind = q - self.p - 1;
                    if ind >= 4 || (ind == 2 && q < self.s.len() && self.s[q] == b']') { self.p = q; } else { return; }
                }
                _ => return,
            }
        }
    }
    fn sp(&mut self) { while self.p < self.s.len() && self.s[self.p] == b' ' { self.p += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn need(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected {}", c as char)); } }
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(120); let b = (self.p + 80).min(self.s.len());
        panic!("IR parse: {} near `{}` <<HERE>> `{}`", m, String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..b]))
    }
    fn word(&mut self) -> String { self.ws(); let a = self.p; while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1 } String::from_utf8_lossy(&self.s[a..self.p]).to_string() }
    fn peek_word(&mut self) -> String { let p = self.p; let w = self.word(); self.p = p; w }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } }
            if c == b'(' { d += 1 } if c == b')' { d -= 1 }
            self.p += 1;
            if d == 0 { break }
        }
    }
    fn eol(&mut self) { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 } }
    fn num(&mut self) -> u64 { let w = self.word(); w.parse().unwrap_or_else(|_| self.fail(&format!("number {}", w))) }

    pub fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => { self.p += 1; let f = self.ty_list(b'}'); self.m.ty(TyK::Struct(f, false)) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let f = self.ty_list(b'}'); self.need(b'>'); return self.m.ty(TyK::Struct(f, true)); }
                let n = self.num(); let x = self.word(); assert!(x == "x"); let e = self.ty(); self.need(b'>');
                self.m.ty(TyK::Vector(n as u32, e))
            }
            b'[' => { self.p += 1; let n = self.num(); let x = self.word(); assert!(x == "x"); let e = self.ty(); self.need(b']'); self.m.ty(TyK::Array(n, e)) }
            b'%' => {
                let a = self.p; self.p += 1; let (_, e) = sym_name(self.s, self.p); self.p = e;
                let nm = String::from_utf8_lossy(&self.s[a..e]).to_string();
                *self.m.named.get(&nm).unwrap_or_else(|| panic!("named type {}", nm))
            }
            _ => {
                let w = self.word();
                let k = match w.as_str() {
                    "void" => TyK::Void, "float" => TyK::F32, "double" => TyK::F64, "ptr" => TyK::Ptr,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => TyK::Int(w[1..].parse().unwrap()),
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => TyK::Other(w),
                    _ => self.fail(&format!("type {}", w)),
                };
                self.m.ty(k)
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> Vec<Ty> { let mut v = vec![]; if self.eat(end) { return v; } loop { v.push(self.ty()); if self.eat(end) { return v; } self.need(b','); } }
    fn is_ty(w: &str) -> bool { matches!(w, "void" | "float" | "double" | "ptr" | "label" | "metadata" | "token" | "half" | "fp128" | "bfloat" | "x86_fp80") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())) }

    fn zero(&mut self, t: Ty) -> Val {
        match self.m.tys[t as usize].clone() {
            TyK::Int(w) if w > 64 => Val::S(mk_c(w as u8, 0)),
            TyK::Int(_) | TyK::F32 | TyK::F64 | TyK::Ptr => Val::C(0),
            TyK::Struct(f, _) => { let v = f.iter().map(|x| self.zero(*x)).collect(); Val::A(Rc::new(v)) }
            TyK::Array(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            TyK::Vector(n, e) => { let z = self.zero(e); Val::A(Rc::new(vec![z; n as usize])) }
            TyK::Void => Val::U,
            k => panic!("zero of {:?}", k),
        }
    }
    fn undef(&mut self, t: Ty) -> Val {
        match self.m.tys[t as usize].clone() {
            TyK::Struct(f, _) => { let v = f.iter().map(|x| self.undef(*x)).collect(); Val::A(Rc::new(v)) }
            TyK::Array(n, e) => { let z = self.undef(e); Val::A(Rc::new(vec![z; n as usize])) }
            TyK::Vector(n, e) => { let z = self.undef(e); Val::A(Rc::new(vec![z; n as usize])) }
            _ => Val::U,
        }
    }
    pub fn konst(&mut self, t: Ty) -> Val { match self.val(t) { Opd::K(v) => v, _ => self.fail("constant expected") } }
    fn tv(&mut self) -> (Ty, Val) { let t = self.ty(); let v = self.konst(t); (t, v) }
    fn val(&mut self, t: Ty) -> Opd {
        let c = self.peek();
        match c {
            b'%' => {
                self.p += 1;
                let a = self.p;
                let (n, e) = sym_name(self.s, a); self.p = e;
                Opd::R(self.reg(n.as_bytes()))
            }
            b'@' => { let (n, e) = sym_name(self.s, self.p + 1); self.p = e; Opd::K(Val::C(self.m_sym(&n))) }
            b'{' => { self.p += 1; let v = self.agg(b'}'); Opd::K(Val::A(Rc::new(v))) }
            b'[' => { self.p += 1; let v = self.agg(b']'); Opd::K(Val::A(Rc::new(v))) }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' { self.p += 1; let v = self.agg(b'}'); self.need(b'>'); Opd::K(Val::A(Rc::new(v))) }
                else { let v = self.agg(b'>'); Opd::K(Val::A(Rc::new(v))) }
            }
            b'+' => { self.p += 1; let w = self.word(); Opd::K(self.num_const(t, &w)) }
            _ => {
                if c == b'c' && self.s[self.p + 1] == b'"' {
                    self.p += 2;
                    let mut v = vec![];
                    while self.s[self.p] != b'"' {
                        let ch = self.s[self.p];
                        if ch == b'\\' && self.s[self.p + 1] == b'\\' { v.push(Val::C(b'\\' as u64)); self.p += 2; }
                        else if ch == b'\\' {
                            let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                            v.push(Val::C(u64::from_str_radix(h, 16).unwrap())); self.p += 3;
                        } else { v.push(Val::C(ch as u64)); self.p += 1; }
                    }
                    self.p += 1;
                    return Opd::K(Val::A(Rc::new(v)));
                }
                let mut w = self.word();
                // floats like 1.5e+00
                if self.p < self.s.len() && self.s[self.p] == b'+' { self.p += 1; let r = self.word(); w = format!("{}+{}", w, r); }
                match w.as_str() {
                    "true" => Opd::K(Val::C(1)), "false" => Opd::K(Val::C(0)), "null" | "none" => Opd::K(Val::C(0)),
                    "undef" | "poison" => Opd::K(self.undef(t)),
                    "zeroinitializer" => Opd::K(self.zero(t)),
                    "splat" => {
                        self.need(b'('); let (_, v) = self.tv(); self.need(b')');
                        let n = match self.m.tys[t as usize] { TyK::Vector(n, _) => n as usize, TyK::Array(n, _) => n as usize, _ => panic!() };
                        Opd::K(Val::A(Rc::new(vec![v; n])))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        self.need(b'('); let (_, v) = self.tv(); let to = self.word(); assert_eq!(to, "to"); let t2 = self.ty(); self.need(b')');
                        let v = match v { Val::C(x) => { let b = self.m.bits(t2); Val::C(if b >= 64 { x } else { x & ((1 << b) - 1) }) } v => v };
                        Opd::K(v)
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { self.word(); if self.peek_word() == "inrange" { break; } }
                        if self.peek() != b'(' { self.word(); self.skip_parens(); }
                        self.need(b'(');
                        let st = self.ty(); self.need(b',');
                        let (_, b) = self.tv();
                        let mut a = match b { Val::C(x) => x, _ => panic!("const gep") };
                        let mut cur = st; let mut first = true;
                        while self.eat(b',') {
                            let (it, i) = self.tv();
                            let i = match i { Val::C(x) => { let b = self.m.bits(it); if b < 64 { term::sx(x as u128, b as u8) as i64 } else { x as i64 } } _ => panic!() };
                            if first { a = a.wrapping_add((self.m.size(cur) as i64).wrapping_mul(i) as u64); first = false; }
                            else { let (o, n) = match self.m.tys[cur as usize] { TyK::Struct(..) => self.m.field_off(cur, i as usize), _ => { let (_, e) = self.m.field_off(cur, 0); ((self.m.size(e) as i64 * i) as u64, e) } }; a = a.wrapping_add(o); cur = n; }
                        }
                        self.need(b')');
                        Opd::K(Val::C(a))
                    }
                    "add" | "sub" | "xor" | "and" | "mul" => {
                        while self.peek() != b'(' { self.word(); }
                        self.need(b'('); let (ta, a) = self.tv(); self.need(b','); let (_, b) = self.tv(); self.need(b')');
                        let (a, b) = match (a, b) { (Val::C(a), Val::C(b)) => (a, b), _ => panic!("const expr") };
                        let r = match w.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, _ => a.wrapping_mul(b) };
                        let bt = self.m.bits(ta);
                        Opd::K(Val::C(if bt >= 64 { r } else { r & ((1 << bt) - 1) }))
                    }
                    "" => self.fail("value"),
                    _ => Opd::K(self.num_const(t, &w)),
                }
            }
        }
    }
    fn num_const(&mut self, t: Ty, w: &str) -> Val {
        match self.m.tys[t as usize] {
            TyK::F32 => {
                let d: f64 = self.fnum(w);
                if let Some(h) = w.strip_prefix("f0x") { return Val::C(u64::from_str_radix(h, 16).unwrap()); }
                Val::C((d as f32).to_bits() as u64)
            }
            TyK::F64 => { if let Some(h) = w.strip_prefix("f0x") { return Val::C(u64::from_str_radix(h, 16).unwrap()); } let d = self.fnum(w); Val::C(d.to_bits()) }
            TyK::Int(b) => {
                let v: i128 = match w.parse::<i128>() { Ok(v) => v, Err(_) => match w.parse::<u128>() { Ok(v) => v as i128, Err(_) => self.fail(&format!("int {}", w)) } };
                if b > 64 { Val::S(mk_c(b as u8, v as u128)) } else { Val::C((v as u64) & (if b == 64 { u64::MAX } else { (1 << b) - 1 })) }
            }
            _ => self.fail(&format!("constant {} of type {:?}", w, self.m.tys[t as usize])),
        }
    }
    fn fnum(&mut self, w: &str) -> f64 {
        if let Some(h) = w.strip_prefix("0x") { return f64::from_bits(u64::from_str_radix(h, 16).unwrap()); }
        if w.starts_with("f0x") { return 0.0; }
        match w { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "qnan" | "nan" => f64::NAN, "-qnan" | "-nan" => f64::NAN, _ => w.parse().unwrap_or_else(|_| self.fail(&format!("float {}", w))) }
    }
    fn agg(&mut self, end: u8) -> Vec<Val> { let mut v = vec![]; if self.eat(end) { return v; } loop { v.push(self.tv().1); if self.eat(end) { return v; } self.need(b','); } }
    fn m_sym(&mut self, n: &str) -> u64 {
        let n = if let Some(a) = self.m.aliases.get(n) { a.clone() } else { n.to_string() };
        if let Some(i) = self.m.glob_by_name.get(&n) { return glob_addr(*i); }
        if let Some(i) = self.m.fn_by_name.get(&n) { return fn_addr(*i); }
        self.fail(&format!("unknown symbol {}", n))
    }
    fn reg(&mut self, n: &[u8]) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_vec()).or_insert(k) }
    fn label(&mut self) -> u32 { // "label %x"
        let w = self.word(); if w != "label" { self.fail("label"); }
        self.lref()
    }
    fn lref(&mut self) -> u32 { self.need(b'%'); let (n, e) = sym_name(self.s, self.p); self.p = e; *self.labels.get(n.as_bytes()).unwrap_or_else(|| self.fail(&format!("label {}", n))) }

    /// skip attributes preceding a value/type
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } self.p += 1; if self.s[self.p] == b'=' { self.p += 1; if self.peek() == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } self.p += 1; } } continue; }
            if !c.is_ascii_alphabetic() { return; }
            let w = self.peek_word();
            if Self::is_ty(&w) { return; }
            if matches!(w.as_str(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "inttoptr" | "ptrtoint" | "getelementptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "and" | "mul" | "none" | "c" | "inf" | "nan" | "qnan" | "asm" | "ptrtoaddr") || w.starts_with("f0x") { return; }
            self.word();
            if w == "align" { self.sp(); if self.peek() == b'(' { self.skip_parens(); } else { self.num(); } continue; }
            if w == "cc" { self.num(); continue; }
            if self.p < self.s.len() && self.s[self.p] == b'(' { self.skip_parens(); }
        }
    }

    fn function(&mut self, name: Rc<str>, id: u32) -> Func {
        let _ = self.word(); // define
        // return type: skip linkage etc.
        loop { self.attrs(); break; }
        let _ret = self.ty();
        self.need(b'@'); let (_, e) = sym_name(self.s, self.p); self.p = e;
        self.need(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !self.eat(b')') {
            loop {
                if self.peek() == b'.' { self.p += 3; self.need(b')'); break; }
                let _t = self.ty();
                self.attrs();
                if self.peek() == b'%' { self.p += 1; let (n, e) = sym_name(self.s, self.p); self.p = e; if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let r = self.reg(n.as_bytes()); params.push(r); }
                else { let r = self.reg(format!("{}", unnamed).as_bytes()); unnamed += 1; params.push(r); }
                if self.eat(b')') { break; }
                self.need(b',');
            }
        }
        // header rest up to "{\n"
        while !(self.s[self.p] == b'{' && self.s[self.p + 1] == b'\n') { self.p += 1; }
        self.p += 2;
        // pre-scan labels
        let body = self.p;
        let mut nb = 0u32;
        let mut names: Vec<String> = vec![];
        {
            let mut i = body; let mut first = true;
            while i < self.s.len() {
                let e = memchr(self.s, b'\n', i).unwrap_or(self.s.len());
                let l = &self.s[i..e];
                if !l.is_empty() && l[0] != b' ' && l[0] != b'}' && l[0] != b';' && l[0] != b'\t' && l[0] != b']' {
                    let (n, q) = sym_name(l, 0);
                    if q < l.len() && l[q] == b':' { self.labels.insert(n.as_bytes().to_vec(), nb); names.push(n); nb += 1; first = false; }
                } else if first && l.len() > 2 && l[0] == b' ' { self.labels.insert(format!("{}", unnamed).into_bytes(), nb); names.push("entry".into()); nb += 1; first = false; }
                i = e + 1;
            }
        }
        let mut blocks: Vec<Block> = names.into_iter().map(|n| Block { phis: vec![], insts: vec![], name: n, live_in: None }).collect();
        let mut cur: i64 = -1;
        self.p = body;
        loop {
            // at line start
            while self.p < self.s.len() && self.s[self.p] == b'\n' { self.p += 1; }
            if self.p >= self.s.len() || self.s[self.p] == b'}' { break; }
            if self.s[self.p] != b' ' {
                if self.s[self.p] == b';' { self.eol(); continue; }
                cur += 1; self.eol(); continue;
            }
            self.sp();
            if self.s[self.p] == b';' || self.s[self.p] == b'#' { self.eol(); continue; } // comments / debug records
            if cur < 0 { cur = 0; }
            self.inst(&mut blocks[cur as usize]);
            self.eol();
        }
        let nregs = self.regs.len() as u32;
        let mut f = Func { name, nregs, params, blocks, ipdom: vec![], id };
        f.ipdom = ipdoms(&f);
        liveness(&mut f);
        f
    }
    fn comma_val(&mut self, t: Ty) -> Opd { self.need(b','); self.val(t) }
    fn tval(&mut self) -> (Ty, Opd) { let t = self.ty(); self.attrs(); let v = self.val(t); (t, v) }
    fn inst(&mut self, b: &mut Block) {
        let mut dst = NODST;
        if self.peek() == b'%' {
            self.p += 1; let (n, e) = sym_name(self.s, self.p); self.p = e; dst = self.reg(n.as_bytes()); self.need(b'=');
        }
        let mut op = self.word();
        while matches!(op.as_str(), "tail" | "musttail" | "notail") { op = self.word(); }
        let flags = |me: &mut Self| loop {
            let w = me.peek_word();
            if matches!(w.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "inbounds" | "nusw" | "samesign" | "volatile" | "weak") { me.word(); } else { break; }
        };
        let k = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(self);
                let t = self.ty(); let a = self.val(t); let c = self.comma_val(t);
                let o = match op.as_str() { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                IK::Bin(o, t, a, c)
            }
            "fneg" => { flags(self); let t = self.ty(); IK::FNeg(t, self.val(t)) }
            "icmp" => {
                flags(self);
                let p = match self.word().as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.fail("pred") };
                let t = self.ty(); let a = self.val(t); let c = self.comma_val(t);
                IK::ICmp(p, t, a, c)
            }
            "fcmp" => {
                flags(self);
                let p = match self.word().as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, _ => FPred::True };
                let t = self.ty(); let a = self.val(t); let c = self.comma_val(t);
                IK::FCmp(p, t, a, c)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                flags(self);
                let t = self.ty(); let v = self.val(t); let to = self.word(); assert_eq!(to, "to"); let t2 = self.ty();
                let c = match op.as_str() { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::Bitcast };
                IK::Cast(c, t, t2, v)
            }
            "alloca" => {
                let t = self.ty(); let mut n = 1u64; let mut al = self.m.align(t);
                while self.eat(b',') {
                    let w = self.peek_word();
                    if w == "align" { self.word(); al = self.num(); } else if self.peek() == b'!' { break; } else { let it = self.ty(); match self.val(it) { Opd::K(Val::C(k)) => n = k, _ => panic!("dynamic alloca") } }
                }
                IK::Alloca(self.m.size(t) * n, al)
            }
            "load" => { let w = self.peek_word(); if w == "atomic" { self.word(); } flags(self); let t = self.ty(); self.need(b','); let (_, p) = self.tval(); IK::Load(t, p) }
            "store" => { let w = self.peek_word(); if w == "atomic" { self.word(); } flags(self); let (t, v) = self.tval(); self.need(b','); let (_, p) = self.tval(); IK::Store(t, v, p) }
            "getelementptr" => {
                flags(self);
                let st = self.ty(); self.need(b',');
                let (_, base) = self.tval();
                let mut off = 0i64; let mut idx = vec![]; let mut cur = st; let mut first = true;
                while self.peek() == b',' {
                    let save = self.p; self.p += 1;
                    if self.peek() == b'!' { self.p = save; break; }
                    let (it, v) = self.tval();
                    let scale;
                    if first { scale = self.m.size(cur) as i64; first = false; }
                    else {
                        match (&self.m.tys[cur as usize], &v) {
                            (TyK::Struct(..), Opd::K(Val::C(i))) => { let (o, n) = self.m.field_off(cur, *i as usize); off += o as i64; cur = n; continue; }
                            _ => { let (_, e) = self.m.field_off(cur, 0); scale = self.m.size(e) as i64; cur = e; }
                        }
                    }
                    let ib = match self.m.tys[it as usize] { TyK::Int(b) => b, _ => panic!("vector gep") };
                    match v { Opd::K(Val::C(i)) => off = off.wrapping_add(scale.wrapping_mul(if ib < 64 { term::sx(i as u128, ib as u8) as i64 } else { i as i64 })), v => idx.push((v, ib, scale)) }
                }
                IK::Gep(base, off, idx)
            }
            "extractvalue" => { let (_, v) = self.tval(); let mut ix = vec![]; while self.peek() == b',' { let s = self.p; self.p += 1; if self.peek() == b'!' { self.p = s; break; } ix.push(self.num() as u32); } IK::ExtractValue(v, ix) }
            "insertvalue" => { let (t, v) = self.tval(); self.need(b','); let (_, x) = self.tval(); let mut ix = vec![]; while self.peek() == b',' { let s = self.p; self.p += 1; if self.peek() == b'!' { self.p = s; break; } ix.push(self.num() as u32); } IK::InsertValue(t, v, x, ix) }
            "extractelement" => { let (_, v) = self.tval(); self.need(b','); let (_, i) = self.tval(); IK::ExtractElt(v, i) }
            "insertelement" => { let (t, v) = self.tval(); self.need(b','); let (_, x) = self.tval(); self.need(b','); let (_, i) = self.tval(); IK::InsertElt(t, v, x, i) }
            "shufflevector" => {
                let (t, a) = self.tval(); self.need(b','); let (_, c) = self.tval(); self.need(b','); let (_, mk) = self.tval();
                let mk = match mk { Opd::K(Val::A(v)) => v.iter().map(|x| match x { Val::C(i) => *i as i32, _ => -1 }).collect(), _ => panic!("shuffle mask") };
                IK::Shuffle(t, a, c, mk)
            }
            "select" => { flags(self); let (ct, c) = self.tval(); self.need(b','); let (t, a) = self.tval(); self.need(b','); let (_, d) = self.tval(); IK::Select(ct, t, c, a, d) }
            "phi" => {
                flags(self);
                let t = self.ty(); let mut inc = vec![];
                loop { self.need(b'['); let v = self.val(t); self.need(b','); let l = self.lref(); self.need(b']'); inc.push((l, v)); let s = self.p; if !self.eat(b',') { break; } if self.peek() == b'!' { self.p = s; break; } }
                b.phis.push((dst, t, inc));
                return;
            }
            "freeze" => { let (t, v) = self.tval(); IK::Freeze(t, v) }
            "fence" => IK::Nop,
            "atomicrmw" => { flags(self); let o = self.word(); let (_, p) = self.tval(); self.need(b','); let (t, v) = self.tval(); IK::Rmw(o, t, p, v) }
            "cmpxchg" => { flags(self); let (_, p) = self.tval(); self.need(b','); let (t, c) = self.tval(); self.need(b','); let (_, n) = self.tval(); IK::CmpXchg(t, p, c, n) }
            "landingpad" => {
                let _ = self.ty();
                let mut kind = 0u8; // bit0 cleanup, bit1 catch, bit2 filter
                loop {
                    let s = self.p;
                    // clauses may be on following lines
                    let w = self.peek_word();
                    match w.as_str() {
                        "cleanup" => { self.word(); kind |= 1; }
                        "catch" => { self.word(); kind |= 2; let t = self.ty(); self.konst(t); }
                        "filter" => { self.word(); kind |= 4; let t = self.ty(); self.konst(t); }
                        _ => { self.p = s; break; }
                    }
                }
                b.insts.push(Inst { dst, k: IK::LandingPad(kind) });
                return;
            }
            "br" => {
                let w = self.peek_word();
                if w == "label" { IK::Br(self.label()) } else { let (_, c) = self.tval(); self.need(b','); let x = self.label(); self.need(b','); let y = self.label(); IK::CondBr(c, x, y) }
            }
            "switch" => {
                let (t, v) = self.tval(); self.need(b','); let d = self.label(); self.need(b'[');
                let mut cs = vec![];
                while !self.eat(b']') { let (_, k) = self.tv(); self.need(b','); let l = self.label(); cs.push((match k { Val::C(x) => x, _ => panic!("switch const") }, l)); }
                IK::Switch(t, v, d, cs)
            }
            "ret" => { let t = self.ty(); if self.m.tys[t as usize] == TyK::Void { IK::Ret(None) } else { let v = self.val(t); IK::Ret(Some((t, v))) } }
            "unreachable" => IK::Unreachable,
            "resume" => { let (_, v) = self.tval(); IK::Resume(v) }
            "call" | "invoke" => {
                flags(self);
                self.attrs();
                let ret = self.ty();
                if self.peek() == b'(' { self.skip_parens(); }
                if self.peek_word() == "asm" { b.insts.push(Inst { dst, k: IK::Call(Box::new(CallI { callee: Opd::K(Val::U), name: Some("asm".into()), args: vec![], ret, inv: None, intr: 0 })) }); return; }
                let mut name: Option<Rc<str>> = None;
                let callee = if self.peek() == b'@' {
                    let (n, e) = sym_name(self.s, self.p + 1); self.p = e;
                    let n = self.m.aliases.get(&n).cloned().unwrap_or(n);
                    name = Some(n.as_str().into());
                    if n.starts_with("llvm.") { Opd::K(Val::U) } else { Opd::K(Val::C(self.m_sym(&n))) }
                } else { let pt = self.m.ty(TyK::Ptr); self.val(pt) };
                let nm = name.as_deref().unwrap_or("");
                if nm.starts_with("llvm.dbg") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.lifetime") || nm == "llvm.assume" || nm.starts_with("llvm.donothing") { return; }
                self.need(b'(');
                let mut args = vec![];
                if !self.eat(b')') { loop { let a = self.tval_meta(); args.push(a); if self.eat(b')') { break; } self.need(b','); } }
                let mut inv = None;
                if op == "invoke" {
                    // skip attributes / bundles up to " to label"
                    loop {
                        match self.peek() {
                            b'#' => { self.p += 1; self.word(); }
                            b'[' => { let mut d = 0; loop { let c = self.s[self.p]; if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } } if c == b'[' { d += 1 } if c == b']' { d -= 1 } self.p += 1; if d == 0 { break } } }
                            b'"' => self.attrs(),
                            _ => { let w = self.word(); if w == "to" { break; } if w.is_empty() { self.fail("invoke tail"); } if self.s[self.p] == b'(' { self.skip_parens(); } }
                        }
                    }
                    let n = self.label(); let w = self.word(); assert_eq!(w, "unwind"); let u = self.label();
                    inv = Some((n, u));
                }
                let intr = if nm.starts_with("llvm.") { let n = nm.to_string(); self.m.intr_id(&n) } else { 0 };
                IK::Call(Box::new(CallI { callee, name, args, ret, inv, intr }))
            }
            _ => self.fail(&format!("instruction {}", op)),
        };
        b.insts.push(Inst { dst, k });
    }
    fn tval_meta(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        if let TyK::Other(_) = self.m.tys[t as usize] { // metadata operand: skip to , or ) at depth 0
            let mut d = 0;
            loop { let c = self.s[self.p]; if c == b'"' { self.p += 1; while self.s[self.p] != b'"' { self.p += 1 } } if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' || c == b'{' { d += 1 } if c == b')' || c == b'}' { d -= 1 } self.p += 1; }
            return (t, Opd::K(Val::U));
        }
        self.attrs();
        let v = self.val(t);
        (t, v)
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match &b.insts.last().map(|i| &i.k) {
        Some(IK::Br(x)) => vec![*x],
        Some(IK::CondBr(_, x, y)) => vec![*x, *y],
        Some(IK::Switch(_, _, d, cs)) => { let mut v = vec![*d]; for c in cs { if !v.contains(&c.1) { v.push(c.1) } } v }
        Some(IK::Call(c)) => match c.inv { Some((a, u)) => vec![a, u], None => vec![] },
        _ => vec![],
    }
}
pub const NOB: u32 = u32::MAX;
/// immediate post-dominators, ignoring blocks that cannot reach a return (panic paths)
fn ipdoms(f: &Func) -> Vec<u32> {
    let n = f.blocks.len();
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let is_ret: Vec<bool> = f.blocks.iter().map(|b| matches!(b.insts.last().map(|i| &i.k), Some(IK::Ret(_)))).collect();
    // reach a return without going through unwind edges
    let norm: Vec<Vec<u32>> = f.blocks.iter().zip(&sc).map(|(b, s)| match b.insts.last().map(|i| &i.k) { Some(IK::Call(c)) => match c.inv { Some((a, _)) => vec![a], None => vec![] }, _ => s.clone() }).collect();
    let mut reach = is_ret.clone();
    loop { let mut ch = false; for i in 0..n { if !reach[i] && norm[i].iter().any(|s| reach[*s as usize]) { reach[i] = true; ch = true; } } if !ch { break; } }
    // virtual exit = n; postdominator sets via iterative idom on reverse graph
    let exit = n;
    let mut preds_r: Vec<Vec<usize>> = vec![vec![]; n + 1]; // successors restricted
    for i in 0..n { if !reach[i] { continue; } if is_ret[i] { preds_r[i].push(exit); } else { for s in &norm[i] { if reach[*s as usize] { preds_r[i].push(*s as usize); } } } }
    // reverse postorder from exit on reversed graph
    let mut rg: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n { for s in &preds_r[i] { rg[*s].push(i); } }
    let mut order = vec![]; let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)]; seen[exit] = true;
    while let Some((v, k)) = st.pop() { if k < rg[v].len() { st.push((v, k + 1)); let u = rg[v][k]; if !seen[u] { seen[u] = true; st.push((u, 0)); } } else { order.push(v); } }
    let mut num = vec![usize::MAX; n + 1];
    for (i, v) in order.iter().enumerate() { num[*v] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    loop {
        let mut ch = false;
        for v in order.iter().rev() {
            if *v == exit { continue; }
            let mut nd = usize::MAX;
            for s in &preds_r[*v] { if idom[*s] == usize::MAX { continue; } nd = if nd == usize::MAX { *s } else { let (mut a, mut b) = (nd, *s); while a != b { while num[a] < num[b] { a = idom[a]; } while num[b] < num[a] { b = idom[b]; } } a }; }
            if nd != usize::MAX && idom[*v] != nd { idom[*v] = nd; ch = true; }
        }
        if !ch { break; }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == exit { NOB } else { idom[i] as u32 }).collect()
}
fn opd_uses(k: &IK, f: &mut dyn FnMut(&Opd)) {
    match k {
        IK::Bin(_, _, a, b) | IK::ICmp(_, _, a, b) | IK::FCmp(_, _, a, b) | IK::Store(_, a, b) | IK::ExtractElt(a, b) | IK::InsertValue(_, a, b, _) | IK::Shuffle(_, a, b, _) | IK::Rmw(_, _, a, b) => { f(a); f(b) }
        IK::FNeg(_, a) | IK::Cast(_, _, _, a) | IK::Load(_, a) | IK::ExtractValue(a, _) | IK::Freeze(_, a) | IK::CondBr(a, _, _) | IK::Switch(_, a, _, _) | IK::Resume(a) => f(a),
        IK::Gep(b, _, ix) => { f(b); for i in ix { f(&i.0) } }
        IK::InsertElt(_, a, b, c) | IK::Select(_, _, a, b, c) | IK::CmpXchg(_, a, b, c) => { f(a); f(b); f(c) }
        IK::Call(c) => { f(&c.callee); for a in &c.args { f(&a.1) } }
        IK::Ret(Some((_, a))) => f(a),
        _ => {}
    }
}
/// live registers at the point after the phis of each block
fn liveness(f: &mut Func) {
    let n = f.blocks.len();
    let words = (f.nregs as usize + 63) / 64;
    let mut live: Vec<Vec<u64>> = vec![vec![0; words]; n]; // live after phis
    let sc: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            let mut l = vec![0u64; words];
            for s in &sc[i] {
                let s = *s as usize;
                let mut t = live[s].clone();
                for (d, _, _) in &f.blocks[s].phis { t[*d as usize / 64] &= !(1 << (d % 64)); }
                for (_, _, inc) in &f.blocks[s].phis { for (b, v) in inc { if *b as usize == i { if let Opd::R(r) = v { t[*r as usize / 64] |= 1 << (r % 64); } } } }
                for w in 0..words { l[w] |= t[w]; }
            }
            for ins in f.blocks[i].insts.iter().rev() {
                if ins.dst != NODST { l[ins.dst as usize / 64] &= !(1 << (ins.dst % 64)); }
                opd_uses(&ins.k, &mut |o| if let Opd::R(r) = o { l[*r as usize / 64] |= 1 << (r % 64) });
            }
            if l != live[i] { live[i] = l; ch = true; }
        }
        if !ch { break; }
    }
    for i in 0..n {
        let mut v = vec![];
        for r in 0..f.nregs { if (live[i][r as usize / 64] >> (r % 64)) & 1 == 1 { v.push(r); } }
        f.blocks[i].live_in = Some(v);
    }
}
