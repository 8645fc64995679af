//! Solver interface: z3 over a pipe (incremental), a non-incremental fallback, and a decision
//! procedure for equalities between weighted sums of bits (decomposition into independent parts).
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Res { Sat(HashMap<u32, u128, Fx>), Unsat, Unknown }

struct Proc { child: Child, inp: std::process::ChildStdin, out: BufReader<std::process::ChildStdout>, defined: HashSet<T, Fx>, declared: HashSet<u32, Fx>, bytes: usize }
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Solver {
    p: Option<Proc>,
    cache: HashMap<Vec<T>, Option<Rc<HashMap<u32, u128, Fx>>>, Fx>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub unknowns: u64,
    pub fallback: u64,
    pub timeout_ms: u64,
    pub hard_timeout_ms: u64,
    pub max_q: f64,
    pub sum_decisions: u64,
    pub log: Option<std::fs::File>,
    fp: HashMap<T, bool, Fx>,
}

fn sym(t: T) -> String { match &node(t).n { N::C(v) => cst(node(t).w, *v), N::V(v) => format!("v{}", v), _ => format!("t{}", t) } }
fn cst(w: u8, v: u128) -> String {
    if w == 1 { return if v == 1 { "true".into() } else { "false".into() }; }
    if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) }
}
fn bvarg(t: T) -> String { if width(t) == 1 { format!("(ite {} #b1 #b0)", sym(t)) } else { sym(t) } }

fn fpsort(f: u8) -> &'static str { if f == 32 { "8 24" } else { "11 53" } }

fn expr(t: T) -> String {
    let nd = node(t);
    let w = nd.w;
    let b2 = |op: &str, a: T, b: T| format!("({} {} {})", op, sym(a), sym(b));
    match &nd.n {
        N::C(v) => cst(w, *v),
        N::V(v) => format!("v{}", v),
        N::Not(a) => if w == 1 { format!("(not {})", sym(*a)) } else { format!("(bvnot {})", sym(*a)) },
        N::And(a, b) => b2(if w == 1 { "and" } else { "bvand" }, *a, *b),
        N::Or(a, b) => b2(if w == 1 { "or" } else { "bvor" }, *a, *b),
        N::Xor(a, b) => b2(if w == 1 { "xor" } else { "bvxor" }, *a, *b),
        N::Add(v, c) => {
            let mut s = String::from("(bvadd");
            let mut n = 0;
            for (t, k) in v.iter() {
                n += 1;
                if *k == 1 { s += &format!(" {}", sym(*t)); }
                else if *k == mask(w) { s += &format!(" (bvneg {})", sym(*t)); }
                else { s += &format!(" (bvmul {} {})", cst(w, *k), sym(*t)); }
            }
            if *c != 0 || n < 2 { s += &format!(" {}", cst(w, *c)); }
            s + ")"
        }
        N::Mul(a, b) => b2("bvmul", *a, *b),
        N::UDiv(a, b) => b2("bvudiv", *a, *b),
        N::URem(a, b) => b2("bvurem", *a, *b),
        N::SDiv(a, b) => b2("bvsdiv", *a, *b),
        N::SRem(a, b) => b2("bvsrem", *a, *b),
        N::Shl(a, b) => b2("bvshl", *a, *b),
        N::LShr(a, b) => b2("bvlshr", *a, *b),
        N::AShr(a, b) => b2("bvashr", *a, *b),
        N::Cat(a, b) => format!("(concat {} {})", bvarg(*a), bvarg(*b)),
        N::Ext(a, lo) => {
            let e = format!("((_ extract {} {}) {})", lo + w - 1, lo, bvarg(*a));
            if w == 1 { format!("(= {} #b1)", e) } else { e }
        }
        N::Sext(a) => format!("((_ sign_extend {}) {})", w - width(*a), bvarg(*a)),
        N::Eq(a, b) => b2("=", *a, *b),
        N::Ult(a, b) => b2("bvult", *a, *b),
        N::Slt(a, b) => b2("bvslt", *a, *b),
        N::Ite(c, a, b) => format!("(ite {} {} {})", sym(*c), sym(*a), sym(*b)),
        N::Pop(a) => {
            let mut s = String::from("(bvadd");
            for i in 0..w { s += &format!(" ((_ zero_extend {}) ((_ extract {} {}) {}))", w - 1, i, i, sym(*a)); }
            s + ")"
        }
        N::Clz(a) => {
            let mut s = cst(w, w as u128);
            for i in 0..w { s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, sym(*a), cst(w, (w - 1 - i) as u128), s); }
            s
        }
        N::Ctz(a) => {
            let mut s = cst(w, w as u128);
            for i in (0..w).rev() { s = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, sym(*a), cst(w, i as u128), s); }
            s
        }
        N::Lut(sel, tab) => {
            // balanced mux over selector bits, sharing equal sub-tables
            let mut bits: Vec<String> = vec![];
            for s in sel.iter() { let sw = width(*s); if sw == 1 { bits.push(sym(*s)) } else { for i in 0..sw { bits.push(format!("(= ((_ extract {} {}) {}) #b1)", i, i, sym(*s))); } } }
            mux(&bits, tab, w)
        }
        N::F(op, f, a) => {
            let fa = |x: T| format!("((_ to_fp {}) {})", fpsort(*f), sym(x));
            let r = match op {
                FOp::Add => format!("(fp.add RNE {} {})", fa(a[0]), fa(a[1])),
                FOp::Sub => format!("(fp.sub RNE {} {})", fa(a[0]), fa(a[1])),
                FOp::Mul => format!("(fp.mul RNE {} {})", fa(a[0]), fa(a[1])),
                FOp::Div => format!("(fp.div RNE {} {})", fa(a[0]), fa(a[1])),
                FOp::Sqrt => format!("(fp.sqrt RNE {})", fa(a[0])),
                FOp::Round => format!("(fp.roundToIntegral RNA {})", fa(a[0])),
                FOp::RoundEven => format!("(fp.roundToIntegral RNE {})", fa(a[0])),
                FOp::Floor => format!("(fp.roundToIntegral RTN {})", fa(a[0])),
                FOp::Ceil => format!("(fp.roundToIntegral RTP {})", fa(a[0])),
                FOp::Trunc => format!("(fp.roundToIntegral RTZ {})", fa(a[0])),
                FOp::FromU => format!("((_ to_fp_unsigned {}) RNE {})", fpsort(*f), sym(a[0])),
                FOp::FromS => format!("((_ to_fp {}) RNE {})", fpsort(*f), sym(a[0])),
                FOp::Ext => format!("((_ to_fp 11 53) RNE {})", fa(a[0])),
                FOp::Tr => format!("((_ to_fp 8 24) RNE {})", fa(a[0])),
                FOp::ToU => {
                    // saturating
                    let x = fa(a[0]);
                    let max = fp_host_n(FOp::FromU, *f, *f, &[mask(w) as u64], 64);
                    return format!("(let ((x {})) (ite (fp.isNaN x) {z} (ite (fp.lt x ((_ to_fp {fs}) {fz})) {z} (ite (fp.geq x ((_ to_fp {fs}) {mx})) {m} ((_ fp.to_ubv {w}) RTZ x)))))",
                        x, z = cst(w, 0), fs = fpsort(*f), fz = cst(*f, 0), mx = cst(*f, max as u128), m = cst(w, mask(w)), w = w);
                }
                FOp::ToS => {
                    let x = fa(a[0]);
                    let max = fp_host_n(FOp::FromU, *f, *f, &[1u64 << (w - 1)], 64);
                    let min = max | 1u64 << (*f - 1);
                    return format!("(let ((x {})) (ite (fp.isNaN x) {z} (ite (fp.lt x ((_ to_fp {fs}) {mn})) {mi} (ite (fp.geq x ((_ to_fp {fs}) {mx})) {m} ((_ fp.to_sbv {w}) RTZ x)))))",
                        x, z = cst(w, 0), fs = fpsort(*f), mn = cst(*f, min as u128), mi = cst(w, 1u128 << (w - 1)), mx = cst(*f, max as u128), m = cst(w, mask(w - 1)), w = w);
                }
                FOp::Log | FOp::Exp | FOp::Rem => {
                    let mut s = format!("(uf_{:?}{}", op, f);
                    for x in a.iter() { s += " "; s += &sym(*x); }
                    return s + ")";
                }
            };
            let rf = w;
            format!("(let ((r {})) (ite (fp.isNaN r) {} (fp.to_ieee_bv r)))", r, cst(rf, if rf == 32 { 0x7fc00000 } else { 0x7ff8000000000000 }))
        }
    }
}
fn mux(bits: &[String], tab: &[u64], w: u8) -> String {
    // bits[0] is the least significant selector bit
    let mut memo: HashMap<(usize, Vec<u64>), usize> = HashMap::new();
    let mut defs: Vec<String> = vec![];
    fn go(bits: &[String], lvl: usize, tab: &[u64], w: u8, memo: &mut HashMap<(usize, Vec<u64>), usize>, defs: &mut Vec<String>) -> String {
        if tab.iter().all(|v| *v == tab[0]) { return cst(w, tab[0] as u128); }
        let key = (lvl, tab.to_vec());
        if let Some(i) = memo.get(&key) { return format!("m{}", i); }
        let h = tab.len() / 2;
        let hi = go(bits, lvl - 1, &tab[h..], w, memo, defs);
        let lo = go(bits, lvl - 1, &tab[..h], w, memo, defs);
        let e = if hi == lo { return hi } else { format!("(ite {} {} {})", bits[lvl - 1], hi, lo) };
        let i = defs.len();
        defs.push(e);
        memo.insert(key, i);
        format!("m{}", i)
    }
    let top = go(bits, bits.len(), tab, w, &mut memo, &mut defs);
    let mut s = String::new();
    for (i, d) in defs.iter().enumerate() { s += &format!("(let ((m{} {})) ", i, d); }
    s += &top;
    for _ in &defs { s.push(')'); }
    s
}
fn sort(w: u8) -> String { if w == 1 { "Bool".into() } else { format!("(_ BitVec {})", w) } }

impl Solver {
    pub fn new() -> Solver {
        Solver { p: None, cache: HashMap::default(), queries: 0, cache_hits: 0, time: 0.0, unknowns: 0, fallback: 0, timeout_ms: 4000, hard_timeout_ms: 120000, max_q: 0.0, sum_decisions: 0,
            log: std::env::var("SYMIR_SMTLOG").ok().map(|p| std::fs::File::create(p).unwrap()), fp: HashMap::default() }
    }
    pub fn reset_proc(&mut self) { self.p = None; }
    fn proc(&mut self) -> &mut Proc {
        let restart = match &self.p { Some(p) => p.bytes > 30_000_000, None => false };
        if restart { self.p = None; }
        if self.p.is_none() {
            let mut child = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("z3-new");
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            let mut p = Proc { child, inp, out, defined: Default::default(), declared: Default::default(), bytes: 0 };
            let pre = format!("(set-option :produce-models true)\n(set-option :timeout {})\n{}", self.timeout_ms, UFS);
            p.inp.write_all(pre.as_bytes()).unwrap();
            self.p = Some(p);
        }
        self.p.as_mut().unwrap()
    }
    /// is the conjunction satisfiable?  `cs` should already be sliced.
    pub fn check(&mut self, cs: &[T]) -> Res {
        let mut key: Vec<T> = vec![];
        for c in cs { if is_false(*c) { return Res::Unsat; } if !is_true(*c) { key.push(*c); } }
        key.sort(); key.dedup();
        for k in &key { if key.binary_search(&not(*k)).is_ok() { return Res::Unsat; } }
        if key.is_empty() { return Res::Sat(HashMap::default()); }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r { Some(m) => Res::Sat((**m).clone()), None => Res::Unsat };
        }
        let t0 = Instant::now();
        self.queries += 1;
        if std::env::var("SYMIR_Q").is_ok() { eprintln!("query {} conjuncts; last {}", key.len(), show(*cs.last().unwrap(), std::env::var("SYMIR_D").ok().and_then(|x| x.parse().ok()).unwrap_or(5))); }
        // floating-point arithmetic is much faster in a fresh process than in the incremental core
        let fp = key.iter().any(|k| self.has_fp(*k));
        let mut r = if fp { Res::Unknown } else { self.run_inc(&key) };
        if let Res::Unknown = r { if !fp { self.fallback += 1; } r = self.run_fresh(&key); }
        let el = t0.elapsed().as_secs_f64();
        self.time += el;
        if el > self.max_q { self.max_q = el; }
        if el > 2.0 && std::env::var("SYMIR_V").is_ok() { eprintln!("slow query {:.1}s: {} conjuncts; last {}", el, key.len(), show(*cs.last().unwrap(), std::env::var("SYMIR_D").ok().and_then(|x| x.parse().ok()).unwrap_or(4))); }
        match &r {
            Res::Sat(m) => {
                // verify the model against our own semantics
                let mut mm = Model::new(m.clone());
                for c in &key {
                    if mm.eval(*c) != 1 && !has_uf(*c) {
                        if std::env::var("SYMIR_V").is_ok() { eprintln!("model mismatch on {}", show(*c, 6)); }
                        panic!("solver model does not satisfy the query under the evaluator (encoding bug): {}", show(*c, 3));
                    }
                }
                self.cache.insert(key, Some(Rc::new(m.clone())));
            }
            Res::Unsat => { self.cache.insert(key, None); }
            Res::Unknown => { self.unknowns += 1; }
        }
        r
    }
    fn emit(key: &[T], defined: &mut HashSet<T, Fx>, declared: &mut HashSet<u32, Fx>, s: &mut String, vars: &mut Vec<u32>) {
        let mut stack: Vec<(T, bool)> = key.iter().map(|k| (*k, false)).collect();
        while let Some((t, done)) = stack.pop() {
            match &node(t).n {
                N::C(_) => continue,
                N::V(v) => { if declared.insert(*v) { *s += &format!("(declare-const v{} {})\n", v, sort(node(t).w)); } continue; }
                _ => {}
            }
            if done {
                if defined.insert(t) { *s += &format!("(define-fun t{} () {} {})\n", t, sort(node(t).w), expr(t)); }
                continue;
            }
            if defined.contains(&t) { continue; }
            stack.push((t, true));
            let mut ch = vec![];
            children(&node(t).n, &mut ch);
            for c in ch { stack.push((c, false)); }
        }
        let mut set: HashSet<u32> = HashSet::new();
        for k in key { for v in support(*k).iter() { if set.insert(*v) { vars.push(*v); } } }
        vars.sort();
    }
    fn has_fp(&mut self, t: T) -> bool {
        if let Some(b) = self.fp.get(&t) { return *b; }
        let b = match &node(t).n {
            N::C(_) | N::V(_) => false,
            N::F(..) => true,
            n => { let mut c = vec![]; children(n, &mut c); c.into_iter().any(|x| self.has_fp(x)) }
        };
        self.fp.insert(t, b);
        b
    }
    fn run_inc(&mut self, key: &[T]) -> Res {
        let mut s = String::new();
        let mut vars = vec![];
        let p = self.proc();
        Self::emit(key, &mut p.defined, &mut p.declared, &mut s, &mut vars);
        s += "(push)\n";
        for k in key { s += &format!("(assert {})\n", sym(*k)); }
        s += "(check-sat)\n";
        p.bytes += s.len();
        if let Some(l) = self.log.as_mut() { let _ = l.write_all(s.as_bytes()); let _ = l.flush(); }
        let p = self.p.as_mut().unwrap();
        if p.inp.write_all(s.as_bytes()).is_err() || p.inp.flush().is_err() { self.p = None; return Res::Unknown; }
        let r = read_line(&mut p.out);
        match r.as_str() {
            "unsat" => { p.inp.write_all(b"(pop)\n").unwrap(); Res::Unsat }
            "sat" => {
                let m = get_model(&mut p.inp, &mut p.out, &vars);
                p.inp.write_all(b"(pop)\n").unwrap();
                match m { Some(m) => Res::Sat(m), None => Res::Unknown }
            }
            _ => {
                if r.contains("error") && std::env::var("SYMIR_V").is_ok() { eprintln!("z3: {}", r); }
                self.p = None; Res::Unknown
            }
        }
    }
    fn run_fresh(&mut self, key: &[T]) -> Res {
        let mut s = format!("(set-option :produce-models true)\n(set-option :timeout {})\n{}", self.hard_timeout_ms, UFS);
        let mut vars = vec![];
        Self::emit(key, &mut Default::default(), &mut Default::default(), &mut s, &mut vars);
        for k in key { s += &format!("(assert {})\n", sym(*k)); }
        s += "(check-sat)\n";
        if let Ok(d) = std::env::var("SYMIR_DUMP") { let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.queries), &s); }
        let mut child = Command::new("z3-new").args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("z3-new");
        let mut inp = child.stdin.take().unwrap();
        let mut out = BufReader::new(child.stdout.take().unwrap());
        let ok = inp.write_all(s.as_bytes()).is_ok() && inp.flush().is_ok();
        let r = if !ok { Res::Unknown } else {
            match read_line(&mut out).as_str() {
                "unsat" => Res::Unsat,
                "sat" => match get_model(&mut inp, &mut out, &vars) { Some(m) => Res::Sat(m), None => Res::Unknown },
                e => { if std::env::var("SYMIR_V").is_ok() { eprintln!("z3 fresh: {}", e); } Res::Unknown }
            }
        };
        let _ = child.kill(); let _ = child.wait();
        r
    }
}
const UFS: &str = "(declare-fun uf_Log32 ((_ BitVec 32)) (_ BitVec 32))\n(declare-fun uf_Exp32 ((_ BitVec 32)) (_ BitVec 32))\n(declare-fun uf_Log64 ((_ BitVec 64)) (_ BitVec 64))\n(declare-fun uf_Exp64 ((_ BitVec 64)) (_ BitVec 64))\n(declare-fun uf_Rem32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))\n(declare-fun uf_Rem64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))\n";
fn has_uf(t: T) -> bool {
    fn go(t: T, seen: &mut HashSet<T>) -> bool {
        if !seen.insert(t) { return false; }
        if let N::F(op, ..) = &node(t).n { if matches!(op, FOp::Log | FOp::Exp | FOp::Rem) { return true; } }
        let mut c = vec![]; children(&node(t).n, &mut c);
        c.iter().any(|x| go(*x, seen))
    }
    go(t, &mut HashSet::new())
}
fn read_line(o: &mut impl BufRead) -> String {
    loop {
        let mut l = String::new();
        match o.read_line(&mut l) { Ok(0) | Err(_) => return "eof".into(), _ => {} }
        let l = l.trim().to_string();
        if !l.is_empty() { return l; }
    }
}
fn get_model(inp: &mut impl Write, out: &mut impl BufRead, vars: &[u32]) -> Option<HashMap<u32, u128, Fx>> {
    let mut m: HashMap<u32, u128, Fx> = HashMap::default();
    for ch in vars.chunks(200) {
        let mut s = String::from("(get-value (");
        for v in ch { s += &format!("v{} ", v); }
        s += "))\n";
        inp.write_all(s.as_bytes()).ok()?; inp.flush().ok()?;
        let mut txt = String::new();
        let mut depth = 0i32; let mut started = false;
        loop {
            let mut l = String::new();
            if out.read_line(&mut l).ok()? == 0 { return None; }
            for c in l.chars() { if c == '(' { depth += 1; started = true } if c == ')' { depth -= 1 } }
            txt += &l;
            if started && depth == 0 { break; }
        }
        if txt.contains("error") { return None; }
        for part in txt.split('(') {
            let part = part.trim().trim_end_matches(|c: char| c == ')' || c.is_whitespace());
            if part.is_empty() { continue; }
            let mut it = part.split_whitespace();
            let (n, v) = (it.next()?, it.next()?);
            let id: u32 = n.strip_prefix('v')?.parse().ok()?;
            let val = if v == "true" { 1 } else if v == "false" { 0 } else if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).ok()? } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).ok()? } else { return None };
            m.insert(id, val);
        }
    }
    Some(m)
}

// ---- weighted bit sums ---------------------------------------------------------------------

/// Flatten a term into sum of coef * bit (mod 2^w); None if it is not of that shape or too big.
fn flatten(t: T, co: u128, w: u8, out: &mut HashMap<T, u128, Fx>, k: &mut u128, budget: &mut usize, pops: &mut HashMap<T, u128, Fx>) -> bool {
    let m = mask(w);
    if co & m == 0 { return true; }
    if *budget == 0 { return false; }
    *budget -= 1;
    let nd = node(t);
    match &nd.n {
        N::C(v) => { *k = k.wrapping_add(v.wrapping_mul(co)) & m; true }
        N::Add(v, c) if nd.w == w || no_wrap(t) => {
            *k = k.wrapping_add(c.wrapping_mul(co)) & m;
            v.iter().all(|(x, c2)| flatten(*x, c2.wrapping_mul(co), w, out, k, budget, pops))
        }
        N::Not(x) if nd.w == w && w > 1 => { *k = k.wrapping_sub(co) & m; flatten(*x, co.wrapping_neg(), w, out, k, budget, pops) }
        N::Cat(h, l) => {
            let lw = width(*l);
            flatten(*h, co.wrapping_mul(1u128.checked_shl(lw as u32).unwrap_or(0)), w, out, k, budget, pops) && flatten(*l, co, w, out, k, budget, pops)
        }
        N::Pop(a) => {
            // pieces of at most 32 bits, split at concatenations
            fn piece(a: T, co: u128, m: u128, pops: &mut HashMap<T, u128, Fx>) {
                if let N::Cat(h, l) = node(a).n { piece(h, co, m, pops); piece(l, co, m, pops); return; }
                let n = width(a);
                if n > 32 { let mut i = 0; while i < n { let k = 32.min(n - i); piece(extract(a, i, k), co, m, pops); i += k; } return; }
                if node(a).hi == 0 { return; }
                let e = pops.entry(a).or_insert(0); *e = e.wrapping_add(co) & m;
            }
            piece(*a, co, m, pops);
            true
        }
        N::Ext(a, 0) if nd.w > 1 && (nd.w >= w || (node(*a).kz | mask(nd.w)) == mask(width(*a)) || co.checked_shl(nd.w as u32).unwrap_or(0) & m == 0) => flatten(*a, co, w, out, k, budget, pops),
        _ if nd.w == 1 => {
            // canonical polarity
            if let N::Not(x) = nd.n { *k = k.wrapping_add(co) & m; let e = out.entry(x).or_insert(0); *e = e.wrapping_sub(co) & m; return true; }
            let e = out.entry(t).or_insert(0); *e = e.wrapping_add(co) & m; true
        }
        N::Ite(c, a, b) if cval(*a).is_some() && cval(*b).is_some() => {
            let (x, y) = (cval(*a).unwrap(), cval(*b).unwrap());
            *k = k.wrapping_add(y.wrapping_mul(co)) & m;
            flatten(*c, x.wrapping_sub(y).wrapping_mul(co), w, out, k, budget, pops)
        }
        N::And(..) | N::Or(..) | N::Xor(..) | N::Not(..) | N::V(_) | N::Ext(..) | N::Ite(..) if nd.w <= 128 => {
            // weighted bits of the word
            (0..nd.w).all(|i| flatten(extract(t, i, 1), co.wrapping_mul(1u128 << i), w, out, k, budget, pops))
        }
        _ => { if std::env::var("SYMIR_V").is_ok() { eprintln!("flatten stops at w{} {}", nd.w, show(t, 3)); } false }
    }
}
/// Decide validity of a == b (both sums of bits).  Some(true): proved; Some(false)/None: not decided here.
pub fn sum_equal(s: &mut Solver, a: T, b: T) -> Option<bool> {
    let w = width(a);
    if w < 2 { return None; }
    let mut out: HashMap<T, u128, Fx> = HashMap::default();
    let mut k = 0u128;
    let mut budget = 4_000_000usize;
    let mut pops: HashMap<T, u128, Fx> = HashMap::default();
    if !flatten(a, 1, w, &mut out, &mut k, &mut budget, &mut pops) { return None; }
    if !flatten(b, !0u128, w, &mut out, &mut k, &mut budget, &mut pops) { return None; }
    // exclusive-or chains in one association
    {
        let mut n: HashMap<T, u128, Fx> = HashMap::default();
        for (t, c) in pops.drain() { let e = n.entry(xor_canon(t)).or_insert(0); *e = e.wrapping_add(c) & mask(w); }
        pops = n;
    }
    // carry-save adders: 2*pop(maj(a,b,c)) = pop(a)+pop(b)+pop(c)-pop(a^b^c)
    {
        let m = mask(w);
        loop {
            pops.retain(|_, c| *c != 0);
            let mut keys: Vec<T> = pops.keys().copied().collect();
            keys.sort();
            let mut changed = false;
            for t in keys.into_iter().rev() {
                let co = pops[&t];
                if co == 0 || co & 1 == 1 { continue; }
                let h = (sx(co, w) >> 1) as u128 & m;
                let (parts, x): (Vec<T>, T) = if let Some((a, b, c)) = as_maj(t) { (vec![a, b, c], xor_canon(xor(xor(a, b), c))) }
                    else if let N::And(p, q) = node(t).n { let x = xor_canon(xor(p, q)); if pops.get(&x).map_or(true, |v| *v == 0) { continue; } (vec![p, q], x) }
                    else { continue };
                pops.insert(t, 0);
                for a in parts { let e = pops.entry(xor_canon(a)).or_insert(0); *e = e.wrapping_add(h) & m; }
                let e = pops.entry(x).or_insert(0); *e = e.wrapping_sub(h) & m;
                changed = true;
            }
            if !changed { break; }
        }
        if std::env::var("SYMIR_V").is_ok() { for (t, c) in out.iter().take(3) { eprintln!("   bit {} * {}", c, show(*t, 9)); } }
        let mut rest: Vec<(T, u128)> = pops.drain().collect();
        rest.sort();
        if std::env::var("SYMIR_V").is_ok() { eprintln!("sum: {} pops left, {} bits", rest.len(), out.len()); let mut hist: std::collections::BTreeMap<(u128, usize, String), usize> = Default::default(); for (t, c) in rest.iter() { *hist.entry((*c, support(*t).len(), show(*t, 1).chars().take(4).collect())).or_insert(0) += 1; } for h in hist { eprintln!("    {:?}", h); }
 for (t, c) in rest.iter().filter(|(t, _)| support(*t).len() > 3).take(1) { eprintln!("   {} * {}", c, show(*t, 5)); } }
        for (t, co) in rest {
            let mut none = HashMap::default();
            if !(0..width(t)).all(|i| flatten(extract(t, i, 1), co, w, &mut out, &mut k, &mut budget, &mut none)) { return None; }
        }
    }
    out.retain(|_, c| *c != 0);
    if out.is_empty() { return Some(k == 0); }
    // connected components over variables at bit granularity
    let mut bitsup: HashMap<T, Rc<Vec<u64>>, Fx> = HashMap::default();
    let mut parent: HashMap<u64, u64, Fx> = HashMap::default();
    fn find(p: &mut HashMap<u64, u64, Fx>, x: u64) -> u64 { let mut r = x; loop { let q = *p.entry(r).or_insert(r); if q == r { break; } r = q; } let mut y = x; while y != r { let n = p[&y]; p.insert(y, r); y = n; } r }
    let keys: Vec<T> = { let mut k: Vec<T> = out.keys().copied().collect(); k.sort(); k };
    for t in &keys {
        let su = bit_support(*t, &mut bitsup);
        if su.is_empty() { return None; }
        let r0 = find(&mut parent, su[0]);
        for x in su[1..].iter() { let r = find(&mut parent, *x); parent.insert(r, r0); }
    }
    let mut comps: HashMap<u64, Vec<T>, Fx> = HashMap::default();
    for t in &keys { let su = bit_support(*t, &mut bitsup); let r = find(&mut parent, su[0]); comps.entry(r).or_default().push(*t); }
    let mut total_c = k;
    let m = mask(w);
    let mut cl: Vec<Vec<T>> = comps.into_values().collect();
    cl.sort();
    // structurally identical components need one query: canonicalise by renaming variables
    let mut proved: HashMap<String, u128> = HashMap::new();
    for c in cl {
        // constant value the component must have: evaluate at the zero model
        let mut m0 = Model::new(HashMap::default());
        let mut c0 = 0u128;
        for t in &c { c0 = c0.wrapping_add(m0.eval(*t).wrapping_mul(out[t])); }
        c0 &= m;
        let canon = canon_comp(&c, &out);
        if let Some(v) = canon.as_ref().and_then(|s| proved.get(s)) { if *v != c0 { return None; } total_c = total_c.wrapping_add(c0) & m; continue; }
        // reduce width: signed bounds of the component sum
        let (mut lo, mut hi) = (0i128, 0i128);
        for t in &c { let k = sx(out[t], w.min(127)); if k < 0 { lo += k } else { hi += k } }
        let c0s = sx(c0, w.min(127));
        let mut nw = 2u8; while nw < w && (lo - c0s.abs() < -(1i128 << (nw - 1)) || hi + c0s.abs() >= 1i128 << (nw - 1)) { nw += 1; }
        let mut sum = mk_c(nw, (c0 as u128).wrapping_neg());
        for t in &c { sum = add(sum, mul(zext(*t, nw), mk_c(nw, out[t]))); }
        let q = not(eq(sum, mk_c(nw, 0)));
        match s.check(&[q]) {
            Res::Unsat => {}
            _ => return Some(false),
        }
        s.sum_decisions += 1;
        if let Some(k) = canon { proved.insert(k, c0); }
        total_c = total_c.wrapping_add(c0) & m;
    }
    Some(total_c == 0)
}
/// an exclusive-or chain rebuilt from its sorted leaves
fn xor_canon(t: T) -> T {
    if !matches!(node(t).n, N::Xor(..)) { return t; }
    let mut leaves: HashMap<T, bool, Fx> = HashMap::default();
    let mut st = vec![t];
    let mut n = 0;
    while let Some(x) = st.pop() {
        n += 1;
        if n > 20000 { return t; }
        match node(x).n { N::Xor(a, b) => { st.push(a); st.push(b); } _ => { let e = leaves.entry(x).or_insert(false); *e = !*e; } }
    }
    let mut l: Vec<T> = leaves.into_iter().filter(|x| x.1).map(|x| x.0).collect();
    l.sort();
    let mut r = mk_c(width(t), 0);
    for x in l { r = xor(r, x); }
    r
}
/// truth table of t over the given leaves (bitwise operations only)
fn ttab(t: T, l: &[T], d: u32) -> Option<u8> {
    const V: [u8; 3] = [0xaa, 0xcc, 0xf0];
    if let Some(i) = l.iter().position(|x| *x == t) { return Some(V[i]); }
    if d == 0 { return None; }
    match node(t).n {
        N::And(a, b) => Some(ttab(a, l, d - 1)? & ttab(b, l, d - 1)?),
        N::Or(a, b) => Some(ttab(a, l, d - 1)? | ttab(b, l, d - 1)?),
        N::Xor(a, b) => Some(ttab(a, l, d - 1)? ^ ttab(b, l, d - 1)?),
        N::Not(a) => Some(!ttab(a, l, d - 1)?),
        N::Ite(c, a, b) if width(t) == 1 => { let c = ttab(c, l, d - 1)?; Some(c & ttab(a, l, d - 1)? | !c & ttab(b, l, d - 1)?) }
        _ => None,
    }
}
/// t as the bitwise majority of three terms
fn as_maj(t: T) -> Option<(T, T, T)> {
    fn parts(t: T) -> Option<(T, T)> { match node(t).n { N::And(a, b) | N::Or(a, b) | N::Xor(a, b) => Some((a, b)), _ => None } }
    if let N::Or(x, y) = node(t).n {
        for (x, y) in [(x, y), (y, x)] {
            if let (N::And(p, q), N::And(r, s)) = (&node(x).n, &node(y).n) {
                let u = xor(*p, *q);
                if u == *r { return Some((*p, *q, *s)); }
                if u == *s { return Some((*p, *q, *r)); }
            }
        }
    } else if !matches!(node(t).n, N::Xor(..) | N::Ite(..)) { return None; }
    // other spellings: search the sub-terms
    let mut sub: Vec<T> = vec![];
    fn coll(t: T, d: u32, sub: &mut Vec<T>) {
        let mut ch = vec![]; children(&node(t).n, &mut ch);
        for c in ch { if width(c) == width(t) { if !sub.contains(&c) { sub.push(c); } if d > 0 && parts(c).is_some() { coll(c, d - 1, sub); } } }
    }
    coll(t, 2, &mut sub);
    if sub.len() > 16 { return None; }
    for i in 0..sub.len() { for j in i + 1..sub.len() { for k in j + 1..sub.len() {
        let l = [sub[i], sub[j], sub[k]];
        if ttab(t, &l, 4) == Some(0xe8) { return Some((l[0], l[1], l[2])); }
    } } }
    None
}
fn bit_support(t: T, memo: &mut HashMap<T, Rc<Vec<u64>>, Fx>) -> Rc<Vec<u64>> {
    if let Some(r) = memo.get(&t) { return r.clone(); }
    let nd = node(t);
    let mut v: Vec<u64> = vec![];
    match &nd.n {
        N::V(x) => for i in 0..nd.w { v.push((*x as u64) << 8 | i as u64) },
        N::Ext(a, lo) => if let N::V(x) = node(*a).n { for i in 0..nd.w { v.push((x as u64) << 8 | (lo + i) as u64) } } else { v = (*bit_support(*a, memo)).clone() },
        n => { let mut c = vec![]; children(n, &mut c); for x in c { v.extend(bit_support(x, memo).iter()); } v.sort(); v.dedup(); }
    }
    let r = Rc::new(v);
    memo.insert(t, r.clone());
    r
}
/// a printed form of the component with variables renamed in order of first visit
fn canon_comp(c: &[T], out: &HashMap<T, u128, Fx>) -> Option<String> {
    let mut s = String::new();
    let mut vars: HashMap<u64, usize> = HashMap::new();
    let mut seen: HashMap<T, usize> = HashMap::new();
    fn go(t: T, s: &mut String, vars: &mut HashMap<u64, usize>, seen: &mut HashMap<T, usize>) -> bool {
        if s.len() > 200_000 { return false; }
        let nd = node(t);
        if let Some(i) = seen.get(&t) { s.push_str(&format!("@{}", i)); return true; }
        let leaf = match &nd.n { N::V(x) if nd.w == 1 => Some((*x as u64) << 8), N::Ext(a, lo) if nd.w == 1 => if let N::V(x) = node(*a).n { Some((x as u64) << 8 | *lo as u64) } else { None }, _ => None };
        if let Some(l) = leaf { let n = vars.len(); let i = *vars.entry(l).or_insert(n); s.push_str(&format!("x{}", i)); return true; }
        let mut ch = vec![];
        match &nd.n {
            N::C(v) => { s.push_str(&format!("c{}", v)); return true; }
            N::And(..) => s.push_str("(&"), N::Or(..) => s.push_str("(|"), N::Xor(..) => s.push_str("(^"), N::Not(..) => s.push_str("(~"), N::Ite(..) => s.push_str("(?"),
            _ => return false,
        }
        children(&nd.n, &mut ch);
        for c in ch { s.push(' '); if !go(c, s, vars, seen) { return false; } }
        s.push(')');
        let n = seen.len(); seen.insert(t, n);
        true
    }
    for t in c { s.push_str(&format!("{}*", out[t])); if !go(*t, &mut s, &mut vars, &mut seen) { return None; } s.push('+'); }
    Some(s)
}
