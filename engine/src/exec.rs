//! Symbolic interpreter: path exploration with solver-decided branches and merging at
//! immediate post-dominators.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub struct PcNode { pub c: T, pub up: Option<Rc<PcNode>>, pub len: u32 }
type Pc = Option<Rc<PcNode>>;

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub regs: Vec<Val>, pub bb: u32, pub ip: u32, pub sbase: usize, pub dst: u32, pub inv: Option<(u32, u32)> }

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub below: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub model: Rc<RefCell<Model>>,
    pub nin: Vec<T>,
    pub obs: Vec<T>,
    pub exc: u64,
    pub steps: u64,
    pub last_panic: Rc<str>,
}
#[derive(Clone, Copy, PartialEq)]
pub struct Stop { depth: usize, bb: u32 }

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: String, pub msg: String, pub inputs: Vec<u64>, pub observed: Vec<u64> }
const MAX_LEAVES: usize = 2000;
#[derive(Default)]
pub struct Stats {
    pub steps: u64, pub forks: u64, pub closing: u32, pub merges: u64, pub merge_fails: u64, pub paths: u64, pub killed: u64, pub table_decisions: u64,
    pub checks: BTreeMap<String, (u64, u64)>, pub covers: BTreeMap<String, u64>, pub fns: BTreeSet<u32>,
}
pub struct Engine {
    pub m: Module,
    pub sol: Solver,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub traces: Vec<(Vec<u64>, Vec<Option<u64>>)>,
    pub incomplete: Vec<String>,
    leaves: Vec<Vec<T>>,
    builtins: HashMap<u32, Option<u32>>,
    invars: HashMap<(usize, u8), T>,
    garbage: u32,
    glob_base: Option<Mem>,
    pub merge_level: u32,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    pub case: Option<u64>,
    pub case_probe: bool,
    pub case_state: Option<(State, u64)>,
    pub max_traces: usize,
    pub expected_panics: bool,
    pub verbose: bool,
    pub stop_first: bool,
    pub max_steps: u64,
    /// run on these inputs instead of solver variables
    pub concrete: Option<Vec<u64>>,
    pub trace_calls: bool,
    pub hot: HashMap<u32, u64>,
    pub fork_sites: HashMap<(u32, u32), u64>,
}

enum Ev { AtStop(State), Escaped(State), Fork(Vec<State>, Option<Stop>), End }
type R<X> = Result<X, Stp>;
/// reasons an instruction does not simply complete
enum Stp { Kill, Fork(Vec<State>), Viol(String, String), Throw, Err(String), CaseProbe }

fn mkv(t: T) -> Val { match node(t).n { N::C(v) if node(t).w <= 64 => Val::C(v as u64), _ => Val::S(t) } }
#[inline]
fn m64(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl Engine {
    pub fn new(m: Module) -> Engine {
        Engine {
            m, sol: Solver::new(), st: Stats::default(), viol: vec![], traces: vec![], incomplete: vec![], builtins: HashMap::new(), invars: HashMap::new(), garbage: 0,
            glob_base: None, leaves: vec![], merge_level: 1, deadline: None, max_paths: 1_000_000, case: None, case_probe: false, case_state: None, max_traces: 8, expected_panics: false, verbose: false, stop_first: false, max_steps: 40_000_000, concrete: None,
            trace_calls: false, hot: HashMap::new(), fork_sites: HashMap::new(),
        }
    }
    fn init_globals(&mut self) -> Mem {
        let mut mem = Mem::new();
        let mut map = HashMap::new();
        for i in 0..self.m.globals.len() as u32 {
            let (ty, size, konst) = { let g = &self.m.globals[i as usize]; (g.ty, g.size, g.konst) };
            let id = GLOBAL0 + i as u64;
            let mut o = Obj::new(id << SLOT, size, if konst { 2 } else { 3 }, true);
            if let Some(v) = self.m.global_init(i) { self.put(&mut o, 0, ty, &v); }
            map.insert(id, Rc::new(o));
        }
        mem.globs = Rc::new(map);
        mem
    }
    /// write a (constant or symbolic) value of a type into an object
    fn put(&self, o: &mut Obj, off: u64, ty: Ty, v: &Val) {
        match &self.m.tys[ty as usize] {
            TyK::Struct(f, _) => {
                let a = match v { Val::A(a) => a.clone(), Val::U => { return; } _ => panic!("struct store") };
                for i in 0..f.len() { let (fo, ft) = self.m.field_off(ty, i); self.put(o, off + fo, ft, &a[i]); }
            }
            TyK::Array(n, e) => {
                let (n, e) = (*n, *e);
                let a = match v { Val::A(a) => a.clone(), Val::U => return, _ => panic!("array store") };
                let es = self.m.size(e);
                for i in 0..n { self.put(o, off + es * i, e, &a[i as usize]); }
            }
            TyK::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let eb = self.m.bits(e);
                let a = match v { Val::A(a) => a.clone(), Val::U => { for i in 0..self.m.size(ty) { o.set(off + i, B::U); } return; } _ => panic!("vector store") };
                if eb % 8 == 0 { for i in 0..n as u64 { self.put(o, off + i * eb as u64 / 8, e, &a[i as usize]); } }
                else { let t = self.bits_to_term(&a, eb); let nb = self.m.size(ty); self.put_term(o, off, nb, zext(t, (nb * 8) as u8)); }
            }
            _ => {
                let n = self.m.size(ty);
                match v {
                    Val::C(x) => { if n <= 8 { o.write_conc(off, n, *x) } else { o.write_term(off, n, mk_c((n * 8) as u8, *x as u128)) } }
                    Val::S(t) => { let w = (n * 8) as u8; let t = if width(*t) < w { zext(*t, w) } else { *t }; self.put_term(o, off, n, t) }
                    Val::U => for i in 0..n { o.set(off + i, B::U) },
                    Val::A(_) => panic!("aggregate into scalar"),
                }
            }
        }
    }
    fn put_term(&self, o: &mut Obj, off: u64, n: u64, t: T) { o.write_term(off, n, t) }
    fn bits_to_term(&self, a: &[Val], eb: u32) -> T {
        let mut r: Option<T> = None;
        for v in a.iter() { let t = self.tm(v, eb); r = Some(match r { None => t, Some(p) => cat(t, p) }); }
        r.unwrap()
    }
    #[inline]
    fn tm(&self, v: &Val, w: u32) -> T { match v { Val::C(x) => mk_c(w as u8, *x as u128), Val::S(t) => { debug_assert_eq!(width(*t) as u32, w); *t } Val::U => mk_c(w as u8, 0), Val::A(_) => panic!("aggregate as term") } }
    fn fresh_garbage(&mut self) -> T { self.garbage += 1; mk_var(8, format!("uninit{}", self.garbage)) }

    // ---- entry ---------------------------------------------------------------------------
    pub fn initial(&mut self, entry: &str) -> State {
        let fid = *self.m.fn_by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        if self.glob_base.is_none() { self.glob_base = Some(self.init_globals()); }
        let f = self.get_fn(fid);
        State {
            top: Frame { f, regs: vec![Val::U; f.nregs as usize], bb: 0, ip: 0, sbase: 0, dst: NODST, inv: None },
            below: vec![], mem: self.glob_base.as_ref().unwrap().clone(), pc: None, model: Rc::new(RefCell::new(Model::new(HashMap::default()))),
            nin: vec![], obs: vec![], exc: 0, steps: 0, last_panic: "".into(),
        }
    }
    fn get_fn(&mut self, id: u32) -> &'static Func {
        let f = self.m.func(id).unwrap_or_else(|| panic!("function {} has no body", self.m.fns[id as usize].name));
        self.st.fns.insert(id);
        unsafe { &*Rc::as_ptr(&f) } // parsed functions live as long as the module
    }
    pub fn explore(&mut self, s: State) {
        let (a, b) = self.run(s, None);
        debug_assert!(a.is_empty() && b.is_empty());
    }
    fn out_of_budget(&mut self) -> bool {
        if let Some(d) = self.deadline { if Instant::now() > d { if self.incomplete.is_empty() { self.incomplete.push("time budget exhausted".into()); } return true; } }
        if self.st.paths > self.max_paths { if self.incomplete.is_empty() { self.incomplete.push("path budget exhausted".into()); } return true; }
        if self.incomplete.len() > 20 { return true; }
        if self.stop_first && !self.viol.is_empty() { return true; }
        false
    }
    fn run(&mut self, s: State, stop: Option<Stop>) -> (Vec<State>, Vec<State>) {
        let mut work = vec![s];
        let mut stopped = vec![];
        let mut escaped = vec![];
        let mut first = true;
        while let Some(s) = work.pop() {
            if self.out_of_budget() { return (vec![], vec![]); }
            let at = |s: &State| match stop { Some(p) => s.below.len() + 1 == p.depth && s.top.bb == p.bb && s.top.ip == 0, None => false };
            if first { first = false; if at(&s) { stopped.push(s); continue; } }
            match self.step_until(s, stop) {
                Ev::AtStop(s) => stopped.push(s),
                Ev::Escaped(s) => escaped.push(s),
                Ev::End => {}
                Ev::Fork(ss, None) => { for s in ss { if at(&s) { stopped.push(s) } else { work.push(s) } } }
                Ev::Fork(ss, Some(p)) => {
                    if Some(p) == stop || self.merge_level == 0 {
                        for s in ss { if at(&s) { stopped.push(s) } else { work.push(s) } }
                        continue;
                    }
                    let depth = p.depth;
                    let mut joined = vec![];
                    for a in ss { let (x, e) = self.run(a, Some(p)); joined.extend(x); for s in e { self.leave(s, stop, &mut work, &mut escaped); } }
                    let _ = depth;
                    let joined = self.merge_all(joined);
                    for s in joined { if at(&s) { stopped.push(s) } else { work.push(s) } }
                }
            }
            // opportunistic merging of what has arrived so far keeps loops linear
            if stop.is_some() && stopped.len() >= 2 && work.is_empty() { stopped = self.merge_all(stopped); }
        }
        (stopped, escaped)
    }
    fn leave(&mut self, s: State, stop: Option<Stop>, work: &mut Vec<State>, escaped: &mut Vec<State>) {
        match stop { Some(p) if s.below.len() + 1 < p.depth => escaped.push(s), _ => work.push(s) }
    }

    // ---- path conditions -----------------------------------------------------------------
    fn push_pc(&self, s: &mut State, c: T) {
        if is_true(c) { return; }
        // split conjunctions
        if let N::And(a, b) = node(c).n { self.push_pc(s, a); self.push_pc(s, b); return; }
        let len = s.pc.as_ref().map_or(0, |p| p.len) + 1;
        s.pc = Some(Rc::new(PcNode { c, up: s.pc.take(), len }));
    }
    fn pc_slice(&self, s: &State, q: T) -> Vec<T> {
        let mut all: Vec<(T, Rc<Vec<u32>>)> = vec![];
        let mut p = s.pc.as_ref();
        while let Some(n) = p { all.push((n.c, support(n.c))); p = n.up.as_ref(); }
        let mut vars: std::collections::HashSet<u32, Fx> = support(q).iter().copied().collect();
        let mut used = vec![false; all.len()];
        loop {
            let mut ch = false;
            for (i, (_, su)) in all.iter().enumerate() {
                if used[i] { continue; }
                if su.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; for v in su.iter() { vars.insert(*v); } }
            }
            if !ch { break; }
        }
        let mut r: Vec<T> = all.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, x)| x.0).collect();
        r.push(q);
        r
    }
    /// model of pc && q, extending the state's current model; Ok(None) = infeasible
    fn feasible(&mut self, s: &State, q: T) -> Result<Option<Rc<RefCell<Model>>>, ()> {
        if is_false(q) { return Ok(None); }
        if s.model.borrow_mut().eval(q) == 1 { return Ok(Some(s.model.clone())); }
        let cs = self.pc_slice(s, q);
        if let Some(r) = table_sat(&cs) {
            self.st.table_decisions += 1;
            return Ok(r.map(|m| {
                let mut v = s.model.borrow().vals.clone();
                for (k, x) in m { v.insert(k, x); }
                Rc::new(RefCell::new(Model::new(v)))
            }));
        }
        self.feasible_solver(s, cs, q)
    }
    /// the same, always put to the solver
    fn feasible_q(&mut self, s: &State, q: T) -> Result<Option<Rc<RefCell<Model>>>, ()> {
        if is_false(q) { return Ok(None); }
        let cs = self.pc_slice(s, q);
        self.feasible_solver(s, cs, q)
    }
    fn feasible_solver(&mut self, s: &State, cs: Vec<T>, q: T) -> Result<Option<Rc<RefCell<Model>>>, ()> {
        let before = self.sol.time;
        let r = self.sol.check(&cs);
        if self.verbose && self.sol.time - before > 2.0 { eprintln!("   slow at {}", self.where_(s)); }
        match r {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut v = s.model.borrow().vals.clone();
                for (k, x) in m { v.insert(k, x); }
                Ok(Some(Rc::new(RefCell::new(Model::new(v)))))
            }
            Res::Unknown => { if let Some(m) = self.guess(s, q, 100) { return Ok(Some(m)); } self.incomplete.push(format!("solver gave no answer (branch/query) at {}", self.where_(s))); Err(()) }
        }
    }
    /// a few arbitrary assignments: a satisfying one is as good as a solver model (it is evaluated
    /// against the whole path condition), failing to find one says nothing
    fn guess(&mut self, s: &State, q: T, n: usize) -> Option<Rc<RefCell<Model>>> {
        let cs = self.pc_slice(s, q);
        let mut vars: Vec<u32> = vec![];
        for c in &cs { vars.extend(support(*c).iter()); }
        vars.sort(); vars.dedup();
        let mut x = 0x9e3779b97f4a7c15u64;
        for i in 0..n {
            let mut v = s.model.borrow().vals.clone();
            for k in &vars {
                let mut r = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
                let a = r() as u128 | (r() as u128) << 64;
                let b = match i % 4 { 0 => a, 1 => a & r() as u128 & r() as u128, 2 => if a & 3 == 0 { !0 } else { a }, _ => if a & 3 != 0 { 0 } else { a >> 2 } };
                v.insert(*k, b & mask(ts().var_w[*k as usize]));
            }
            let mut m = Model::new(v);
            if cs.iter().all(|c| m.eval(*c) == 1) { return Some(Rc::new(RefCell::new(m))); }
        }
        None
    }
    fn where_(&self, s: &State) -> String {
        let mut v = vec![];
        v.push(format!("{}:{}", self.m.fns[s.top.f.id as usize].pretty, s.top.f.blocks[s.top.bb as usize].name));
        for f in s.below.iter().rev().take(4) { v.push(self.m.fns[f.f.id as usize].pretty.to_string()); }
        v.join(" < ")
    }
    /// decide a boolean value: Ok(b) if forced, otherwise fork
    fn decide(&mut self, s: &State, c: T) -> Result<Option<bool>, ()> {
        if let Some(v) = cval(c) { return Ok(Some(v == 1)); }
        let cur = s.model.borrow_mut().eval(c) == 1;
        let other = if cur { not(c) } else { c };
        match self.feasible(s, other)? { None => Ok(Some(cur)), Some(_) => Ok(None) }
    }
    /// split a state on a condition into the feasible sides (true side first)
    fn split(&mut self, s: State, c: T) -> (Option<State>, Option<State>) {
        let ft = self.feasible(&s, c).unwrap_or(None);
        let ff = self.feasible(&s, not(c)).unwrap_or(None);
        match (ft, ff) {
            (Some(mt), Some(mf)) => {
                self.st.forks += 1;
                if self.verbose { *self.fork_sites.entry((s.top.f.id, s.top.bb)).or_insert(0) += 1; }
                let mut a = s.clone(); let mut b = s;
                self.push_pc(&mut a, c); a.model = mt;
                self.push_pc(&mut b, not(c)); b.model = mf;
                (Some(a), Some(b))
            }
            (Some(_), None) => (Some(s), None),
            (None, Some(_)) => (None, Some(s)),
            (None, None) => (None, None),
        }
    }
    /// all feasible values of a term (forks on them)
    fn concretize(&mut self, s: &State, t: T, limit: usize) -> R<u64> {
        if let Some(v) = cval(t) { return Ok(v as u64); }
        let w = width(t);
        let v0 = s.model.borrow_mut().eval(t);
        let e0 = eq(t, mk_c(w, v0));
        match self.decide(s, e0) { Ok(Some(true)) => return Ok(v0 as u64), Ok(_) => {} Err(()) => return Err(Stp::Kill) }
        let mut rest = s.clone();
        let mut outs = vec![];
        loop {
            let v = rest.model.borrow_mut().eval(t);
            let e = eq(t, mk_c(w, v));
            let mut a = rest.clone();
            self.push_pc(&mut a, e);
            outs.push(a);
            match self.feasible(&rest, not(e)) {
                Ok(Some(m)) => { self.push_pc(&mut rest, not(e)); rest.model = m; }
                Ok(None) => break,
                Err(()) => break,
            }
            if outs.len() > limit { self.incomplete.push(format!("too many values to concretise at {}: {}", self.where_(s), show(t, 3))); break; }
        }
        self.st.forks += outs.len() as u64 - 1;
        // disjointness for merging: conditions are equalities to distinct values
        Err(Stp::Fork(outs))
    }

    // ---- merging -------------------------------------------------------------------------
    fn merge_all(&mut self, v: Vec<State>) -> Vec<State> {
        if v.len() < 2 { return v; }
        let mut out: Vec<State> = vec![];
        'n: for s in v {
            for i in 0..out.len() {
                if let Some(m) = self.try_merge(&out[i], &s) { out[i] = m; self.st.merges += 1; continue 'n; }
            }
            out.push(s);
        }
        if out.len() > 1 { self.st.merge_fails += 1; }
        out
    }
    fn is_ptrish(v: u64) -> bool { let id = v >> SLOT; (id >= GLOBAL0 && id < GLOBAL0 + 0x10000) || (id >= HEAP0 && id < HEAP0 + 0x1000000) || (id >= STACK0 && id < STACK0 + 0x100000) || id == FN0 }
    fn can_mix(&self, a: u64, b: u64, w: u32) -> bool {
        if w < 64 { return true; }
        if Self::is_ptrish(a) || Self::is_ptrish(b) { return a >> SLOT == b >> SLOT && self.merge_level >= 2; }
        if self.merge_level < 2 { return false; }
        true
    }
    fn mergev(&self, c: T, a: &Val, b: &Val) -> Option<Val> {
        if a == b { return Some(a.clone()); }
        match (a, b) {
            (Val::U, _) | (_, Val::U) => Some(Val::U),
            (Val::C(x), Val::C(y)) => {
                // width unknown for constants: only mergeable in 64 bits if both small or bool-like
                let _ = (x, y);
                None
            }
            (Val::A(x), Val::A(y)) if x.len() == y.len() => { let mut r = vec![]; for i in 0..x.len() { r.push(self.mergev(c, &x[i], &y[i])?); } Some(Val::A(Rc::new(r))) }
            (Val::S(t), Val::C(y)) => { let w = width(*t); Some(mkv(ite(c, *t, mk_c(w, *y as u128)))) }
            (Val::C(x), Val::S(t)) => { let w = width(*t); Some(mkv(ite(c, mk_c(w, *x as u128), *t))) }
            (Val::S(t), Val::S(u)) if width(*t) == width(*u) => Some(mkv(ite(c, *t, *u))),
            _ => None,
        }
    }
    fn mergev_w(&self, c: T, a: &Val, b: &Val, ty: Option<Ty>) -> Option<Val> {
        if a == b { return Some(a.clone()); }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let w = match ty { Some(t) => match &self.m.tys[t as usize] { TyK::Int(w) => *w, TyK::F32 => 32, TyK::F64 | TyK::Ptr => 64, _ => return None }, None => return None };
            if !self.can_mix(*x, *y, w) { return None; }
            return Some(mkv(ite(c, mk_c(w as u8, *x as u128), mk_c(w as u8, *y as u128))));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            if x.len() != y.len() { return None; }
            let ets: Vec<Option<Ty>> = match ty { Some(t) => match &self.m.tys[t as usize] { TyK::Struct(f, _) => f.iter().map(|x| Some(*x)).collect(), TyK::Array(_, e) | TyK::Vector(_, e) => vec![Some(*e); x.len()], _ => return None }, None => vec![None; x.len()] };
            let mut r = vec![];
            for i in 0..x.len() { r.push(self.mergev_w(c, &x[i], &y[i], ets[i])?); }
            return Some(Val::A(Rc::new(r)));
        }
        self.mergev(c, a, b)
    }
    fn try_merge(&mut self, a: &State, b: &State) -> Option<State> {
        if a.below.len() != b.below.len() || a.top.f.id != b.top.f.id || a.top.bb != b.top.bb || a.top.ip != b.top.ip || a.nin.len() != b.nin.len() || a.obs.len() != b.obs.len() || a.top.sbase != b.top.sbase { return None; }
        if a.mem.stack.len() != b.mem.stack.len() || a.exc != b.exc { return None; }
        for i in 0..a.below.len() { if !Rc::ptr_eq(&a.below[i], &b.below[i]) { return None; } }
        for (x, y) in a.nin.iter().zip(&b.nin) { if x != y { return None; } }
        if a.mem.next != b.mem.next && self.merge_level < 2 { return None; }
        // common prefix of the path conditions
        let (mut pa, mut pb) = (a.pc.clone(), b.pc.clone());
        let (mut ca, mut cb) = (vec![], vec![]);
        let l = |p: &Pc| p.as_ref().map_or(0, |n| n.len);
        let same = |x: &Pc, y: &Pc| match (x, y) { (None, None) => true, (Some(p), Some(q)) => Rc::ptr_eq(p, q), _ => false };
        while !same(&pa, &pb) {
            if l(&pa) >= l(&pb) { let n = pa.clone().unwrap(); ca.push(n.c); pa = n.up.clone(); }
            else { let n = pb.clone().unwrap(); cb.push(n.c); pb = n.up.clone(); }
        }
        ca.reverse(); cb.reverse();
        if ca.is_empty() || cb.is_empty() { return None; }
        // selector: what distinguishes a from b.  The full conjunction of a is always valid; the
        // first conjunct alone is enough when b's first conjunct is its negation.
        let conj = |v: &[T]| v.iter().fold(tru(), |x, y| and(x, *y));
        let (ja, jb) = (conj(&ca), conj(&cb));
        let sel = if cb[0] == not(ca[0]) { ca[0] } else if cb.len() == 1 { not(cb[0]) } else { ja };
        // registers
        let live = a.top.f.blocks[a.top.bb as usize].live_in.as_ref().unwrap();
        if a.top.ip != 0 { return None; }
        let rty = self.reg_types(a.top.f);
        let mut regs = vec![Val::U; a.top.regs.len()];
        for r in live {
            let r = *r as usize;
            regs[r] = self.mergev_w(sel, &a.top.regs[r], &b.top.regs[r], rty[r])?;
        }
        // memory
        let mut mem = a.mem.clone();
        let stack_n = a.mem.stack.len();
        for i in 0..stack_n {
            if !Rc::ptr_eq(&a.mem.stack[i], &b.mem.stack[i]) {
                let o = self.merge_obj(sel, &a.mem.stack[i], &b.mem.stack[i])?;
                mem.stack[i] = Rc::new(o);
            }
        }
        let chunks = a.mem.heap.len().max(b.mem.heap.len());
        for k in 0..chunks {
            match (a.mem.heap.get(k), b.mem.heap.get(k)) {
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
                (Some(x), Some(y)) => {
                    let mut nc: Vec<Option<Rc<Obj>>> = (**x).clone();
                    for j in 0..64 {
                        match (&x[j], &y[j]) {
                            (Some(p), Some(q)) => if !Rc::ptr_eq(p, q) { nc[j] = Some(Rc::new(self.merge_obj(sel, p, q)?)); },
                            (None, Some(q)) => nc[j] = Some(q.clone()),
                            _ => {}
                        }
                    }
                    mem.heap[k] = Rc::new(nc);
                }
                (None, Some(y)) => mem.heap.push(y.clone()),
                _ => {}
            }
        }
        mem.next = a.mem.next.max(b.mem.next);
        if !Rc::ptr_eq(&a.mem.globs, &b.mem.globs) {
            let g = Rc::make_mut(&mut mem.globs);
            for (id, x) in a.mem.globs.iter() { let y = &b.mem.globs[id]; if !Rc::ptr_eq(x, y) { g.insert(*id, Rc::new(self.merge_obj(sel, x, y)?)); } }
        }
        let mut obs = vec![];
        for (x, y) in a.obs.iter().zip(&b.obs) { obs.push(ite(sel, *x, *y)); }
        let mut s = State { top: Frame { regs, ..a.top.clone() }, below: a.below.clone(), mem, pc: pa, model: a.model.clone(), nin: a.nin.clone(), obs, exc: a.exc, steps: a.steps.max(b.steps), last_panic: a.last_panic.clone() };
        self.push_pc(&mut s, or(ja, jb));
        Some(s)
    }
    fn reg_types(&mut self, f: &'static Func) -> Rc<Vec<Option<Ty>>> {
        thread_local!(static C: RefCell<HashMap<u32, Rc<Vec<Option<Ty>>>>> = RefCell::new(HashMap::new()));
        if let Some(r) = C.with(|c| c.borrow().get(&f.id).cloned()) { return r; }
        let mut v: Vec<Option<Ty>> = vec![None; f.nregs as usize];
        let i1 = self.m.ty(TyK::Int(1)); let ptr = self.m.ty(TyK::Ptr);
        for b in &f.blocks {
            for (d, t, _) in &b.phis { v[*d as usize] = Some(*t); }
            for i in &b.insts {
                if i.dst == NODST { continue; }
                v[i.dst as usize] = match &i.k {
                    IK::Bin(_, t, ..) | IK::FNeg(t, _) | IK::Load(t, _) | IK::Freeze(t, _) | IK::Select(_, t, ..) | IK::InsertValue(t, ..) | IK::InsertElt(t, ..) | IK::Rmw(_, t, ..) => Some(*t),
                    IK::ICmp(_, t, ..) | IK::FCmp(_, t, ..) => if matches!(self.m.tys[*t as usize], TyK::Vector(..)) { None } else { Some(i1) },
                    IK::Cast(_, _, t, _) => Some(*t),
                    IK::Alloca(..) | IK::Gep(..) => Some(ptr),
                    IK::Call(c) => Some(c.ret),
                    _ => None,
                };
            }
        }
        let r = Rc::new(v);
        C.with(|c| c.borrow_mut().insert(f.id, r.clone()));
        r
    }
    fn merge_obj(&mut self, c: T, a: &Obj, b: &Obj) -> Option<Obj> {
        if a.size != b.size || a.base != b.base { return None; }
        let mut o = a.clone();
        for p in 0..a.pages.len() {
            if a.pages[p].same(&b.pages[p]) { continue; }
            let lo = p * PG; let hi = ((p + 1) * PG).min(a.size as usize);
            let mut w = lo;
            while w < hi {
                let e = (w + 8).min(hi);
                let mut diff = false;
                for i in w..e { if a.get(i as u64) != b.get(i as u64) { diff = true; break; } }
                if diff { self.merge_chunk(c, a, b, &mut o, w as u64, (e - w) as u64)?; }
                w = e;
            }
        }
        Some(o)
    }
    fn merge_chunk(&mut self, c: T, a: &Obj, b: &Obj, o: &mut Obj, off: u64, n: u64) -> Option<()> {
        let mut anyd = false;
        for i in 0..n { if a.get(off + i) != b.get(off + i) { anyd = true; } }
        if !anyd { return Some(()); }
        // choose granularity: halves that do not differ, or contain uninitialised bytes, are split
        let has_u = |x: &Obj| (0..n).any(|i| x.get(off + i) == B::U);
        let all_u = |x: &Obj| (0..n).all(|i| x.get(off + i) == B::U);
        // one side never initialised: on the stack it is a dead slot, keep the other side's content;
        // on the heap the content is arbitrary on that side
        for (x, y, xa) in [(a, b, true), (b, a, false)] {
            if all_u(x) && !has_u(y) {
                let t = { let mut z = y.clone(); z.read_term(off, n, &mut || unreachable!()) };
                let whole = (0..n).all(|i| matches!(y.get(off + i), B::C(_)));
                if x.kind == 1 || (whole && n == 8 && Self::is_ptrish(y.read_conc(off, 8).unwrap())) { o.write_term(off, n, t); return Some(()); }
                let mut g = self.fresh_garbage();
                for _ in 1..n { g = cat(self.fresh_garbage(), g); }
                o.write_term(off, n, if xa { ite(c, g, t) } else { ite(c, t, g) });
                return Some(());
            }
        }
        if n > 1 {
            let h = n.next_power_of_two() / 2;
            let d0 = (0..h).any(|i| a.get(off + i) != b.get(off + i));
            let d1 = (h..n).any(|i| a.get(off + i) != b.get(off + i));
            let splittable = |x: &Obj| { // does a term straddle the middle?
                !matches!((x.get(off + h - 1), x.get(off + h)), (B::S(t, i), B::S(u, j)) if t == u && j == i + 1)
            };
            let conc_all = |x: &Obj| (0..n).all(|i| matches!(x.get(off + i), B::C(_)));
            let keep_whole = n == 8 && conc_all(a) && conc_all(b);
            if keep_whole {
                let (x, y) = (a.read_conc(off, 8).unwrap(), b.read_conc(off, 8).unwrap());
                // two concrete words: merging pointers/lengths is governed by the level
                if Self::is_ptrish(x) || Self::is_ptrish(y) || (d0 && !d1 && x >> 32 == 0 && y >> 32 == 0 && x.max(y) < 1 << 20 && self.merge_level < 2) {
                    // may be a length or pointer; only refuse when it looks like one 64-bit value
                    if Self::is_ptrish(x) || Self::is_ptrish(y) { if !self.can_mix(x, y, 64) { return None; } }
                }
            }
            if has_u(a) || has_u(b) || (!keep_whole && splittable(a) && splittable(b)) || !d0 || !d1 {
                if !(keep_whole && d0 && d1) {
                    self.merge_chunk(c, a, b, o, off, h)?;
                    return self.merge_chunk(c, a, b, o, off + h, n - h);
                }
            }
        }
        let rd = |x: &Obj| { let mut y = x.clone(); y.read_term(off, n, &mut || unreachable!()) };
        let t = ite(c, rd(a), rd(b));
        o.write_term(off, n, t);
        Some(())
    }

    // ---- stepping ------------------------------------------------------------------------
    fn goto(&mut self, s: &mut State, to: u32) {
        let from = s.top.bb;
        let f = s.top.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let v = inc.iter().find(|x| x.0 == from).map(|x| self.ev(s, &x.1)).expect("phi");
                s.top.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, _, inc)| { let x = inc.iter().find(|x| x.0 == from).expect("phi"); self.ev(s, &x.1) }).collect();
                for (p, v) in b.phis.iter().zip(vals) { s.top.regs[p.0 as usize] = v; }
            }
        }
        s.top.bb = to; s.top.ip = 0;
    }
    #[inline]
    fn ev(&self, s: &State, o: &Opd) -> Val { match o { Opd::R(r) => s.top.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }

    fn step_until(&mut self, mut s: State, stop: Option<Stop>) -> Ev {
        let mut budget = 0u32;
        loop {
            budget += 1;
            if budget & 0xfff == 0 && self.out_of_budget() { return Ev::End; }
            self.st.steps += 1; s.steps += 1;
            if s.steps > self.max_steps { self.report(&s, "hang", "termination", "a path exceeded the step limit"); return Ev::End; }
            let f = s.top.f;
            let ins = &f.blocks[s.top.bb as usize].insts[s.top.ip as usize];
            let depth = s.below.len();
            match &ins.k {
                IK::Br(t) => {
                    self.goto(&mut s, *t);
                    if let Some(p) = stop { if p.bb == *t && depth + 1 == p.depth { return Ev::AtStop(s); } }
                    continue;
                }
                IK::CondBr(c, x, y) => {
                    let cv = match c { Opd::R(r) => &s.top.regs[*r as usize], Opd::K(v) => v };
                    match cv {
                        Val::C(b) => {
                            let t = if *b & 1 == 1 { *x } else { *y };
                            self.goto(&mut s, t);
                            if let Some(p) = stop { if p.bb == t && depth + 1 == p.depth { return Ev::AtStop(s); } }
                            continue;
                        }
                        Val::S(c) => {
                            let c = *c;
                            let pd = f.ipdom[s.top.bb as usize];
                            let (a, b) = self.split(s, c);
                            let mut v = vec![];
                            let both = a.is_some() && b.is_some();
                            if let Some(mut b) = b { self.goto(&mut b, *y); v.push(b); }
                            if let Some(mut a) = a { self.goto(&mut a, *x); v.push(a); }
                            if both { return Ev::Fork(v, if pd == NOB { None } else { Some(Stop { depth: depth + 1, bb: pd }) }); }
                            match v.pop() { None => { return Ev::End; } Some(n) => { s = n; } }
                            if let Some(p) = stop { if p.bb == s.top.bb && depth + 1 == p.depth { return Ev::AtStop(s); } }
                            continue;
                        }
                        _ => { let w = self.where_(&s); self.report(&s, "undef", "branch-on-undef", &w); return Ev::End; }
                    }
                }
                IK::Switch(ty, v, d, cs) => {
                    match self.ev(&s, v) {
                        Val::C(x) => {
                            let t = cs.iter().find(|c| c.0 == x).map_or(*d, |c| c.1);
                            self.goto(&mut s, t);
                            if let Some(p) = stop { if p.bb == t && depth + 1 == p.depth { return Ev::AtStop(s); } }
                            continue;
                        }
                        Val::S(t) => {
                            let w = self.m.bits(*ty) as u8;
                            let mut by: Vec<(u32, T)> = vec![];
                            let mut none = tru();
                            for (k, l) in cs {
                                let e = eq(t, mk_c(w, *k as u128));
                                none = and(none, not(e));
                                if let Some(x) = by.iter_mut().find(|x| x.0 == *l) { x.1 = or(x.1, e); } else { by.push((*l, e)); }
                            }
                            if let Some(x) = by.iter_mut().find(|x| x.0 == *d) { x.1 = or(x.1, none); } else { by.push((*d, none)); }
                            let mut v = vec![];
                            for (l, c) in by {
                                match self.feasible(&s, c) {
                                    Ok(Some(m)) => { let mut a = s.clone(); self.push_pc(&mut a, c); a.model = m; self.goto(&mut a, l); v.push(a); }
                                    _ => {}
                                }
                            }
                            self.st.forks += v.len().saturating_sub(1) as u64;
                            let pd = f.ipdom[s.top.bb as usize];
                            return Ev::Fork(v, if pd == NOB { None } else { Some(Stop { depth: depth + 1, bb: pd }) });
                        }
                        _ => { let w = self.where_(&s); self.report(&s, "undef", "switch-on-undef", &w); return Ev::End; }
                    }
                }
                IK::Ret(v) => {
                    let rv = match v { Some((_, o)) => self.ev(&s, o), None => Val::U };
                    s.mem.stack.truncate(s.top.sbase);
                    if s.below.is_empty() { self.path_end(&s); return Ev::End; }
                    let (dst, inv) = (s.top.dst, s.top.inv);
                    let fr = s.below.pop().unwrap();
                    s.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                    if dst != NODST { s.top.regs[dst as usize] = rv; }
                    if let Some((n, _)) = inv { self.goto(&mut s, n); }
                    if let Some(p) = stop {
                        if s.below.len() + 1 < p.depth { return Ev::Escaped(s); }
                        if inv.is_some() && s.top.bb == p.bb && s.below.len() + 1 == p.depth { return Ev::AtStop(s); }
                    }
                    continue;
                }
                IK::Unreachable => { let w = self.where_(&s); self.report(&s, "ub", "unreachable", &w); return Ev::End; }
                IK::Resume(_) => {
                    match self.unwind(s) { None => return Ev::End, Some(n) => s = n }
                    if let Some(p) = stop { if s.below.len() + 1 < p.depth { return Ev::Escaped(s); } if s.top.bb == p.bb && s.below.len() + 1 == p.depth { return Ev::AtStop(s); } }
                    continue;
                }
                IK::Call(ci) => {
                    match self.call(&mut s, ins.dst, ci) {
                        Ok(()) => {
                            if let Some(p) = stop { if ci.inv.is_some() && s.top.ip == 0 && s.top.bb == p.bb && s.below.len() + 1 == p.depth && s.below.len() == depth { return Ev::AtStop(s); } }
                            continue;
                        }
                        Err(Stp::Kill) => { self.st.killed += 1; return Ev::End; }
                        Err(Stp::CaseProbe) => { return Ev::End; }
                        Err(Stp::Fork(v)) => return Ev::Fork(v, None),
                        Err(Stp::Viol(k, m)) => { self.report(&s, &k, &k, &m); return Ev::End; }
                        Err(Stp::Err(m)) => { let w = self.where_(&s); self.incomplete.push(format!("{} at {}", m, w)); return Ev::End; }
                        Err(Stp::Throw) => {
                            // the current frame made the call: unwind from here
                            let inv = ci.inv;
                            if let Some((_, u)) = inv { self.goto(&mut s, u); }
                            else { match self.unwind(s) { None => return Ev::End, Some(n) => s = n } }
                            if let Some(p) = stop { if s.below.len() + 1 < p.depth { return Ev::Escaped(s); } if s.top.bb == p.bb && s.below.len() + 1 == p.depth { return Ev::AtStop(s); } }
                            continue;
                        }
                    }
                }
                _ => {}
            }
            match self.simple(&mut s, ins) {
                Ok(v) => { if ins.dst != NODST { s.top.regs[ins.dst as usize] = v; } s.top.ip += 1; }
                Err(Stp::Kill) => { self.st.killed += 1; return Ev::End; }
                Err(Stp::Fork(v)) => return Ev::Fork(v, None),
                Err(Stp::Viol(k, m)) => { self.report(&s, &k, &k, &m); return Ev::End; }
                Err(Stp::Err(m)) => { let w = self.where_(&s); self.incomplete.push(format!("{} at {}", m, w)); return Ev::End; }
                _ => unreachable!(),
            }
        }
    }
    /// pop frames to the nearest invoke; None = nothing catches it
    fn unwind(&mut self, mut s: State) -> Option<State> {
        loop {
            s.mem.stack.truncate(s.top.sbase);
            let inv = s.top.inv;
            match s.below.pop() {
                None => { let m = s.last_panic.to_string(); self.report_state(&s, "panic", &format!("panic:{}", m), &m); return None; }
                Some(fr) => {
                    s.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                    if let Some((_, u)) = inv { self.goto(&mut s, u); return Some(s); }
                }
            }
        }
    }
    /// records the path condition of a finished path (or of inputs excluded by an assumption)
    fn leaf(&mut self, s: &State, extra: Option<T>) {
        if self.leaves.len() >= MAX_LEAVES || self.concrete.is_some() { self.st.closing = 3; return; }
        let mut v: Vec<T> = extra.into_iter().collect();
        let mut p = s.pc.as_ref();
        while let Some(n) = p { v.push(n.c); p = n.up.as_ref(); }
        v.reverse();
        self.leaves.push(v);
    }
    /// In small-domain mode branches are pruned by tables: have the solver confirm that the path
    /// conditions of the explored paths leave no input out.
    pub fn close(&mut self) {
        let leaves = std::mem::take(&mut self.leaves);
        if !ts().deep || leaves.is_empty() || self.st.closing == 3 || !self.viol.is_empty() || !self.incomplete.is_empty() || leaves.iter().any(|l| l.is_empty()) { return; }
        let (d, b) = (ts().deep, ts().lut_bits);
        ts().deep = false; ts().lut_bits = 0;
        let cs: Vec<T> = leaves.iter().map(|l| { let mut c = l[0]; for x in &l[1..] { c = and(c, *x); } not(c) }).collect();
        let t = (self.sol.timeout_ms, self.sol.hard_timeout_ms);
        self.sol.hard_timeout_ms = 15000;
        let u = self.sol.unknowns;
        let r = self.sol.check(&cs);
        ts().deep = d; ts().lut_bits = b;
        self.sol.timeout_ms = t.0; self.sol.hard_timeout_ms = t.1; self.sol.unknowns = u;
        match r {
            Res::Unsat => self.st.closing = 1,
            Res::Sat(_) => self.incomplete.push("the explored paths do not cover every input".into()),
            Res::Unknown => self.st.closing = 2,
        }
    }
    fn path_end(&mut self, s: &State) {
        self.st.paths += 1;
        if ts().deep { self.leaf(s, None); }
        if self.traces.len() < self.max_traces || (self.st.paths.is_power_of_two() && self.traces.len() < 4 * self.max_traces) {
            let inp = self.inputs_of(s, &s.model);
            let obs = s.obs.iter().map(|t| { if support(*t).iter().any(|v| ts().var_name[*v as usize].starts_with("uninit")) { None } else { Some(s.model.borrow_mut().eval(*t) as u64) } }).collect();
            self.traces.push((inp, obs));
        }
    }
    fn inputs_of(&self, s: &State, m: &Rc<RefCell<Model>>) -> Vec<u64> { s.nin.iter().map(|t| m.borrow_mut().eval(*t) as u64).collect() }
    fn report(&mut self, s: &State, kind: &str, id: &str, msg: &str) { let m = format!("{} [{}]", msg, self.where_(s)); self.report_state(s, kind, id, &m); }
    fn report_state(&mut self, s: &State, kind: &str, id: &str, msg: &str) {
        let model = s.model.clone();
        self.report_model(s, &model, kind, id, msg);
    }
    fn report_model(&mut self, s: &State, model: &Rc<RefCell<Model>>, kind: &str, id: &str, msg: &str) {
        if self.viol.iter().filter(|v| v.id == id).count() >= 3 { return; }
        let inputs = self.inputs_of(s, model);
        let observed = s.obs.iter().map(|t| model.borrow_mut().eval(*t) as u64).collect();
        if self.verbose { eprintln!("VIOL {} {} {}", kind, id, msg); }
        self.viol.push(Violation { kind: kind.into(), id: id.into(), msg: msg.into(), inputs, observed });
    }

    // ---- memory access -------------------------------------------------------------------
    fn fault(&self, f: Fault, what: &str) -> Stp {
        let m = match f { Fault::Null => "null pointer".to_string(), Fault::Wild(i) => format!("wild pointer (object {:#x})", i), Fault::Freed(i) => format!("use after free (object {:#x})", i), Fault::ConstWrite => "write to constant memory".into() };
        Stp::Viol("memory".into(), format!("{}: {}", what, m))
    }
    /// resolve a symbolic address to one object: (object id, offset term)
    fn resolve(&mut self, s: &State, a: T, n: u64, what: &str) -> R<(u64, T)> {
        let v0 = s.model.borrow_mut().eval(a) as u64;
        let id = v0 >> SLOT;
        let inobj = eq(extract(a, SLOT as u8, 64 - SLOT as u8), mk_c(64 - SLOT as u8, id as u128));
        match self.decide(s, inobj) {
            Ok(Some(true)) => {}
            Ok(Some(false)) => return Err(Stp::Kill),
            Ok(None) => {
                let (x, y) = self.split(s.clone(), inobj);
                return Err(Stp::Fork(x.into_iter().chain(y).collect()));
            }
            Err(()) => return Err(Stp::Kill),
        }
        let (base, size) = match s.mem.obj(id) { Ok(o) => (o.base, o.size), Err(f) => return Err(self.fault(f, what)) };
        let off = sub(a, mk_c(64, base as u128));
        if n > size { return Err(Stp::Viol("memory".into(), format!("{}: {} bytes from an object of {}", what, n, size))); }
        let inb = ule(off, mk_c(64, (size - n) as u128));
        match self.decide(s, inb) {
            Ok(Some(true)) => {}
            Ok(Some(false)) => return Err(Stp::Viol("memory".into(), format!("{}: out of bounds of an object of {} bytes", what, size))),
            Ok(None) => {
                // report, then continue in bounds
                let (x, y) = self.split(s.clone(), inb);
                if let Some(b) = y { self.report(&b, "memory", "memory", &format!("{}: may be out of bounds of an object of {} bytes", what, size)); }
                return Err(Stp::Fork(x.into_iter().collect()));
            }
            Err(()) => return Err(Stp::Kill),
        }
        Ok((id, off))
    }
    /// candidate offsets: (lo, count, log2 stride)
    fn range(&mut self, s: &State, off: T, max: u64) -> R<(u64, u64, u32)> {
        let nd = node(off);
        let tz = (!nd.kz & mask(64)).trailing_zeros().min(16);
        let stride = tz;
        let (mut lo, mut hi) = (nd.lo as u64, (nd.hi as u64).min(max));
        // tighten with the solver when wide
        let step = 1u64 << stride;
        if (hi - lo) / step > 8 {
            let mut k = 1u64;
            while lo + k * step < hi {
                let b = lo + k * step;
                match self.decide(s, ule(off, mk_c(64, b as u128))) { Ok(Some(true)) => { hi = b; break; } Ok(_) => {} Err(()) => return Err(Stp::Kill) }
                k *= 4;
            }
            if (hi - lo) / step > 64 {
                let mut k = (hi - lo) / step;
                while k > 1 {
                    k /= 2;
                    let b = hi - k * step;
                    if b <= lo { continue; }
                    match self.decide(s, ule(mk_c(64, b as u128), off)) { Ok(Some(true)) => { lo = b; break; } Ok(_) => { if k < (hi - lo) / step / 8 { break; } } Err(()) => return Err(Stp::Kill) }
                }
            }
        }
        lo = lo & !(step - 1);
        hi = hi & !(step - 1);
        Ok((lo, (hi - lo) / step + 1, stride))
    }
    fn load(&mut self, s: &mut State, ty: Ty, a: &Val) -> R<Val> {
        match self.m.tys[ty as usize].clone() {
            TyK::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, ft) = self.m.field_off(ty, i); let p = self.padd(a, o); v.push(self.load(s, ft, &p)?); }
                return Ok(Val::A(Rc::new(v)));
            }
            TyK::Array(n, e) => {
                let es = self.m.size(e);
                let mut v = vec![];
                for i in 0..n { let p = self.padd(a, es * i); v.push(self.load(s, e, &p)?); }
                return Ok(Val::A(Rc::new(v)));
            }
            TyK::Vector(n, e) => {
                let eb = self.m.bits(e);
                if eb % 8 == 0 {
                    let mut v = vec![];
                    for i in 0..n as u64 { let p = self.padd(a, i * eb as u64 / 8); v.push(self.load(s, e, &p)?); }
                    return Ok(Val::A(Rc::new(v)));
                }
                let nb = self.m.size(ty);
                let t = self.load_n(s, a, nb)?;
                let t = self.tm(&t, nb as u32 * 8);
                return Ok(Val::A(Rc::new((0..n).map(|i| mkv(extract(t, (i * eb) as u8, eb as u8))).collect())));
            }
            _ => {}
        }
        let n = self.m.size(ty);
        let w = self.m.bits(ty);
        let v = self.load_n(s, a, n)?;
        if w as u64 != n * 8 {
            return Ok(match v { Val::C(x) => Val::C(x & m64(w)), Val::S(t) => mkv(extract(t, 0, w as u8)), v => v });
        }
        Ok(v)
    }
    fn padd(&self, a: &Val, o: u64) -> Val { match a { Val::C(x) => Val::C(x.wrapping_add(o)), Val::S(t) => mkv(add(*t, mk_c(64, o as u128))), v => v.clone() } }
    fn load_n(&mut self, s: &mut State, a: &Val, n: u64) -> R<Val> {
        match a {
            Val::C(x) => {
                let id = x >> SLOT;
                let o = match s.mem.obj(id) { Ok(o) => o, Err(f) => return Err(self.fault(f, "load")) };
                let off = x.wrapping_sub(o.base);
                if off > o.size || n > o.size - off { return Err(Stp::Viol("memory".into(), format!("load of {} bytes at offset {} of an object of {} bytes", n, off as i64, o.size))); }
                if n <= 8 { if let Some(v) = o.read_conc(off, n) { return Ok(Val::C(v)); } }
                // symbolic or uninitialised bytes
                let has_u = (0..n).any(|i| o.get(off + i) == B::U);
                if has_u {
                    if (0..n).all(|i| o.get(off + i) == B::U) && false { return Ok(Val::U); }
                    let mut c = (**o).clone();
                    let t = c.read_term(off, n, &mut || self.fresh_garbage());
                    // persist the invented bytes
                    for i in 0..n { if o.get(off + i) == B::U { /* set below */ } }
                    self.replace_obj(s, id, c);
                    return Ok(mkv(t));
                }
                let mut c = o.clone();
                let t = Rc::make_mut(&mut c); let t = t.read_term(off, n, &mut || unreachable!());
                let t = self.settle(s, t);
                Ok(mkv(t))
            }
            Val::S(t) => {
                let (id, off) = self.resolve(s, *t, n, "load")?;
                if let Some(o) = cval(off) { let base = s.mem.obj(id).ok().unwrap().base; return self.load_n(s, &Val::C(base + o as u64), n); }
                let o = s.mem.obj(id).ok().unwrap().clone();
                // the offset is a table: load each entry (entries outside are excluded by `resolve`)
                if n <= 8 {
                    if let N::Lut(s2, t2) = &node(off).n {
                        let v: Option<Vec<u64>> = t2.iter().map(|&x| if x > o.size - n { Some(0) } else { o.read_conc(x, n) }).collect();
                        if let Some(v) = v { return Ok(mkv(mk_lut((n * 8) as u8, s2.to_vec(), v))); }
                    }
                }
                let (lo, cnt, sh) = self.range(s, off, o.size - n)?;
                if cnt > 8192 { return Err(Stp::Err(format!("symbolic load over {} candidates", cnt))); }
                // uninitialised candidates: give them values first
                let mut obj = (*o).clone();
                let mut vals = Vec::with_capacity(cnt as usize);
                let mut touched = false;
                for k in 0..cnt {
                    let oo = lo + (k << sh);
                    let v = match if n <= 8 { obj.read_conc(oo, n) } else { None } { Some(v) => mk_c((n * 8) as u8, v as u128), None => { let mut any = false; let r = obj.read_term(oo, n, &mut || { any = true; self.fresh_garbage() }); touched |= any; r } };
                    vals.push(v);
                }
                if touched { self.replace_obj(s, id, obj); }
                // candidates with uninitialised content that this path cannot address (as a table)
                let g = |t: T| support(t).iter().any(|v| ts().var_name[*v as usize].starts_with("uninit"));
                let mut good = vals.iter().cloned().find(|v| !g(*v));
                for k in 0..vals.len() {
                    if good.is_none() || !g(vals[k]) { if !g(vals[k]) { good = Some(vals[k]); } continue; }
                    let q = eq(off, mk_c(64, (lo + ((k as u64) << sh)) as u128));
                    if s.model.borrow_mut().eval(q) == 1 { continue; }
                    let cs = self.pc_slice(s, q);
                    if is_false(q) || matches!(table_sat(&cs), Some(None)) { vals[k] = good.unwrap(); }
                }
                let idx = sub(off, mk_c(64, lo as u128));
                let nb = (64 - (cnt - 1).leading_zeros()).max(1) as u8;
                let sel = extract(idx, sh as u8, nb);
                Ok(mkv(self.mux_terms(sel, &vals)))
            }
            _ => Err(Stp::Viol("undef".into(), "load through an undefined pointer".into())),
        }
    }
    /// a value that was uninitialised on another path: drop that alternative when the path
    /// condition (as a table) rules it out
    fn settle(&mut self, s: &State, t: T) -> T {
        let mut t = t;
        while let N::Ite(c, a, b) = node(t).n {
            if !matches!(node(c).n, N::Lut(..)) { break; }
            let g = |t: T| support(t).iter().any(|v| ts().var_name[*v as usize].starts_with("uninit"));
            if !g(a) && !g(b) { break; }
            let cur = s.model.borrow_mut().eval(c) == 1;
            let cs = self.pc_slice(s, if cur { not(c) } else { c });
            match table_sat(&cs) { Some(None) => { self.st.table_decisions += 1; t = if cur { a } else { b } } x => { if self.verbose { eprintln!("unsettled {} {} at {}", x.is_some(), show(t, 6), self.where_(s)); for c in &cs { eprintln!("    {}", show(*c, 6)); } } break } }
        }
        t
    }
    fn mux_terms(&self, sel: T, vals: &[T]) -> T {
        let w = width(vals[0]);
        let nb = width(sel);
        if w <= 64 && (nb as u32) <= ts().lut_bits && vals.iter().all(|v| cval(*v).is_some()) {
            let mut tab: Vec<u64> = vals.iter().map(|v| cval(*v).unwrap() as u64).collect();
            let last = *tab.last().unwrap();
            while tab.len() < 1 << nb { tab.push(last); }
            if let N::Lut(s2, t2) = &node(sel).n { let t = t2.iter().map(|i| tab[*i as usize]).collect(); return mk_lut(w, s2.to_vec(), t); }
            if cval(sel).is_none() { return mk_lut(w, vec![sel], tab); }
        }
        fn go(sel: T, b: u8, vals: &[T]) -> T {
            if vals.len() == 1 { return vals[0]; }
            if vals.iter().all(|v| *v == vals[0]) { return vals[0]; }
            let h = 1usize << (b - 1);
            if vals.len() <= h { return go(sel, b - 1, vals); }
            let l = go(sel, b - 1, &vals[..h]); let r = go(sel, b - 1, &vals[h..]);
            ite(extract(sel, b - 1, 1), r, l)
        }
        go(sel, nb, vals)
    }
    fn replace_obj(&mut self, s: &mut State, id: u64, o: Obj) {
        if id >= STACK0 { s.mem.stack[(id - STACK0) as usize] = Rc::new(o); }
        else if id >= HEAP0 { let k = (id - HEAP0) as usize; Rc::make_mut(&mut s.mem.heap[k / 64])[k % 64] = Some(Rc::new(o)); }
        else { Rc::make_mut(&mut s.mem.globs).insert(id, Rc::new(o)); }
    }
    fn store(&mut self, s: &mut State, ty: Ty, v: &Val, a: &Val) -> R<()> {
        let n = self.m.size(ty);
        match a {
            Val::C(x) => {
                let id = x >> SLOT;
                let (base, size) = match s.mem.obj(id) { Ok(o) => (o.base, o.size), Err(f) => return Err(self.fault(f, "store")) };
                let off = x.wrapping_sub(base);
                if off > size || n > size - off { return Err(Stp::Viol("memory".into(), format!("store of {} bytes at offset {} of an object of {} bytes", n, off as i64, size))); }
                let o: *mut Obj = match s.mem.obj_mut(id) { Ok(o) => o, Err(f) => return Err(self.fault(f, "store")) };
                let o = unsafe { &mut *o };
                if let Val::C(c) = v { if n <= 8 && !matches!(self.m.tys[ty as usize], TyK::Struct(..) | TyK::Array(..) | TyK::Vector(..)) { o.write_conc(off, n, *c); return Ok(()); } }
                self.put(o, off, ty, v);
                Ok(())
            }
            Val::S(t) => {
                let (id, off) = self.resolve(s, *t, n, "store")?;
                let base = s.mem.obj(id).ok().unwrap().base;
                if let Some(o) = cval(off) { return self.store(s, ty, v, &Val::C(base + o as u64)); }
                let size = s.mem.obj(id).ok().unwrap().size;
                let (lo, cnt, sh) = self.range(s, off, size - n)?;
                if cnt > 8192 { return Err(Stp::Err(format!("symbolic store over {} candidates", cnt))); }
                // lay the value out in a scratch object, then merge bytewise at natural granularity
                let mut tmp = Obj::new(0, n, 0, false);
                self.put(&mut tmp, 0, ty, v);
                let step = 1u64 << sh;
                let o: *mut Obj = match s.mem.obj_mut(id) { Ok(o) => o, Err(f) => return Err(self.fault(f, "store")) };
                let o = unsafe { &mut *o };
                let orig = o.clone();
                let g = if step >= n { let mut g = n; while g > 16 { g /= 2; } g } else { n.min(16) };
                let mut grain = 1; while grain * 2 <= g && n % (grain * 2) == 0 { grain *= 2; }
                let es = match &self.m.tys[ty as usize] { TyK::Vector(_, e) => self.m.bits(*e) as u64 / 8, TyK::Struct(..) | TyK::Array(..) => 8, _ => n };
                while es > 0 && grain > es { grain /= 2; }
                for k in 0..cnt {
                    let at = lo + (k << sh);
                    let c = eq(off, mk_c(64, at as u128));
                    if is_false(c) { continue; }
                    let mut i = 0;
                    while i < n {
                        let nv = tmp.read_term(i, grain, &mut || mk_c(8, 0));
                        // overlapping candidates need the running value, disjoint ones the original
                        let old = if step >= n { let mut og = orig.clone(); og.read_term(at + i, grain, &mut || { mk_c(8, 0) }) } else { o.read_term(at + i, grain, &mut || mk_c(8, 0)) };
                        o.write_term(at + i, grain, ite(c, nv, old));
                        i += grain;
                    }
                }
                Ok(())
            }
            _ => Err(Stp::Viol("undef".into(), "store through an undefined pointer".into())),
        }
    }
    fn conc(&mut self, s: &State, v: &Val, limit: usize) -> R<u64> { match v { Val::C(x) => Ok(*x), Val::S(t) => self.concretize(s, *t, limit), _ => Err(Stp::Err("undefined value where a concrete one is needed".into())) } }
    fn memcpy(&mut self, s: &mut State, d: &Val, sr: &Val, n: &Val) -> R<()> {
        let n = self.conc(s, n, 300)?;
        if n == 0 { return Ok(()); }
        let d = self.conc(s, d, 64)?; let sr = self.conc(s, sr, 64)?;
        let so = match s.mem.obj(sr >> SLOT) { Ok(o) => o.clone(), Err(f) => return Err(self.fault(f, "memcpy source")) };
        let off = sr.wrapping_sub(so.base);
        if off > so.size || n > so.size - off { return Err(Stp::Viol("memory".into(), format!("memcpy reads {} bytes at offset {} of an object of {}", n, off as i64, so.size))); }
        let (db, ds) = match s.mem.obj(d >> SLOT) { Ok(o) => (o.base, o.size), Err(f) => return Err(self.fault(f, "memcpy destination")) };
        let doff = d.wrapping_sub(db);
        if doff > ds || n > ds - doff { return Err(Stp::Viol("memory".into(), format!("memcpy writes {} bytes at offset {} of an object of {}", n, doff as i64, ds))); }
        let o = match s.mem.obj_mut(d >> SLOT) { Ok(o) => o, Err(f) => return Err(self.fault(f, "memcpy destination")) };
        let mut i = 0;
        while i < n {
            // page-sized fast path
            if (doff + i) % PG as u64 == 0 && (off + i) % PG as u64 == 0 && n - i >= PG as u64 {
                o.pages[((doff + i) / PG as u64) as usize] = so.pages[((off + i) / PG as u64) as usize].clone();
                i += PG as u64; continue;
            }
            let k = (n - i).min(8);
            if let Some(v) = so.read_conc(off + i, k) { o.write_conc(doff + i, k, v); } else { for j in 0..k { o.set(doff + i + j, so.get(off + i + j)); } }
            i += k;
        }
        Ok(())
    }
    fn memset(&mut self, s: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.conc(s, n, 300)?;
        if n == 0 { return Ok(()); }
        let d = self.conc(s, d, 64)?;
        let (db, ds) = match s.mem.obj(d >> SLOT) { Ok(o) => (o.base, o.size), Err(f) => return Err(self.fault(f, "memset")) };
        let doff = d.wrapping_sub(db);
        if doff > ds || n > ds - doff { return Err(Stp::Viol("memory".into(), format!("memset writes {} bytes at offset {} of an object of {}", n, doff as i64, ds))); }
        let b = match v { Val::C(x) => B::C(*x as u8), Val::S(t) => B::S(*t, 0), _ => B::U };
        let o = match s.mem.obj_mut(d >> SLOT) { Ok(o) => o, Err(f) => return Err(self.fault(f, "memset")) };
        let mut i = 0;
        while i < n {
            if (doff + i) % PG as u64 == 0 && n - i >= PG as u64 && b == B::C(0) { o.pages[((doff + i) / PG as u64) as usize] = Page::Zero; i += PG as u64; continue; }
            o.set(doff + i, b); i += 1;
        }
        Ok(())
    }
    fn bytes_at(&mut self, s: &mut State, a: u64, n: u64) -> R<Vec<T>> {
        let mut v = vec![];
        for i in 0..n { let x = self.load_n(s, &Val::C(a + i), 1)?; v.push(self.tm(&x, 8)); }
        Ok(v)
    }

    // ---- instructions --------------------------------------------------------------------
    fn bin_scalar(&mut self, s: &State, op: Bin, w: u32, fl: bool, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if fl {
                let o = match op { Bin::FAdd => FOp::Add, Bin::FSub => FOp::Sub, Bin::FMul => FOp::Mul, Bin::FDiv => FOp::Div, _ => FOp::Rem };
                // keep the host's NaN payloads out: canonical NaN
                return Ok(Val::C(fp_host(o, w as u8, w as u8, &[x, y])));
            }
            let m = m64(w);
            let sxx = |v: u64| sx(v as u128, w as u8) as i64;
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y }, Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sxx(x) >> y.min(w as u64 - 1)) as u64,
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stp::Viol("ub".into(), "division by zero".into())),
                Bin::UDiv => x / y, Bin::URem => x % y, Bin::SDiv => sxx(x).wrapping_div(sxx(y)) as u64, Bin::SRem => sxx(x).wrapping_rem(sxx(y)) as u64,
                _ => unreachable!(),
            };
            return Ok(Val::C(r & m));
        }
        // an undefined value moved up: only its upper bits are undefined (packed pairs)
        if let (Bin::Shl, Val::U, Val::C(k)) = (op, a, b) { if *k > 0 && (*k as u32) < w { self.garbage += 1; let g = mk_var(w as u8, format!("uninit{}", self.garbage)); return Ok(mkv(shl(g, mk_c(w as u8, *k as u128)))); } }
        if matches!(a, Val::U) || matches!(b, Val::U) { return Ok(Val::U); }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let r = match op {
            Bin::Add => add(x, y), Bin::Sub => sub(x, y), Bin::Mul => mul(x, y), Bin::And => and(x, y), Bin::Or => or(x, y), Bin::Xor => xor(x, y),
            Bin::Shl => shl(x, y), Bin::LShr => lshr(x, y), Bin::AShr => ashr(x, y),
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                if cval(y).is_none() {
                    match self.decide(s, eq(y, mk_c(w as u8, 0))) { Ok(Some(false)) => {} Ok(_) => return Err(Stp::Viol("ub".into(), "possible division by zero".into())), Err(()) => return Err(Stp::Kill) }
                }
                match op { Bin::UDiv => udiv(x, y), Bin::URem => urem(x, y), Bin::SDiv => sdiv(x, y), _ => srem(x, y) }
            }
            Bin::FAdd => fp(FOp::Add, w as u8, w as u8, &[x, y]), Bin::FSub => fp(FOp::Sub, w as u8, w as u8, &[x, y]), Bin::FMul => fp(FOp::Mul, w as u8, w as u8, &[x, y]), Bin::FDiv => fp(FOp::Div, w as u8, w as u8, &[x, y]), Bin::FRem => fp(FOp::Rem, w as u8, w as u8, &[x, y]),
        };
        Ok(mkv(r))
    }
    fn icmp_scalar(&self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (i, j) = (sx(x as u128, w as u8) as i64, sx(y as u128, w as u8) as i64);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => i > j, Pred::Sge => i >= j, Pred::Slt => i < j, Pred::Sle => i <= j };
            return Val::C(r as u64);
        }
        if matches!(a, Val::U) || matches!(b, Val::U) { return Val::U; }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        mkv(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ugt => ult(y, x), Pred::Uge => not(ult(x, y)), Pred::Ult => ult(x, y), Pred::Ule => not(ult(y, x)), Pred::Sgt => slt(y, x), Pred::Sge => not(slt(x, y)), Pred::Slt => slt(x, y), Pred::Sle => not(slt(y, x)) })
    }
    fn fcmp_scalar(&self, p: FPred, w: u32, a: &Val, b: &Val) -> Val {
        if matches!(a, Val::U) || matches!(b, Val::U) { return Val::U; }
        let (x, y) = (self.tm(a, w), self.tm(b, w));
        let un = || or(fisnan(x), fisnan(y));
        mkv(match p {
            FPred::False => fal(), FPred::True => tru(), FPred::Ord => not(un()), FPred::Uno => un(),
            FPred::Oeq => feq(x, y), FPred::Ogt => flt(y, x), FPred::Olt => flt(x, y),
            FPred::Oge => and(not(un()), not(flt(x, y))), FPred::Ole => and(not(un()), not(flt(y, x))), FPred::One => or(flt(x, y), flt(y, x)),
            FPred::Ueq => and(not(flt(x, y)), not(flt(y, x))), FPred::Ugt => or(un(), flt(y, x)), FPred::Ult => or(un(), flt(x, y)), FPred::Uge => not(flt(x, y)), FPred::Ule => not(flt(y, x)), FPred::Une => not(feq(x, y)),
        })
    }
    fn fmt(&self, t: Ty) -> Option<(u32, bool)> { match &self.m.tys[t as usize] { TyK::Int(w) => Some((*w, false)), TyK::F32 => Some((32, true)), TyK::F64 => Some((64, true)), TyK::Ptr => Some((64, false)), _ => None } }
    fn cast_scalar(&self, c: Cast, fw: u32, tw: u32, v: &Val) -> Val {
        match v {
            Val::C(x) => {
                let x = *x;
                match c {
                    Cast::Trunc | Cast::PtrToInt => return Val::C(x & m64(tw)),
                    Cast::Zext if tw <= 64 => return Val::C(x),
                    Cast::IntToPtr | Cast::Bitcast => return Val::C(x),
                    Cast::Sext if tw <= 64 => return Val::C(sx(x as u128, fw as u8) as u64 & m64(tw)),
                    _ => {}
                }
            }
            Val::U => return Val::U,
            _ => {}
        }
        let t = self.tm(v, fw);
        let (f8, t8) = (fw as u8, tw as u8);
        mkv(match c {
            Cast::Trunc => extract(t, 0, t8), Cast::Zext => zext(t, t8), Cast::Sext => sext(t, t8),
            Cast::PtrToInt | Cast::IntToPtr => if tw < fw { extract(t, 0, t8) } else { zext(t, t8) },
            Cast::Bitcast => t,
            Cast::FpTrunc => fp(FOp::Tr, 64, 32, &[t]), Cast::FpExt => fp(FOp::Ext, 32, 64, &[t]),
            Cast::FpToUi => fp(FOp::ToU, f8, t8, &[t]), Cast::FpToSi => fp(FOp::ToS, f8, t8, &[t]),
            Cast::UiToFp => { let t = if fw < 64 { zext(t, 64) } else { t }; fp(FOp::FromU, t8, t8, &[t]) }
            Cast::SiToFp => { if node(t).hi < 1u128 << (fw - 1) { fp(FOp::FromU, t8, t8, &[zext(t, 64)]) } else { fp(FOp::FromS, t8, t8, &[sext(t, 64)]) } }
        })
    }
    fn flat_bits(&self, ty: Ty, v: &Val) -> T {
        match &self.m.tys[ty as usize] {
            TyK::Vector(_, e) => { let eb = self.m.bits(*e); match v { Val::A(a) => self.bits_to_term(a, eb), _ => mk_c((self.m.size(ty) * 8) as u8, 0) } }
            _ => self.tm(v, self.m.bits(ty)),
        }
    }
    fn simple(&mut self, s: &mut State, ins: &'static Inst) -> R<Val> {
        match &ins.k {
            IK::Bin(op, ty, a, b) => {
                let (x, y) = (self.ev(s, a), self.ev(s, b));
                match self.fmt(*ty) {
                    Some((w, fl)) => self.bin_scalar(s, *op, w, fl, &x, &y),
                    None => {
                        let (n, e) = match &self.m.tys[*ty as usize] { TyK::Vector(n, e) => (*n, *e), _ => panic!() };
                        let (w, fl) = self.fmt(e).unwrap();
                        let mut r = Vec::with_capacity(n as usize);
                        for i in 0..n as usize { r.push(self.bin_scalar(s, *op, w, fl, &elt(&x, i), &elt(&y, i))?); }
                        Ok(Val::A(Rc::new(r)))
                    }
                }
            }
            IK::ICmp(p, ty, a, b) => {
                let (x, y) = (self.ev(s, a), self.ev(s, b));
                match self.fmt(*ty) {
                    Some((w, _)) => Ok(self.icmp_scalar(*p, w, &x, &y)),
                    None => { let (n, e) = match &self.m.tys[*ty as usize] { TyK::Vector(n, e) => (*n, *e), _ => panic!() }; let w = self.m.bits(e); Ok(Val::A(Rc::new((0..n as usize).map(|i| self.icmp_scalar(*p, w, &elt(&x, i), &elt(&y, i))).collect()))) }
                }
            }
            IK::FCmp(p, ty, a, b) => {
                let (x, y) = (self.ev(s, a), self.ev(s, b));
                match self.fmt(*ty) {
                    Some((w, _)) => Ok(self.fcmp_scalar(*p, w, &x, &y)),
                    None => { let (n, e) = match &self.m.tys[*ty as usize] { TyK::Vector(n, e) => (*n, *e), _ => panic!() }; let w = self.m.bits(e); Ok(Val::A(Rc::new((0..n as usize).map(|i| self.fcmp_scalar(*p, w, &elt(&x, i), &elt(&y, i))).collect()))) }
                }
            }
            IK::FNeg(ty, a) => {
                let x = self.ev(s, a);
                let f = |w: u32, v: &Val| match v { Val::C(x) => Val::C(x ^ (1u64 << (w - 1))), Val::S(t) => mkv(xor(*t, mk_c(w as u8, 1u128 << (w - 1)))), v => v.clone() };
                match self.fmt(*ty) { Some((w, _)) => Ok(f(w, &x)), None => { let (n, e) = match &self.m.tys[*ty as usize] { TyK::Vector(n, e) => (*n, *e), _ => panic!() }; let w = self.m.bits(e); Ok(Val::A(Rc::new((0..n as usize).map(|i| f(w, &elt(&x, i))).collect()))) } }
            }
            IK::Cast(c, f, t, a) => {
                let x = self.ev(s, a);
                let (ff, tf) = (self.fmt(*f), self.fmt(*t));
                match (ff, tf) {
                    (Some((fw, _)), Some((tw, _))) => Ok(self.cast_scalar(*c, fw, tw, &x)),
                    _ if *c == Cast::Bitcast => {
                        if f == t { return Ok(x); }
                        // reinterpret vectors via 64-bit aware flattening
                        let bits = self.m.size(*f) as u32 * 8;
                        let (fe, te) = (match &self.m.tys[*f as usize] { TyK::Vector(_, e) => self.m.bits(*e), _ => self.m.bits(*f) }, match &self.m.tys[*t as usize] { TyK::Vector(_, e) => self.m.bits(*e), _ => self.m.bits(*t) });
                        let sub1 = matches!(&self.m.tys[*f as usize], TyK::Vector(..)) && fe < 8;
                        let xs: Vec<Val> = match &x { Val::A(a) => a.to_vec(), v => vec![v.clone()] };
                        if xs.iter().any(|v| matches!(v, Val::U)) && xs.len() > 1 && xs.iter().all(|v| matches!(v, Val::U)) { return Ok(self.undef_of(*t)); }
                        let total = if sub1 { xs.len() as u32 * fe } else { bits };
                        let mut out = vec![];
                        if te >= fe { let k = (te / fe) as usize; for ch in xs.chunks(k) { out.push(mkv(self.bits_to_term(ch, fe))); } }
                        else { for v in &xs { let t = self.tm(v, fe); for j in 0..fe / te { out.push(mkv(extract(t, (j * te) as u8, te as u8))); } } }
                        let _ = total;
                        if matches!(&self.m.tys[*t as usize], TyK::Vector(..)) { Ok(Val::A(Rc::new(out))) } else { Ok(out[0].clone()) }
                    }
                    _ => {
                        let (n, fe) = match &self.m.tys[*f as usize] { TyK::Vector(n, e) => (*n, *e), _ => panic!() };
                        let te = match &self.m.tys[*t as usize] { TyK::Vector(_, e) => *e, _ => panic!() };
                        let (fw, tw) = (self.m.bits(fe), self.m.bits(te));
                        Ok(Val::A(Rc::new((0..n as usize).map(|i| self.cast_scalar(*c, fw, tw, &elt(&x, i))).collect())))
                    }
                }
            }
            IK::Alloca(size, _) => Ok(Val::C(s.mem.push_stack(*size))),
            IK::Load(ty, p) => { let a = self.ev(s, p); self.load(s, *ty, &a) }
            IK::Store(ty, v, p) => { let (v, a) = (self.ev(s, v), self.ev(s, p)); self.store(s, *ty, &v, &a)?; Ok(Val::U) }
            IK::Gep(b, off, ix) => {
                let base = self.ev(s, b);
                let mut r = self.padd(&base, *off as u64);
                for (o, w, scale) in ix {
                    match (self.ev(s, o), &r) {
                        (Val::C(i), Val::C(a)) => { let i = sx(i as u128, *w as u8) as i64; r = Val::C(a.wrapping_add(i.wrapping_mul(*scale) as u64)); }
                        (Val::U, _) | (_, Val::U) => return Ok(Val::U),
                        (i, a) => { let t = self.tm(&i, *w); let t = sext(t, 64); r = mkv(add(self.tm(a, 64), mul(t, mk_c(64, *scale as u64 as u128)))); }
                    }
                }
                Ok(r)
            }
            IK::ExtractValue(a, ix) => { let mut v = self.ev(s, a); for i in ix { v = elt(&v, *i as usize); } Ok(v) }
            IK::InsertValue(ty, a, x, ix) => { let v = self.ev(s, a); let v = if matches!(v, Val::U) { self.undef_of(*ty) } else { v }; let x = self.ev(s, x); Ok(insert(&v, ix, x)) }
            IK::ExtractElt(a, i) => {
                let v = self.ev(s, a);
                match self.ev(s, i) {
                    Val::C(i) => Ok(elt(&v, i as usize)),
                    Val::S(t) => { let i = self.concretize(s, t, 64)?; Ok(elt(&v, i as usize)) }
                    _ => Ok(Val::U),
                }
            }
            IK::InsertElt(ty, a, x, i) => { let v = self.ev(s, a); let v = if matches!(v, Val::U) { self.undef_of(*ty) } else { v }; let x = self.ev(s, x); let iv = self.ev(s, i); let i = self.conc(s, &iv, 64)?; Ok(insert(&v, &[i as u32], x)) }
            IK::Shuffle(ty, a, b, mk) => {
                let (x, y) = (self.ev(s, a), self.ev(s, b));
                let n = match &self.m.tys[*ty as usize] { TyK::Vector(n, _) => *n as i32, _ => panic!() };
                Ok(Val::A(Rc::new(mk.iter().map(|i| if *i < 0 { Val::U } else if *i < n { elt(&x, *i as usize) } else { elt(&y, (*i - n) as usize) }).collect())))
            }
            IK::Select(ct, ty, c, a, b) => {
                let cv = self.ev(s, c);
                let (x, y) = (self.ev(s, a), self.ev(s, b));
                if let TyK::Vector(n, _) = &self.m.tys[*ct as usize] {
                    let n = *n as usize;
                    let e = match &self.m.tys[*ty as usize] { TyK::Vector(_, e) => *e, _ => panic!() };
                    let mut r = vec![];
                    for i in 0..n { r.push(self.sel(e, &elt(&cv, i), &elt(&x, i), &elt(&y, i))?); }
                    return Ok(Val::A(Rc::new(r)));
                }
                self.sel(*ty, &cv, &x, &y)
            }
            IK::Rmw(op, ty, p, v) => {
                let (a, x) = (self.ev(s, p), self.ev(s, v));
                let old = self.load(s, *ty, &a)?;
                let w = self.m.bits(*ty);
                let new = match op.as_str() { "xchg" => x, "add" => self.bin_scalar(s, Bin::Add, w, false, &old, &x)?, "sub" => self.bin_scalar(s, Bin::Sub, w, false, &old, &x)?, "or" => self.bin_scalar(s, Bin::Or, w, false, &old, &x)?, "and" => self.bin_scalar(s, Bin::And, w, false, &old, &x)?, "xor" => self.bin_scalar(s, Bin::Xor, w, false, &old, &x)?, o => return Err(Stp::Err(format!("atomicrmw {}", o))) };
                self.store(s, *ty, &new, &a)?;
                Ok(old)
            }
            IK::CmpXchg(ty, p, c, n) => {
                let (a, c, n) = (self.ev(s, p), self.ev(s, c), self.ev(s, n));
                let old = self.load(s, *ty, &a)?;
                let w = self.m.bits(*ty);
                let e = self.icmp_scalar(Pred::Eq, w, &old, &c);
                let k = self.conc(s, &e, 2)?;
                if k == 1 { self.store(s, *ty, &n, &a)?; }
                Ok(Val::A(Rc::new(vec![old, Val::C(k)])))
            }
            IK::Freeze(ty, v) => {
                let x = self.ev(s, v);
                Ok(self.freeze(*ty, x))
            }
            IK::LandingPad(k) => Ok(Val::A(Rc::new(vec![Val::C(s.exc), Val::C(if k & 2 != 0 { 1 } else if k & 4 != 0 { 0xffffffff } else { 0 })]))),
            IK::Nop => Ok(Val::U),
            k => Err(Stp::Err(format!("unsupported instruction {:?}", k))),
        }
    }
    fn freeze(&mut self, ty: Ty, x: Val) -> Val {
        match (&x, self.fmt(ty)) {
            (Val::U, Some((w, _))) => { self.garbage += 1; mkv(mk_var(w as u8, format!("uninit{}", self.garbage))) }
            (Val::A(a), _) => { let e = match &self.m.tys[ty as usize] { TyK::Vector(_, e) | TyK::Array(_, e) => *e, _ => return x }; let v = a.iter().map(|y| self.freeze(e, y.clone())).collect(); Val::A(Rc::new(v)) }
            _ => x,
        }
    }
    fn undef_of(&self, t: Ty) -> Val {
        match &self.m.tys[t as usize] {
            TyK::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.undef_of(*x)).collect())),
            TyK::Array(n, e) => Val::A(Rc::new(vec![self.undef_of(*e); *n as usize])),
            TyK::Vector(n, e) => Val::A(Rc::new(vec![self.undef_of(*e); *n as usize])),
            _ => Val::U,
        }
    }
    fn sel(&mut self, ty: Ty, c: &Val, x: &Val, y: &Val) -> R<Val> {
        match c {
            Val::C(b) => Ok(if b & 1 == 1 { x.clone() } else { y.clone() }),
            Val::S(t) => {
                if x == y { return Ok(x.clone()); }
                match (x, y) {
                    (Val::U, v) | (v, Val::U) => return Ok(v.clone()),
                    (Val::A(p), Val::A(q)) => {
                        let mut r = vec![];
                        for i in 0..p.len() { let (_, et) = self.m.field_off(ty, i); r.push(self.sel(et, c, &p[i], &q[i])?); }
                        return Ok(Val::A(Rc::new(r)));
                    }
                    _ => {}
                }
                let w = self.m.bits(ty);
                Ok(mkv(ite(*t, self.tm(x, w), self.tm(y, w))))
            }
            _ => Err(Stp::Viol("undef".into(), "select on undefined condition".into())),
        }
    }

    // ---- calls ---------------------------------------------------------------------------
    fn finish(&mut self, s: &mut State, dst: u32, ci: &CallI, v: Val) {
        if dst != NODST { s.top.regs[dst as usize] = v; }
        match ci.inv { Some((n, _)) => self.goto(s, n), None => s.top.ip += 1 }
    }
    fn call(&mut self, s: &mut State, dst: u32, ci: &'static CallI) -> R<()> {
        if ci.intr != 0 {
            let v = self.intrinsic(s, ci)?;
            self.finish(s, dst, ci, v);
            return Ok(());
        }
        if ci.name.as_deref() == Some("asm") { self.finish(s, dst, ci, Val::C(0)); return Ok(()); }
        let cv = self.ev(s, &ci.callee);
        let a = match cv { Val::C(a) => a, Val::S(t) => self.concretize(s, t, 32)?, _ => return Err(Stp::Err("call through undefined pointer".into())) };
        let fid = match addr_fn(a) { Some(f) if (f as usize) < self.m.fns.len() => f, _ => return Err(Stp::Viol("memory".into(), format!("call of a non-function address {:#x}", a))) };
        if let Some(b) = self.builtin(fid) {
            let v = self.run_builtin(s, b, fid, ci)?;
            self.finish(s, dst, ci, v);
            return Ok(());
        }
        if self.m.fns[fid as usize].declared_only { return Err(Stp::Err(format!("call to external function {}", self.m.fns[fid as usize].name))); }
        let f = self.get_fn(fid);
        if self.trace_calls { eprintln!("{}{}", " ".repeat(s.below.len()), self.m.fns[fid as usize].pretty); }
        if self.verbose { *self.hot.entry(fid).or_insert(0) += 1; }
        if s.below.len() > 400 { return Err(Stp::Viol("resource".into(), "call depth over 400".into())); }
        let mut regs = vec![Val::U; f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { if i < ci.args.len() { regs[*p as usize] = self.ev(s, &ci.args[i].1); } }
        if ci.inv.is_none() { s.top.ip += 1; }
        let nf = Frame { f, regs, bb: 0, ip: 0, sbase: s.mem.stack.len(), dst, inv: ci.inv };
        let old = std::mem::replace(&mut s.top, nf);
        s.below.push(Rc::new(old));
        Ok(())
    }
    fn arg(&self, s: &State, ci: &CallI, i: usize) -> Val { self.ev(s, &ci.args[i].1) }
    fn map1(&mut self, v: Val, f: &mut dyn FnMut(&mut Self, &Val) -> R<Val>) -> R<Val> { match v { Val::A(a) => { let mut r = vec![]; for x in a.iter() { r.push(f(self, x)?); } Ok(Val::A(Rc::new(r))) } v => f(self, &v) } }
    fn intrinsic(&mut self, s: &mut State, ci: &'static CallI) -> R<Val> {
        let name = ci.name.as_deref().unwrap();
        let n = &name[5..];
        let a = |me: &Self, s: &State, i: usize| me.arg(s, ci, i);
        let ety = |me: &Self, t: Ty| match &me.m.tys[t as usize] { TyK::Vector(_, e) => *e, _ => t };
        if n.starts_with("memcpy") || n.starts_with("memmove") { let (d, sr, l) = (a(self, s, 0), a(self, s, 1), a(self, s, 2)); self.memcpy(s, &d, &sr, &l)?; return Ok(Val::U); }
        if n.starts_with("memset") { let (d, v, l) = (a(self, s, 0), a(self, s, 1), a(self, s, 2)); self.memset(s, &d, &v, &l)?; return Ok(Val::U); }
        let un = |me: &mut Self, s: &mut State, f: &dyn Fn(T) -> T| -> R<Val> { let t = ety(me, ci.args[0].0); let w = me.m.bits(t); let v = me.arg(s, ci, 0); me.map1(v, &mut |me, x| Ok(if matches!(x, Val::U) { Val::U } else { mkv(f(me.tm(x, w))) })) };
        let bi = |me: &mut Self, s: &mut State, f: &dyn Fn(T, T) -> T| -> R<Val> {
            let t = ety(me, ci.args[0].0); let w = me.m.bits(t); let (x, y) = (me.arg(s, ci, 0), me.arg(s, ci, 1));
            let g = |me: &Self, x: &Val, y: &Val| if matches!(x, Val::U) || matches!(y, Val::U) { Val::U } else { mkv(f(me.tm(x, w), me.tm(y, w))) };
            match (&x, &y) { (Val::A(p), Val::A(q)) => Ok(Val::A(Rc::new(p.iter().zip(q.iter()).map(|(x, y)| g(me, x, y)).collect()))), _ => Ok(g(me, &x, &y)) }
        };
        let base = n.split('.').next().unwrap();
        let fw = |me: &Self| me.m.bits(ety(me, ci.args[0].0)) as u8;
        let rw = |me: &Self| me.m.bits(ety(me, ci.ret)) as u8;
        match base {
            "ctpop" => un(self, s, &pop), "ctlz" => un(self, s, &clz), "cttz" => un(self, s, &ctz), "bswap" => un(self, s, &bswap), "bitreverse" => un(self, s, &bitrev),
            "abs" => un(self, s, &|x| { let w = width(x); ite(extract(x, w - 1, 1), neg(x), x) }),
            "umin" => bi(self, s, &|x, y| ite(ult(x, y), x, y)), "umax" => bi(self, s, &|x, y| ite(ult(x, y), y, x)), "smin" => bi(self, s, &|x, y| ite(slt(x, y), x, y)), "smax" => bi(self, s, &|x, y| ite(slt(x, y), y, x)),
            "fshl" | "fshr" => {
                let w = self.m.bits(ety(self, ci.args[0].0)); let (x, y, z) = (a(self, s, 0), a(self, s, 1), a(self, s, 2));
                if matches!(x, Val::A(_)) { return Err(Stp::Err("vector fsh".into())); }
                let (x, y, z) = (self.tm(&x, w), self.tm(&y, w), self.tm(&z, w));
                let w8 = w as u8;
                let k = urem(z, mk_c(w8, w as u128));
                let kr = sub(mk_c(w8, w as u128), k);
                let zero = eq(k, mk_c(w8, 0));
                Ok(mkv(if base == "fshl" { ite(zero, x, or(shl(x, k), lshr(y, kr))) } else { ite(zero, y, or(lshr(y, k), shl(x, kr))) }))
            }
            "umul" | "uadd" | "usub" | "sadd" | "ssub" | "smul" => {
                let w = self.m.bits(ety(self, ci.args[0].0)); let w8 = w as u8;
                let (x, y) = (a(self, s, 0), a(self, s, 1));
                if n.contains("sat") {
                    return match base { "usub" => bi(self, s, &|x, y| ite(ult(x, y), mk_c(width(x), 0), sub(x, y))), "uadd" => bi(self, s, &|x, y| { let r = add(x, y); ite(ult(r, x), mk_c(width(x), !0), r) }), _ => Err(Stp::Err(format!("intrinsic {}", n))) };
                }
                let (x, y) = (self.tm(&x, w), self.tm(&y, w));
                let (r, o) = match base {
                    "uadd" => { let r = add(x, y); let o = if w < 128 { extract(add(zext(x, w8 + 1), zext(y, w8 + 1)), w8, 1) } else { ult(r, x) }; (r, o) }
                    "usub" => (sub(x, y), ult(x, y)),
                    "umul" => {
                        let r = mul(x, y);
                        let o = match node(x).hi.checked_mul(node(y).hi) { Some(h) if h <= mask(w8) => fal(), _ => if w <= 64 { let p = mul(zext(x, w8 * 2), zext(y, w8 * 2)); not(eq(extract(p, w8, w8), mk_c(w8, 0))) } else { return Err(Stp::Err("umul.with.overflow.i128".into())) } };
                        (r, o)
                    }
                    "sadd" => { let r = add(x, y); let (sa, sb, sr) = (extract(x, w8 - 1, 1), extract(y, w8 - 1, 1), extract(r, w8 - 1, 1)); (r, and(not(xor(sa, sb)), xor(sa, sr))) }
                    "ssub" => { let r = sub(x, y); let (sa, sb, sr) = (extract(x, w8 - 1, 1), extract(y, w8 - 1, 1), extract(r, w8 - 1, 1)); (r, and(xor(sa, sb), xor(sa, sr))) }
                    _ => { if w > 64 { return Err(Stp::Err("smul i128".into())); } let p = mul(sext(x, w8 * 2), sext(y, w8 * 2)); let r = extract(p, 0, w8); (r, not(eq(p, sext(r, w8 * 2)))) }
                };
                Ok(Val::A(Rc::new(vec![mkv(r), mkv(o)])))
            }
            "ucmp" | "scmp" => { let w = self.m.bits(ci.args[0].0); let r = rw(self); let (x, y) = (a(self, s, 0), a(self, s, 1)); let (x, y) = (self.tm(&x, w), self.tm(&y, w)); let lt = if base == "ucmp" { ult(x, y) } else { slt(x, y) }; Ok(mkv(ite(lt, mk_c(r, !0), ite(eq(x, y), mk_c(r, 0), mk_c(r, 1))))) }
            "is" => {
                let w = self.m.bits(ci.args[0].0) as u8;
                let x = a(self, s, 0); let x = self.tm(&x, w as u32);
                let k = match a(self, s, 1) { Val::C(k) => k, _ => return Err(Stp::Err("is.fpclass mask".into())) };
                let f = if w == 32 { 23u8 } else { 52 };
                let (sg, ex, fr) = (extract(x, w - 1, 1), extract(x, f, w - 1 - f), extract(x, 0, f));
                let (e1, e0, f0) = (eq(ex, mk_c(w - 1 - f, !0 & ((1u128 << (w - 1 - f)) - 1))), eq(ex, mk_c(w - 1 - f, 0)), eq(fr, mk_c(f, 0)));
                let q = extract(fr, f - 1, 1);
                let mut r = fal();
                let cl: [T; 10] = [and(and(e1, not(f0)), not(q)), and(e1, q), and(and(e1, f0), sg), and(and(not(e1), not(e0)), sg), and(and(e0, not(f0)), sg), and(and(e0, f0), sg), and(and(e0, f0), not(sg)), and(and(e0, not(f0)), not(sg)), and(and(not(e1), not(e0)), not(sg)), and(and(e1, f0), not(sg))];
                for (i, c) in cl.iter().enumerate() { if (k >> i) & 1 == 1 { r = or(r, *c); } }
                Ok(mkv(r))
            }
            "fabs" => { let w = fw(self); un(self, s, &|x| cat(mk_c(1, 0), extract(x, 0, w - 1))) }
            "copysign" => { let w = fw(self); bi(self, s, &|x, y| cat(extract(y, w - 1, 1), extract(x, 0, w - 1))) }
            "sqrt" | "round" | "floor" | "ceil" | "trunc" | "roundeven" | "rint" | "nearbyint" | "log" | "exp" => {
                let w = fw(self);
                let o = match base { "sqrt" => FOp::Sqrt, "round" => FOp::Round, "floor" => FOp::Floor, "ceil" => FOp::Ceil, "trunc" => FOp::Trunc, "log" => FOp::Log, "exp" => FOp::Exp, _ => FOp::RoundEven };
                un(self, s, &|x| fp(o, w, w, &[x]))
            }
            "fma" | "fmuladd" => Err(Stp::Err("fma".into())),
            "minimumnum" | "minnum" => bi(self, s, &|x, y| ite(fisnan(x), y, ite(fisnan(y), x, ite(flt(x, y), x, ite(flt(y, x), y, or(x, y)))))),
            "maximumnum" | "maxnum" => bi(self, s, &|x, y| ite(fisnan(x), y, ite(fisnan(y), x, ite(flt(x, y), y, ite(flt(y, x), x, and(x, y)))))),
            "fptoui" => { let (w, r) = (fw(self), rw(self)); un(self, s, &|x| fp(FOp::ToU, w, r, &[x])) }
            "fptosi" => { let (w, r) = (fw(self), rw(self)); un(self, s, &|x| fp(FOp::ToS, w, r, &[x])) }
            "is" if n.starts_with("is.constant") => Ok(Val::C(0)),
            "threadlocal" => Ok(a(self, s, 0)),
            "trap" | "debugtrap" => Err(Stp::Viol("abort".into(), "trap".into())),
            "expect" => Ok(a(self, s, 0)),
            "stacksave" | "stackrestore" | "prefetch" | "va_start" | "va_end" => Ok(Val::C(0)),
            "vector" if n.starts_with("vector.reduce.") => {
                let v = a(self, s, 0); let e = ety(self, ci.args[0].0); let w = self.m.bits(e);
                let op = n[14..].split('.').next().unwrap();
                let xs = match v { Val::A(x) => x, _ => return Ok(Val::U) };
                let mut r = self.tm(&xs[0], w);
                for x in xs[1..].iter() { let y = self.tm(x, w); r = match op { "add" => add(r, y), "or" => or(r, y), "and" => and(r, y), "xor" => xor(r, y), "mul" => mul(r, y), "umax" => ite(ult(r, y), y, r), "umin" => ite(ult(r, y), r, y), _ => return Err(Stp::Err(format!("intrinsic {}", n))) }; }
                Ok(mkv(r))
            }
            "x86" => {
                if n.starts_with("x86.avx2.gather.d.d") {
                    // (passthru, base ptr, index vec, mask vec, scale)
                    let (pt, b, ix, mk, sc) = (a(self, s, 0), a(self, s, 1), a(self, s, 2), a(self, s, 3), a(self, s, 4));
                    let sc = match sc { Val::C(x) => x, _ => 1 };
                    let i32t = self.m.ty(TyK::Int(32));
                    let mut r = vec![];
                    let cnt = match &ix { Val::A(v) => v.len(), _ => panic!() };
                    for i in 0..cnt {
                        let mv = elt(&mk, i);
                        let on = match mv { Val::C(x) => x >> 31 & 1, _ => return Err(Stp::Err("symbolic gather mask".into())) };
                        if on == 0 { r.push(elt(&pt, i)); continue; }
                        let p = match (elt(&ix, i), &b) {
                            (Val::C(x), Val::C(bb)) => Val::C(bb.wrapping_add((sx(x as u128, 32) as i64 as u64).wrapping_mul(sc))),
                            (Val::U, _) => return Err(Stp::Viol("undef".into(), "gather with undefined index".into())),
                            (x, bb) => mkv(add(self.tm(bb, 64), mul(sext(self.tm(&x, 32), 64), mk_c(64, sc as u128)))),
                        };
                        r.push(self.load(s, i32t, &p)?);
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                if n.starts_with("x86.avx2.pshuf.b") || n.starts_with("x86.ssse3.pshuf.b") {
                    let (x, m) = (a(self, s, 0), a(self, s, 1));
                    let cnt = match &x { Val::A(v) => v.len(), _ => panic!() };
                    let mut r = vec![];
                    for i in 0..cnt {
                        let mt = self.tm(&elt(&m, i), 8);
                        let lane = i / 16 * 16;
                        let vals: Vec<T> = (0..16).map(|j| self.tm(&elt(&x, lane + j), 8)).collect();
                        let sel = extract(mt, 0, 4);
                        let v = match cval(sel) { Some(k) => vals[k as usize], None => self.mux_terms(sel, &vals) };
                        r.push(mkv(ite(extract(mt, 7, 1), mk_c(8, 0), v)));
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                if n.starts_with("x86.avx2.psad.bw") || n.starts_with("x86.sse2.psad.bw") {
                    let (x, y) = (a(self, s, 0), a(self, s, 1));
                    let cnt = match &x { Val::A(v) => v.len(), _ => panic!() };
                    let mut r = vec![];
                    for k in 0..cnt / 8 {
                        let mut acc = mk_c(64, 0);
                        for j in 0..8 { let (p, q) = (self.tm(&elt(&x, k * 8 + j), 8), self.tm(&elt(&y, k * 8 + j), 8)); let d = ite(ult(p, q), sub(q, p), sub(p, q)); acc = add(acc, zext(d, 64)); }
                        r.push(mkv(acc));
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                if n.starts_with("x86.sse2.pause") { return Ok(Val::U); }
                if n.contains("pmadd.ub.sw") {
                    let (x, y) = (a(self, s, 0), a(self, s, 1));
                    let cnt = match &x { Val::A(v) => v.len(), _ => panic!() };
                    let mut r = vec![];
                    for k in 0..cnt / 2 {
                        let f = |me: &Self, j: usize| mul(zext(me.tm(&elt(&x, j), 8), 32), sext(me.tm(&elt(&y, j), 8), 32));
                        let t = add(f(self, 2 * k), f(self, 2 * k + 1));
                        let (mx, mn) = (mk_c(32, 32767), mk_c(32, (-32768i32) as u32 as u128));
                        r.push(mkv(extract(ite(slt(mx, t), mx, ite(slt(t, mn), mn, t)), 0, 16)));
                    }
                    return Ok(Val::A(Rc::new(r)));
                }
                if n.contains("pmadd.wd") {
                    let (x, y) = (a(self, s, 0), a(self, s, 1));
                    let cnt = match &x { Val::A(v) => v.len(), _ => panic!() };
                    let mut r = vec![];
                    for k in 0..cnt / 2 { let f = |me: &Self, j: usize| mul(sext(me.tm(&elt(&x, j), 16), 32), sext(me.tm(&elt(&y, j), 16), 32)); r.push(mkv(add(f(self, 2 * k), f(self, 2 * k + 1)))); }
                    return Ok(Val::A(Rc::new(r)));
                }
                Err(Stp::Err(format!("intrinsic {}", n)))
            }
            _ => Err(Stp::Err(format!("intrinsic {}", n))),
        }
    }

    fn builtin(&mut self, fid: u32) -> Option<u32> {
        if let Some(b) = self.builtins.get(&fid) { return *b; }
        let (n, p, d) = { let f = &self.m.fns[fid as usize]; (f.name.to_string(), f.pretty.to_string(), f.declared_only) };
        let mut b = None;
        if p.starts_with("__rustc::") || n.contains("___rustc") {
            for (k, s) in ["__rust_alloc_zeroed", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "rust_begin_unwind", "__rust_no_alloc_shim", "__rust_start_panic", "__rust_panic_cleanup", "__rdl_alloc_zeroed", "__rdl_alloc", "__rdl_dealloc", "__rdl_realloc", "__rust_alloc_error_handler"].iter().enumerate() {
                if p.ends_with(s) || n.ends_with(s) { b = Some(BUILTINS.iter().position(|x| x == s).unwrap() as u32); let _ = k; break; }
            }
        }
        if b.is_none() && !d {
            let pats: &[(&str, &str)] = &[
                ("core::panicking::panic_nounwind", "panic_abort"), ("core::panicking::panic_cannot_unwind", "panic_abort"), ("core::panicking::panic_in_cleanup", "panic_abort"), ("core::panicking::panic_null", "panic_abort"), ("core::panicking::panic_misaligned", "panic_abort"),
                ("core::panicking::panic_fmt", "panic_fmt"), ("core::panicking::panic_bounds_check", "panic_other"), ("core::panicking::panic", "panic_str"), ("core::panicking::", "panic_other"),
                ("core::option::unwrap_failed", "panic_other"), ("core::option::expect_failed", "panic_other"), ("core::result::unwrap_failed", "panic_other"), ("core::slice::index::slice_", "panic_other"), ("core::str::slice_error_fail", "panic_other"), ("core::cell::panic_already", "panic_other"),
                ("std::panicking::begin_panic", "panic_str"), ("std::panicking::panic_with_hook", "panic_other"), ("std::panicking::rust_panic", "panic_other"),
                ("std::process::abort", "abort"), ("alloc::raw_vec::handle_error", "panic_other"), ("alloc::alloc::handle_alloc_error", "panic_other"), ("alloc::raw_vec::capacity_overflow", "panic_other"),
                ("std::panicking::catch_unwind::cleanup", "catch_cleanup"), ("std::panicking::try::cleanup", "catch_cleanup"),
                ("std::io::stdio::_print", "nop"), ("std::io::stdio::_eprint", "nop"), ("alloc::fmt::format::format_inner", "format_inner"), ("std::sys::backtrace", "backtrace"),
            ];
            for (pat, bn) in pats {
                if p.starts_with(pat) {
                    // exact function (not a closure nested elsewhere)
                    if *pat == "core::panicking::panic" && p != "core::panicking::panic" && !p.starts_with("core::panicking::panic::") { continue; }
                    if *bn == "backtrace" { continue; }
                    b = Some(BUILTINS.iter().position(|x| x == bn).unwrap() as u32); break;
                }
            }
        }
        if b.is_none() && d {
            b = BUILTINS.iter().position(|x| *x == n).map(|x| x as u32);
        }
        self.builtins.insert(fid, b);
        b
    }
    fn read_str(&mut self, s: &State, p: u64, n: u64) -> String {
        let mut v = vec![];
        if let Ok(o) = s.mem.obj(p >> SLOT) { let off = p.wrapping_sub(o.base); for i in 0..n.min(200) { if off + i < o.size { if let B::C(c) = o.get(off + i) { v.push(c); } } } }
        String::from_utf8_lossy(&v).to_string()
    }
    fn location(&mut self, s: &State, ci: &CallI) -> String {
        // the last pointer argument of panic functions is &'static Location {ptr,len,line,col}
        for (_, o) in ci.args.iter().rev() {
            if let Val::C(a) = self.ev(s, o) {
                if let Ok(ob) = s.mem.obj(a >> SLOT) {
                    let off = a.wrapping_sub(ob.base);
                    if off + 24 <= ob.size {
                        if let (Some(p), Some(l), Some(line)) = (ob.read_conc(off, 8), ob.read_conc(off + 8, 8), ob.read_conc(off + 16, 4)) {
                            if l < 300 && Self::is_ptrish(p) { let f = self.read_str(s, p, l); if f.contains(".rs") { return format!("{}:{}", f.trim_end_matches('\0'), line); } }
                        }
                    }
                }
            }
        }
        "?".into()
    }
    fn is_panic_builtin(b: &str) -> bool { matches!(b, "panic_fmt" | "panic_other" | "panic_str" | "rust_begin_unwind" | "__rust_start_panic") }
    fn input(&mut self, s: &mut State, w: u8, lim: u128) -> T {
        let k = s.nin.len();
        if let Some(v) = &self.concrete { let t = mk_c(w, v.get(k).copied().unwrap_or(0) as u128); s.nin.push(t); return t; }
        let t = match self.invars.get(&(k, w)) { Some(t) => *t, None => { let t = mk_var(w, format!("in{}_{}", k, w)); set_default(t, lim); self.invars.insert((k, w), t); t } };
        s.nin.push(t);
        t
    }
    fn assume(&mut self, s: &mut State, c: T) -> R<()> {
        if !is_true(c) { self.leaf(s, Some(not(c))); }
        match self.feasible(s, c) {
            Ok(Some(m)) => { self.push_pc(s, c); s.model = m; Ok(()) }
            _ => Err(Stp::Kill),
        }
    }
    fn check(&mut self, s: &mut State, c: T, id: &str) -> R<()> {
        let e = self.st.checks.entry(id.to_string()).or_insert((0, 0));
        e.0 += 1;
        if is_true(c) { e.1 += 1; return Ok(()); }
        // sums of bits first (carry-save kernels)
        if !is_false(c) { if let Some((a, b)) = self.as_sum_eq(c) {
            if let Some(m) = self.guess(s, not(c), 12) {
                self.report_model(&s.clone(), &m, "check", id, "assertion can fail");
                return self.assume(s, c);
            }
            if sum_equal(&mut self.sol, a, b) == Some(true) { self.st.checks.get_mut(id).unwrap().1 += 1; return Ok(()); } } }
        // conjunct by conjunct: every part proved separately keeps the queries small
        let mut parts = vec![];
        conjuncts(c, &mut parts);
        let mut undecided = false;
        for p in parts {
            match self.feasible_q(s, not(p)) {
                Ok(None) => {}
                Ok(Some(m)) => {
                    self.report_model(&s.clone(), &m, "check", id, "assertion can fail");
                    return self.assume(s, c);
                }
                Err(()) => undecided = true,
            }
        }
        if undecided { self.incomplete.push(format!("check {} undecided", id)); return self.assume(s, c); }
        self.st.checks.get_mut(id).unwrap().1 += 1;
        Ok(())
    }
    fn as_sum_eq(&self, c: T) -> Option<(T, T)> {
        match &node(c).n { N::Eq(a, b) if width(*a) > 1 => { let big = |t: T| matches!(node(t).n, N::Add(..) | N::Pop(_) | N::Cat(..) | N::Ext(..)); if big(*a) || big(*b) { Some((*a, *b)) } else { None } } _ => None }
    }
    fn run_builtin(&mut self, s: &mut State, b: u32, fid: u32, ci: &'static CallI) -> R<Val> {
        let name = BUILTINS[b as usize];
        let a = |me: &Self, s: &State, i: usize| me.arg(s, ci, i);
        if Self::is_panic_builtin(name) {
            let loc = self.location(s, ci);
            let mut msg = String::new();
            if name == "panic_str" { if let (Val::C(p), Val::C(n)) = (a(self, s, 0), if ci.args.len() > 1 { a(self, s, 1) } else { Val::U }) { msg = self.read_str(s, p, n); } }
            let pn = self.m.fns[fid as usize].pretty.to_string();
            if loc == "?" { let mut w = self.where_(s); w.truncate(200); msg = format!("{} {} in {}", msg, pn, w); }
            s.last_panic = format!("{} {}", loc, msg).trim().into();
            s.exc = 0xdead0;
            if self.verbose && self.trace_calls { eprintln!("PANIC {}", s.last_panic); }
            return Err(Stp::Throw);
        }
        match name {
            "__rust_alloc" | "__rdl_alloc" => { let (n, al) = (a(self, s, 0), a(self, s, 1)); let n = self.conc(s, &n, 300)?; let al = self.conc(s, &al, 8)?; if n > 15_000_000 { return Err(Stp::Err(format!("allocation of {} bytes", n))); } Ok(Val::C(s.mem.alloc(n, al, false))) }
            "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => { let (n, al) = (a(self, s, 0), a(self, s, 1)); let n = self.conc(s, &n, 300)?; let al = self.conc(s, &al, 8)?; if n > 15_000_000 { return Err(Stp::Err(format!("allocation of {} bytes", n))); } Ok(Val::C(s.mem.alloc(n, al, true))) }
            "__rust_dealloc" | "__rdl_dealloc" | "free" => { let p = a(self, s, 0); let p = self.conc(s, &p, 64)?; if p != 0 { if let Err(m) = s.mem.free(p) { return Err(Stp::Viol("memory".into(), m)); } } Ok(Val::U) }
            "__rust_realloc" | "__rdl_realloc" => {
                let (p, o, al, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2), a(self, s, 3));
                let (p, o, al, n) = (self.conc(s, &p, 64)?, self.conc(s, &o, 64)?, self.conc(s, &al, 8)?, self.conc(s, &n, 300)?);
                if n > 15_000_000 { return Err(Stp::Err(format!("allocation of {} bytes", n))); }
                let q = s.mem.alloc(n, al, false);
                self.memcpy(s, &Val::C(q), &Val::C(p), &Val::C(o.min(n)))?;
                if let Err(m) = s.mem.free(p) { return Err(Stp::Viol("memory".into(), m)); }
                Ok(Val::C(q))
            }
            "malloc" => { let n = a(self, s, 0); let n = self.conc(s, &n, 64)?; Ok(Val::C(s.mem.alloc(n, 16, false))) }
            "calloc" => { let (x, y) = (a(self, s, 0), a(self, s, 1)); let n = self.conc(s, &x, 64)? * self.conc(s, &y, 64)?; Ok(Val::C(s.mem.alloc(n, 16, true))) }
            "posix_memalign" => { let (p, al, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2)); let (al, n) = (self.conc(s, &al, 8)?, self.conc(s, &n, 64)?); let q = s.mem.alloc(n, al, false); let t = self.m.ty(TyK::Ptr); self.store(s, t, &Val::C(q), &p)?; Ok(Val::C(0)) }
            "__rust_no_alloc_shim" | "nop" => Ok(Val::U),
            "format_inner" => {
                // returns an empty String via sret {cap, ptr, len}
                let p = a(self, s, 0);
                let t = self.m.ty(TyK::Int(64));
                let vals = [0u64, 1, 0];
                for (i, v) in vals.iter().enumerate() { let q = self.padd(&p, 8 * i as u64); self.store(s, t, &Val::C(*v), &q)?; }
                Ok(Val::U)
            }
            "catch_cleanup" | "__rust_panic_cleanup" => {
                // Box<dyn Any + Send> of a zero-sized payload with a minimal vtable
                let vt = s.mem.alloc(64, 8, true);
                let t = self.m.ty(TyK::Int(64));
                self.store(s, t, &Val::C(1), &Val::C(vt + 16))?;
                Ok(Val::A(Rc::new(vec![Val::C(1), Val::C(vt)])))
            }
            "panic_abort" | "abort" | "__rust_alloc_error_handler" => { let loc = self.location(s, ci); let p = if s.last_panic.is_empty() { String::new() } else { format!(" after panic at {}", s.last_panic) }; Err(Stp::Viol("abort".into(), format!("{} {}{}", self.m.fns[fid as usize].pretty, loc, p))) }
            "clock_gettime" => { let p = a(self, s, 1); let t = self.m.ty(TyK::Int(64)); self.store(s, t, &Val::C(1), &p)?; let q = self.padd(&p, 8); self.store(s, t, &Val::C(0), &q)?; Ok(Val::C(0)) }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2));
                let n = self.conc(s, &n, 300)?;
                if n == 0 { return Ok(Val::C(0)); }
                let (p, q) = (self.conc(s, &p, 64)?, self.conc(s, &q, 64)?);
                let (x, y) = (self.bytes_at(s, p, n)?, self.bytes_at(s, q, n)?);
                let mut r = mk_c(32, 0);
                for i in (0..n as usize).rev() { r = ite(eq(x[i], y[i]), r, if name == "bcmp" { mk_c(32, 1) } else { sub(zext(x[i], 32), zext(y[i], 32)) }); }
                Ok(mkv(r))
            }
            "strlen" => { let p = a(self, s, 0); let p = self.conc(s, &p, 64)?; let mut n = 0; loop { let v = self.load_n(s, &Val::C(p + n), 1)?; let v = self.conc(s, &v, 256)?; if v == 0 { return Ok(Val::C(n)); } n += 1; } }
            "memcpy" | "memmove" => { let (d, sr, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2)); self.memcpy(s, &d, &sr, &n)?; Ok(d) }
            "memset" => { let (d, v, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2)); let v = match v { Val::S(t) => Val::S(extract(t, 0, 8)), v => v }; self.memset(s, &d, &v, &n)?; Ok(d) }
            "getenv" | "__cxa_thread_atexit_impl" | "pthread_self" => Ok(Val::C(0)),
            "write" | "writev" => Ok(Val::C(0)),
            "__errno_location" => Ok(Val::C(s.mem.alloc(4, 4, true))),
            "logf" => { let v = a(self, s, 0); Ok(mkv(fp(FOp::Log, 32, 32, &[self.tm(&v, 32)]))) }
            "expf" => { let v = a(self, s, 0); Ok(mkv(fp(FOp::Exp, 32, 32, &[self.tm(&v, 32)]))) }
            "log" => { let v = a(self, s, 0); Ok(mkv(fp(FOp::Log, 64, 64, &[self.tm(&v, 64)]))) }
            "exp" => { let v = a(self, s, 0); Ok(mkv(fp(FOp::Exp, 64, 64, &[self.tm(&v, 64)]))) }
            // ---- harness interface ----
            "sym_bits" => { let w = a(self, s, 0); let w = self.conc(s, &w, 1)? as u8; let t = self.input(s, w, 0); Ok(mkv(zext(t, 64))) }
            "sym_range" => {
                let n = a(self, s, 0); let n = self.conc(s, &n, 1)?;
                if n <= 1 { return Ok(Val::C(0)); }
                let w = (64 - (n - 1).leading_zeros()) as u8;
                let t = self.input(s, w, n as u128);
                let mut t = t;
                if !n.is_power_of_two() {
                    let c = ult(t, mk_c(w, n as u128));
                    self.assume(s, c)?;
                    // as a table, entries that cannot occur repeat the last one that can
                    if ts().deep { t = ite(c, t, mk_c(w, n as u128 - 1)); }
                }
                Ok(mkv(zext(t, 64)))
            }
            "sym_case" => {
                let n = a(self, s, 0); let n = self.conc(s, &n, 1)?;
                if let Some(v) = &self.concrete { let x = v.get(s.nin.len()).copied().unwrap_or(0); s.nin.push(mk_c(64, x as u128)); return Ok(Val::C(x)); }
                if self.case_probe && self.case_state.is_none() { self.case_state = Some((s.clone(), n)); return Err(Stp::CaseProbe); }
                if let Some(k) = self.case.take() { s.nin.push(mk_c(64, k as u128)); return Ok(Val::C(k)); }
                // nested case: enumerate here
                let mut outs = vec![];
                let w = (64 - (n - 1).leading_zeros()).max(1) as u8;
                let k = s.nin.len();
                let t = match self.invars.get(&(k, w)) { Some(t) => *t, None => { let t = mk_var(w, format!("case{}_{}", k, w)); self.invars.insert((k, w), t); t } };
                if !n.is_power_of_two() { let c = ult(t, mk_c(w, n as u128)); if !is_true(c) { self.leaf(s, Some(not(c))); } }
                for v in 0..n {
                    let mut x = s.clone();
                    x.nin.push(t);
                    let mut vals = x.model.borrow().vals.clone();
                    if let N::V(id) = node(t).n { vals.insert(id, v as u128); }
                    x.model = Rc::new(RefCell::new(Model::new(vals)));
                    let c = eq(t, mk_c(w, v as u128));
                    self.push_pc(&mut x, c);
                    // complete the call in the copy
                    let dst = { let f = x.top.f; f.blocks[x.top.bb as usize].insts[x.top.ip as usize].dst };
                    self.finish(&mut x, dst, ci, Val::C(v));
                    outs.push(x);
                }
                outs.reverse();
                Err(Stp::Fork(outs))
            }
            "sym_assume" => {
                let c = a(self, s, 0);
                let t = match c { Val::C(x) => { if x & 0xff != 0 { return Ok(Val::U); } else { return Err(Stp::Kill); } } Val::S(t) => if width(t) == 1 { t } else { not(eq(t, mk_c(width(t), 0))) }, _ => return Err(Stp::Kill) };
                self.assume(s, t)?;
                Ok(Val::U)
            }
            "sym_check" => {
                let (c, p, n) = (a(self, s, 0), a(self, s, 1), a(self, s, 2));
                let id = match (p, n) { (Val::C(p), Val::C(n)) => self.read_str(s, p, n), _ => "?".into() };
                let t = match c { Val::C(x) => mk_c(1, (x & 0xff != 0) as u128), Val::S(t) => if width(t) == 1 { t } else { not(eq(t, mk_c(width(t), 0))) }, _ => return Err(Stp::Err("check on undefined value".into())) };
                self.check(s, t, &id)?;
                Ok(Val::U)
            }
            "sym_cover" => { let (p, n) = (a(self, s, 0), a(self, s, 1)); if let (Val::C(p), Val::C(n)) = (p, n) { let id = self.read_str(s, p, n); *self.st.covers.entry(id).or_insert(0) += 1; } Ok(Val::U) }
            "sym_observe" => { let v = a(self, s, 0); let t = self.tm(&v, 64); s.obs.push(t); Ok(Val::U) }
            "sym_concretize" => { let v = a(self, s, 0); Ok(Val::C(self.conc(s, &v, 70000)?)) }
            "sym_merge_level" => { let v = a(self, s, 0); if let Val::C(x) = v { self.merge_level = x as u32; } Ok(Val::U) }
            "sym_is_symbolic" => Ok(Val::C(1)),
            "sym_lut_bits" => { if let Val::C(x) = a(self, s, 0) { ts().lut_bits = x as u32; ts().deep = x > 0; } Ok(Val::U) }
            _ => Err(Stp::Err(format!("builtin {}", name))),
        }
    }
}
pub const BUILTINS: &[&str] = &[
    "__rust_alloc_zeroed", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "rust_begin_unwind", "__rust_no_alloc_shim", "__rust_start_panic", "__rust_panic_cleanup", "__rdl_alloc_zeroed", "__rdl_alloc", "__rdl_dealloc", "__rdl_realloc", "__rust_alloc_error_handler",
    "panic_abort", "panic_fmt", "panic_other", "panic_str", "abort", "catch_cleanup", "nop", "format_inner",
    "malloc", "calloc", "free", "posix_memalign", "clock_gettime", "memcmp", "bcmp", "strlen", "memcpy", "memmove", "memset", "getenv", "__cxa_thread_atexit_impl", "pthread_self", "write", "writev", "__errno_location", "logf", "expf", "log", "exp",
    "sym_bits", "sym_range", "sym_case", "sym_assume", "sym_check", "sym_cover", "sym_observe", "sym_concretize", "sym_merge_level", "sym_is_symbolic", "sym_lut_bits",
];
fn elt(v: &Val, i: usize) -> Val { match v { Val::A(a) => a[i].clone(), Val::U => Val::U, v => if i == 0 { v.clone() } else { panic!("element of scalar") } } }
fn insert(v: &Val, ix: &[u32], x: Val) -> Val {
    match v {
        Val::A(a) => { let mut r = (**a).clone(); let i = ix[0] as usize; r[i] = if ix.len() == 1 { x } else { insert(&r[i], &ix[1..], x) }; Val::A(Rc::new(r)) }
        _ => panic!("insert into non-aggregate"),
    }
}

fn conjuncts(c: T, out: &mut Vec<T>) {
    if out.len() > 400 { out.push(c); return; }
    match &node(c).n {
        N::And(a, b) if node(c).w == 1 => { conjuncts(*a, out); conjuncts(*b, out); }
        N::Not(x) if node(c).w == 1 => match &node(*x).n {
            N::Or(a, b) => { conjuncts(not(*a), out); conjuncts(not(*b), out); }
            _ => out.push(c),
        },
        N::Eq(a, b) => {
            let (x, z) = if cval(*b) == Some(0) { (*a, true) } else if cval(*a) == Some(0) { (*b, true) } else { (*a, false) };
            let w = width(x);
            match &node(x).n {
                N::Or(p, q) if z && w > 1 => { conjuncts(eq(*p, mk_c(w, 0)), out); conjuncts(eq(*q, mk_c(w, 0)), out); }
                N::Cat(h, l) if z => { conjuncts(eq(*h, mk_c(width(*h), 0)), out); conjuncts(eq(*l, mk_c(width(*l), 0)), out); }
                _ => out.push(c),
            }
        }
        _ => out.push(c),
    }
}
