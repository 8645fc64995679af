//! Hash-consed bit-vector terms with constructor-time simplification.
//! Width 1 doubles as Bool.  Floating point values are bit patterns; FP operations over small
//! domains are tabulated exactly (`Lut`), everything else becomes an `F` node (SMT FP theory).
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Sqrt, Round, Floor, Ceil, Trunc, RoundEven, FromU, FromS, ToU, ToS, Ext, Tr, Log, Exp, Rem }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    V(u32),
    Not(T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Add(Box<[(T, u128)]>, u128),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Cat(T, T),
    Ext(T, u8),
    Sext(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Pop(T),
    Clz(T),
    Ctz(T),
    Lut(Box<[T]>, Rc<Vec<u64>>),
    /// op, format of the *operand* (32/64; for FromU/FromS the result format), args
    F(FOp, u8, Box<[T]>),
}

pub struct Node {
    pub n: N,
    pub w: u8,
    pub kz: u128,
    pub ko: u128,
    pub lo: u128,
    pub hi: u128,
}

/// append-only storage whose elements never move (`node` hands out references that outlive pushes)
pub struct Arena { chunks: Vec<Vec<Node>>, n: usize }
const CH: usize = 1 << 14;
impl Arena {
    pub fn len(&self) -> usize { self.n }
    fn push(&mut self, x: Node) {
        if self.n % CH == 0 { self.chunks.push(Vec::with_capacity(CH)); }
        self.chunks.last_mut().unwrap().push(x); self.n += 1;
    }
}

pub struct Terms {
    pub nodes: Arena,
    map: HashMap<N2, T, Fx>,
    pub var_w: Vec<u8>,
    pub var_t: Vec<T>,
    pub var_name: Vec<String>, pub var_def: Vec<u128>,
    pub ext_memo: HashMap<(T, u8, u8), T, Fx>,
    sup: HashMap<T, Rc<Vec<u32>>, Fx>,
    pub lut_bits: u32,
    pub deep: bool,
}
#[derive(PartialEq, Eq, Hash)]
struct N2(u8, N);

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i + 8 <= b.len() { self.write_u64(u64::from_le_bytes(b[i..i + 8].try_into().unwrap())); i += 8; }
        while i < b.len() { self.write_u64(b[i] as u64); i += 1; }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}

static mut TS: *mut Terms = std::ptr::null_mut();
#[inline]
pub fn ts() -> &'static mut Terms {
    unsafe {
        if TS.is_null() {
            TS = Box::leak(Box::new(Terms {
                nodes: Arena { chunks: vec![], n: 0 }, map: HashMap::default(), var_w: vec![], var_t: vec![], var_name: vec![], var_def: vec![],
                ext_memo: HashMap::default(), sup: HashMap::default(), lut_bits: 12, deep: false,
            }));
        }
        &mut *TS
    }
}

#[inline]
pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }
#[inline]
pub fn node(t: T) -> &'static Node { unsafe { ts().nodes.chunks.get_unchecked(t as usize / CH).get_unchecked(t as usize % CH) } }
#[inline]
pub fn width(t: T) -> u8 { node(t).w }
#[inline]
pub fn cval(t: T) -> Option<u128> { match node(t).n { N::C(v) => Some(v), _ => None } }
pub fn is_true(t: T) -> bool { cval(t) == Some(1) && width(t) == 1 }
pub fn is_false(t: T) -> bool { cval(t) == Some(0) && width(t) == 1 }

fn bits_for(v: u128) -> u8 { (128 - v.leading_zeros()) as u8 }

fn intern(w: u8, n: N) -> T {
    let s = ts();
    let key = N2(w, n);
    if let Some(&t) = s.map.get(&key) { return t; }
    if s.deep && w <= 64 && !matches!(key.1, N::C(_) | N::V(_) | N::Lut(..) | N::Cat(..)) {
        if let Some(t) = tabulate(w, &key.1) { s.map.insert(key, t); return t; }
    }
    let n = key.1.clone();
    let (mut kz, mut ko, mut lo, mut hi) = facts(w, &n);
    let m = mask(w);
    kz &= m; ko &= m;
    // reconcile
    lo = lo.max(ko); hi = hi.min(m & !kz);
    if hi < m { let b = bits_for(hi); kz |= m & !mask(b); }
    if lo > hi { lo = ko; hi = m & !kz; }
    let t = s.nodes.len() as T;
    // a term whose facts pin it down is a constant
    if !matches!(n, N::C(_)) {
        if lo == hi { return mk_c(w, lo); }
        if kz | ko == m { return mk_c(w, ko); }
    }
    s.nodes.push(Node { n, w, kz, ko, lo, hi });
    s.map.insert(key, t);
    t
}

fn facts(w: u8, n: &N) -> (u128, u128, u128, u128) {
    let m = mask(w);
    let nd = |t: &T| node(*t);
    match n {
        N::C(v) => (!v, *v, *v, *v),
        N::Not(a) => { let a = nd(a); (a.ko, a.kz, m - a.hi, m - a.lo) }
        N::And(a, b) => { let (a, b) = (nd(a), nd(b)); (a.kz | b.kz, a.ko & b.ko, 0, a.hi.min(b.hi)) }
        N::Or(a, b) => { let (a, b) = (nd(a), nd(b)); (a.kz & b.kz, a.ko | b.ko, a.lo.max(b.lo), m) }
        N::Xor(a, b) => { let (a, b) = (nd(a), nd(b)); ((a.kz & b.kz) | (a.ko & b.ko), (a.kz & b.ko) | (a.ko & b.kz), 0, m) }
        N::Add(ats, c) => {
            // interval if no wrap; low known zero bits
            let (mut lo, mut hi, mut ok) = (*c, *c, true);
            let mut tz = if *c == 0 { 128 } else { c.trailing_zeros() };
            // negative constant/coefs: give up on the interval unless treat as signed small
            let mut slo: i128 = sx(*c, w.min(127)); let mut shi: i128 = slo; let mut sok = w <= 64;
            for (t, k) in ats.iter() {
                let x = nd(t);
                let xt = (!x.kz & mask(x.w)).trailing_zeros();
                tz = tz.min(xt + k.trailing_zeros());
                if ok {
                    match (x.hi.checked_mul(*k), x.lo.checked_mul(*k)) {
                        (Some(h), Some(l)) => match (hi.checked_add(h), lo.checked_add(l)) {
                            (Some(h), Some(l)) if h <= m => { hi = h; lo = l; }
                            _ => ok = false,
                        },
                        _ => ok = false,
                    }
                }
                if sok {
                    let ks = sx(*k, w.min(127));
                    if x.hi <= (1u128 << 63) && ks.abs() <= (1i128 << 62) {
                        let (p, q) = (x.lo as i128 * ks, x.hi as i128 * ks);
                        slo += p.min(q); shi += p.max(q);
                    } else { sok = false; }
                }
            }
            let kz = if tz >= 128 { m } else { mask(tz as u8) };
            if ok { (kz, 0, lo, hi) }
            else if sok && slo >= 0 && shi as u128 <= m { (kz, 0, slo as u128, shi as u128) }
            else { (kz, 0, 0, m) }
        }
        N::Mul(a, b) => {
            let (a, b) = (nd(a), nd(b));
            let tz = (!a.kz & m).trailing_zeros() + (!b.kz & m).trailing_zeros();
            let kz = if tz >= 128 { m } else { mask(tz as u8) };
            match a.hi.checked_mul(b.hi) { Some(h) if h <= m => (kz, 0, a.lo * b.lo, h), _ => (kz, 0, 0, m) }
        }
        N::UDiv(a, b) => { let (a, b) = (nd(a), nd(b)); if b.lo > 0 { (0, 0, a.lo / b.hi, a.hi / b.lo) } else { (0, 0, 0, m) } }
        N::URem(a, b) => { let (a, b) = (nd(a), nd(b)); if b.lo > 0 { (0, 0, 0, a.hi.min(b.hi - 1)) } else { (0, 0, 0, a.hi) } }
        N::Shl(a, s) => {
            let (a, s) = (nd(a), nd(s));
            if s.hi < w as u128 && a.hi.leading_zeros() as u128 >= s.hi + (128 - w as u128) { (mask(s.lo as u8), 0, a.lo << s.lo, a.hi << s.hi) }
            else { (if s.lo < w as u128 { mask(s.lo as u8) } else { 0 }, 0, 0, m) }
        }
        N::LShr(a, s) => { let (a, s) = (nd(a), nd(s)); let sh = |x: u128, k: u128| if k >= 128 { 0 } else { x >> k }; (0, 0, sh(a.lo, s.hi), sh(a.hi, s.lo)) }
        N::Cat(h, l) => {
            let (hn, ln) = (nd(h), nd(l)); let lw = ln.w;
            ((hn.kz << lw) | ln.kz, (hn.ko << lw) | ln.ko, (hn.lo << lw) | ln.lo, (hn.hi << lw) | ln.hi)
        }
        N::Ext(a, lo) => {
            let a = nd(a);
            let (kz, ko) = (a.kz >> lo, a.ko >> lo);
            if *lo as u32 + w as u32 == a.w as u32 || a.hi >> lo <= m { if a.hi >> lo <= m { return (kz, ko, a.lo >> lo, a.hi >> lo); } }
            (kz, ko, 0, m)
        }
        N::Sext(a) => { let a = nd(a); if a.hi < 1u128 << (a.w - 1) { (a.kz | (m & !mask(a.w)), a.ko, a.lo, a.hi) } else { let lm = mask(a.w - 1); (a.kz & lm, a.ko & lm, 0, m) } }
        N::Ite(_, a, b) => { let (a, b) = (nd(a), nd(b)); (a.kz & b.kz, a.ko & b.ko, a.lo.min(b.lo), a.hi.max(b.hi)) }
        N::Pop(a) => { let a = nd(a); (0, 0, a.ko.count_ones() as u128, (mask(a.w) & !a.kz).count_ones() as u128) }
        N::Clz(a) => { let a = nd(a); let l = 128 - a.w as u32; (0, 0, a.hi.leading_zeros() as u128 - l as u128, (a.lo.leading_zeros() - l) as u128) }
        N::Ctz(a) => {
            let a = nd(a); let may = mask(a.w) & !a.kz;
            let mx = if a.ko != 0 { a.ko.trailing_zeros() as u128 } else if a.lo > 0 { a.w as u128 - 1 } else { a.w as u128 };
            (0, 0, (may.trailing_zeros() as u128).min(a.w as u128), mx)
        }
        N::Lut(_, tab) => {
            let (mut kz, mut ko, mut lo, mut hi) = (!0u64, !0u64, u64::MAX, 0u64);
            for &v in tab.iter() { kz &= !v; ko &= v; lo = lo.min(v); hi = hi.max(v); }
            (kz as u128, ko as u128, lo as u128, hi as u128)
        }
        _ => (0, 0, 0, m),
    }
}

pub fn mk_c(w: u8, v: u128) -> T { intern(w, N::C(v & mask(w))) }
pub fn tru() -> T { mk_c(1, 1) }
pub fn fal() -> T { mk_c(1, 0) }
pub fn mk_var(w: u8, name: String) -> T {
    let s = ts();
    let id = s.var_w.len() as u32;
    s.var_w.push(w); s.var_name.push(name); s.var_def.push(0);
    let t = intern(w, N::V(id));
    ts().var_t.push(t);
    t
}

/// the value a variable has in a model that does not constrain it (pseudo-random, so that sampled
/// paths are not all-zero)
pub fn set_default(t: T, n: u128) {
    if let N::V(id) = node(t).n {
        let mut x = (id as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15); x ^= x >> 29; x = x.wrapping_mul(0xBF58476D1CE4E5B9); x ^= x >> 32;
        let v = x as u128 | (x.rotate_left(17) as u128) << 64;
        ts().var_def[id as usize] = if n == 0 { v } else { v % n };
    }
}
/// variables a term depends on (sorted)
pub fn support(t: T) -> Rc<Vec<u32>> {
    if let Some(r) = ts().sup.get(&t) { return r.clone(); }
    let mut ch = vec![];
    children(&node(t).n, &mut ch);
    let r = match node(t).n {
        N::V(v) => Rc::new(vec![v]),
        _ => {
            let mut best: Option<Rc<Vec<u32>>> = None;
            for c in ch {
                let s = support(c);
                best = Some(match best {
                    None => s,
                    Some(b) => if Rc::ptr_eq(&b, &s) { b } else { merge_sorted(&b, &s) },
                });
            }
            best.unwrap_or_else(|| Rc::new(vec![]))
        }
    };
    ts().sup.insert(t, r.clone());
    r
}
fn merge_sorted(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) { r.push(a[i]); i += 1 }
        else if i >= a.len() || b[j] < a[i] { r.push(b[j]); j += 1 }
        else { r.push(a[i]); i += 1; j += 1 }
    }
    if r.len() == a.len() { a.clone() } else if r.len() == b.len() { b.clone() } else { Rc::new(r) }
}

pub fn children(n: &N, out: &mut Vec<T>) {
    match n {
        N::C(_) | N::V(_) => {}
        N::Not(a) | N::Ext(a, _) | N::Sext(a) | N::Pop(a) | N::Clz(a) | N::Ctz(a) => out.push(*a),
        N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b)
        | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Cat(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => { out.push(*a); out.push(*b) }
        N::Ite(a, b, c) => { out.push(*a); out.push(*b); out.push(*c) }
        N::Add(v, _) => for (t, _) in v.iter() { out.push(*t) },
        N::Lut(v, _) => out.extend(v.iter()),
        N::F(_, _, v) => out.extend(v.iter()),
    }
}

// ---- Lut machinery -------------------------------------------------------------------------

/// View a term as a table over small selector terms, if that is cheap.
fn as_lut(t: T, depth: u32) -> Option<(Vec<T>, Rc<Vec<u64>>)> {
    let nd = node(t);
    if nd.w > 64 { return None; }
    match &nd.n {
        N::C(v) => Some((vec![], Rc::new(vec![*v as u64]))),
        N::Lut(s, tab) => Some((s.to_vec(), tab.clone())),
        N::Ite(c, a, b) if depth < 6 => {
            let (sa, ta) = as_lut(*a, depth + 1)?;
            let (sb, tb) = as_lut(*b, depth + 1)?;
            let (sc, tc) = as_lut(*c, depth + 1)?;
            let sel = join_sel(&[&sa, &sb, &sc], 8)?;
            let n = 1usize << sel_bits(&sel);
            let mut tab = Vec::with_capacity(n);
            for i in 0..n {
                tab.push(if tc[sub_index(&sel, i, &sc)] == 1 { ta[sub_index(&sel, i, &sa)] } else { tb[sub_index(&sel, i, &sb)] });
            }
            Some((sel, Rc::new(tab)))
        }
        N::Cat(h, l) if depth < 6 && (bits_for(nd.hi) as u32 > ts().lut_bits || lutty(t)) => {
            let (sa, ta) = as_lut(*h, depth + 1)?;
            let (sb, tb) = as_lut(*l, depth + 1)?;
            let sel = join_sel(&[&sa, &sb], 10)?;
            let lw = width(*l);
            let n = 1usize << sel_bits(&sel);
            let tab = (0..n).map(|i| (ta[sub_index(&sel, i, &sa)] << lw) | tb[sub_index(&sel, i, &sb)]).collect();
            Some((sel, Rc::new(tab)))
        }
        _ => {
            let b = bits_for(nd.hi).max(1);
            if b as u32 > ts().lut_bits { return None; }
            let s = extract(t, 0, b);
            let n = 1usize << b;
            let tab = (0..n).map(|i| (i as u64).min(nd.hi as u64).max(nd.lo as u64)).collect();
            // a bare selector must itself not be a Lut/const after extraction
            if let N::C(v) = node(s).n { return Some((vec![], Rc::new(vec![v as u64]))); }
            if let N::Lut(s2, t2) = &node(s).n { return Some((s2.to_vec(), t2.clone())); }
            Some((vec![s], Rc::new(tab)))
        }
    }
}
/// the table of a term over input variables (small-domain mode keeps every small term in this form)
fn vtable(t: T) -> Option<(Vec<T>, Rc<Vec<u64>>)> {
    let nd = node(t);
    if nd.w > 64 { return None; }
    match &nd.n {
        N::C(v) => Some((vec![], Rc::new(vec![*v as u64]))),
        N::V(_) => if nd.w as u32 <= ts().lut_bits { Some((vec![t], Rc::new((0..1u64 << nd.w).collect()))) } else { None },
        N::Not(x) if nd.w == 1 && matches!(node(*x).n, N::V(_)) => Some((vec![*x], Rc::new(vec![1, 0]))),
        N::Lut(s, tab) => if s.iter().all(|x| matches!(node(*x).n, N::V(_))) { Some((s.to_vec(), tab.clone())) } else { None },
        N::Cat(h, l) => {
            let (sa, ta) = vtable(*h)?;
            let (sb, tb) = vtable(*l)?;
            let mut sel = sa.clone();
            for x in &sb { if !sel.contains(x) { sel.push(*x) } }
            sel.sort();
            if sel_bits(&sel) > ts().lut_bits { return None; }
            let lw = width(*l);
            let n = 1usize << sel_bits(&sel);
            Some((sel.clone(), Rc::new((0..n).map(|i| (ta[sub_index(&sel, i, &sa)] << lw) | tb[sub_index(&sel, i, &sb)]).collect())))
        }
        _ => None,
    }
}
fn tabulate(w: u8, n: &N) -> Option<T> {
    if let N::Not(x) = n { if w == 1 && matches!(node(*x).n, N::V(_)) { return None; } }
    let mut ch = vec![];
    children(n, &mut ch);
    ch.sort(); ch.dedup();
    let mut sup: Vec<u32> = vec![];
    for c in &ch { for v in support(*c).iter() { if !sup.contains(v) { sup.push(*v) } } }
    let bits: u32 = sup.iter().map(|v| ts().var_w[*v as usize] as u32).sum();
    if bits > ts().lut_bits { return None; }
    let mut sel: Vec<T> = vec![];
    let mut tabs = vec![];
    for c in &ch {
        let l = vtable(*c)?;
        for x in &l.0 { if !sel.contains(x) { sel.push(*x) } }
        tabs.push(l);
    }
    sel.sort();
    let n_ = 1usize << sel_bits(&sel);
    let full: Vec<Rc<Vec<u64>>> = tabs.into_iter().map(|(s, t)| if s == sel { t } else { Rc::new((0..n_).map(|i| t[sub_index(&sel, i, &s)]).collect()) }).collect();
    let mut tab = Vec::with_capacity(n_);
    for i in 0..n_ { tab.push(eval_node(w, n, &mut |x| full[ch.iter().position(|y| *y == x).unwrap()][i] as u128) as u64); }
    Some(mk_lut(w, sel, tab))
}
/// a table, or a table padded with constants
fn lutty(t: T) -> bool {
    match node(t).n {
        N::Lut(..) => true,
        N::Cat(h, l) => width(t) <= 64 && match (cval(h).is_some(), cval(l).is_some()) { (true, _) => lutty(l), (_, true) => lutty(h), _ => lutty(h) && lutty(l) },
        _ => false,
    }
}
/// union of selector sets; at most `small` bits unless one set already has all of them
fn join_sel(ss: &[&Vec<T>], small: u32) -> Option<Vec<T>> {
    let mut sel: Vec<T> = vec![];
    for s in ss { for t in s.iter() { if !sel.contains(t) { sel.push(*t) } } }
    sel.sort();
    let n = sel_bits(&sel);
    let big = ss.iter().map(|s| sel_bits(s)).max().unwrap_or(0);
    let lim = if n == big { ts().lut_bits } else { ts().lut_bits.min(small) };
    if n > lim { None } else { Some(sel) }
}
fn sel_bits(s: &[T]) -> u32 { s.iter().map(|t| width(*t) as u32).sum() }
fn sel_val(sel: &[T], mut i: usize, which: T) -> u64 {
    for s in sel { let w = width(*s); if *s == which { return (i & ((1 << w) - 1)) as u64; } i >>= w; }
    unreachable!()
}
fn sub_index(sel: &[T], i: usize, sub: &[T]) -> usize {
    let mut r = 0usize; let mut sh = 0;
    for s in sub { r |= (sel_val(sel, i, *s) as usize) << sh; sh += width(*s); }
    r
}
/// satisfiability of a conjunction of tables over at most lut_bits bits of distinct variables
pub fn table_sat(cs: &[T]) -> Option<Option<HashMap<u32, u128>>> {
    let mut all: Vec<Vec<T>> = vec![];
    for c in cs {
        let l = match &node(*c).n { N::Lut(s, _) => s.to_vec(), N::V(_) => vec![*c], N::Not(x) if matches!(node(*x).n, N::V(_)) => vec![*x], _ => return None };
        if !l.iter().all(|t| matches!(node(*t).n, N::V(_))) { return None; }
        all.push(l);
    }
    let refs: Vec<&Vec<T>> = all.iter().collect();
    let sel = join_sel(&refs, 16)?;
    let n = 1usize << sel_bits(&sel);
    let mut ok = vec![true; n];
    for c in cs {
        let (s, t) = match &node(*c).n { N::Lut(s, t) => (s.to_vec(), t.clone()), N::V(_) => (vec![*c], Rc::new(vec![0, 1])), N::Not(x) => (vec![*x], Rc::new(vec![1, 0])), _ => return None };
        if s == sel { for i in 0..n { ok[i] &= t[i] == 1; } } else { for i in 0..n { if ok[i] { ok[i] = t[sub_index(&sel, i, &s)] == 1; } } }
    }
    for i in 0..n {
        if !ok[i] { continue; }
        let mut m = HashMap::default();
        let mut inr = true;
        for s in &sel { let v = sel_val(&sel, i, *s) as u128; let nd = node(*s); if v < nd.lo || v > nd.hi { inr = false; } if let N::V(k) = nd.n { m.insert(k, v); } }
        if inr { return Some(Some(m)); }
    }
    Some(None)
}
/// apply `f` pointwise to lut-able arguments
pub fn lut_apply(w: u8, args: &[T], maxbits: u32, f: &dyn Fn(&[u64]) -> u64) -> Option<T> {
    let mut ls = vec![];
    let mut sel: Vec<T> = vec![];
    for a in args {
        let l = as_lut(*a, 0)?;
        for s in &l.0 { if !sel.contains(s) { sel.push(*s) } }
        if sel_bits(&sel) > maxbits { return None; }
        ls.push(l);
    }
    sel.sort();
    let n = 1usize << sel_bits(&sel);
    let mut tab = Vec::with_capacity(n);
    let mw = mask(w) as u64;
    if ls.iter().all(|l| l.0.is_empty() || l.0 == sel) && args.len() <= 3 {
        let step: Vec<usize> = ls.iter().map(|l| if l.0.is_empty() { 0 } else { !0 }).collect();
        match args.len() {
            1 => for i in 0..n { tab.push(f(&[ls[0].1[i & step[0]]]) & mw); },
            2 => for i in 0..n { tab.push(f(&[ls[0].1[i & step[0]], ls[1].1[i & step[1]]]) & mw); },
            _ => for i in 0..n { tab.push(f(&[ls[0].1[i & step[0]], ls[1].1[i & step[1]], ls[2].1[i & step[2]]]) & mw); },
        }
        return Some(mk_lut(w, sel, tab));
    }
    // per-arg index maps: shift/mask pieces
    let maps: Vec<Vec<(u32, usize, u32)>> = ls.iter().map(|(s, _)| {
        let mut sh = 0u32;
        s.iter().map(|x| {
            let mut off = 0u32;
            for y in &sel { if y == x { break; } off += width(*y) as u32; }
            let r = (off, (1usize << width(*x)) - 1, sh); sh += width(*x) as u32; r
        }).collect()
    }).collect();
    let mut av = vec![0u64; args.len()];
    for i in 0..n {
        for (k, m) in maps.iter().enumerate() {
            let mut idx = 0usize;
            for (off, mk, sh) in m { idx |= ((i >> off) & mk) << sh; }
            av[k] = ls[k].1[idx];
        }
        tab.push(f(&av) & mask(w) as u64);
    }
    Some(mk_lut(w, sel, tab))
}
pub fn mk_lut(w: u8, mut sel: Vec<T>, mut tab: Vec<u64>) -> T {
    // clamp unreachable selector values, drop irrelevant selectors
    let mut k = 0;
    let mut off = 0u32;
    while k < sel.len() {
        let sw = width(sel[k]) as u32;
        let (lo, hi) = (node(sel[k]).lo as usize, node(sel[k]).hi as usize);
        let full = (1usize << sw) - 1;
        if lo > 0 || hi < full {
            for i in 0..tab.len() {
                let v = (i >> off) & full;
                let c = v.clamp(lo, hi);
                if c != v { tab[i] = tab[(i & !(full << off)) | (c << off)]; }
            }
        }
        let mut dep = false;
        for i in 0..tab.len() { if tab[i] != tab[i & !(full << off)] { dep = true; break; } }
        if !dep {
            let mut nt = Vec::with_capacity(tab.len() >> sw);
            for i in 0..tab.len() { if (i >> off) & full == 0 { nt.push(tab[i]); } }
            tab = nt; sel.remove(k);
        } else { off += sw; k += 1; }
    }
    if sel.is_empty() { return mk_c(w, tab[0] as u128); }
    if sel.len() == 1 {
        let s = sel[0];
        if width(s) == w && tab.iter().enumerate().all(|(i, v)| *v == (i as u64).clamp(node(s).lo as u64, node(s).hi as u64)) { return s; }
        if width(s) < w && tab.iter().enumerate().all(|(i, v)| *v == (i as u64).clamp(node(s).lo as u64, node(s).hi as u64)) { return zext(s, w); }
        if width(s) == 1 && w == 1 { return not(s); }
    }
    intern(w, N::Lut(sel.into_boxed_slice(), Rc::new(tab)))
}
fn lut_bin(w: u8, a: T, b: T, f: &dyn Fn(u64, u64) -> u64) -> Option<T> {
    if width(a) > 64 { return None; }
    let la = lutty(a); let lb = lutty(b);
    if !(la || lb) { return None; }
    let ca = cval(a).is_some(); let cb = cval(b).is_some();
    if (la && cb) || (lb && ca) { return lut_apply(w, &[a, b], ts().lut_bits, &|v| f(v[0], v[1])); }
    if la && lb {
        let (sa, sb) = (as_lut(a, 0)?.0, as_lut(b, 0)?.0);
        join_sel(&[&sa, &sb], 10)?;
        return lut_apply(w, &[a, b], ts().lut_bits, &|v| f(v[0], v[1]));
    }
    None
}

// ---- constructors --------------------------------------------------------------------------

pub fn not(a: T) -> T {
    let nd = node(a);
    match &nd.n {
        N::C(v) => mk_c(nd.w, !v),
        N::Not(x) => *x,
        N::Ite(c, x, y) if nd.w > 1 && cval(*x).is_some() && cval(*y).is_some() => ite(*c, not(*x), not(*y)),
        N::Cat(h, l) => cat(not(*h), not(*l)),
        N::Lut(s, t) => { let t = t.iter().map(|v| !v & mask(nd.w) as u64).collect(); mk_lut(nd.w, s.to_vec(), t) }
        _ => intern(nd.w, N::Not(a)),
    }
}
fn runs(v: u128, w: u8) -> u32 { let m = mask(w); ((v ^ ((v << 1) & m)) & m).count_ones() }
/// split x along the runs of a mask: calls f(bit, piece)
fn by_runs(x: T, v: u128, f: &dyn Fn(bool, T) -> T) -> T {
    let w = width(x);
    let mut parts: Vec<T> = vec![];
    let mut i = 0u8;
    while i < w {
        let b = (v >> i) & 1; let mut j = i;
        while j < w && (v >> j) & 1 == b { j += 1 }
        parts.push(f(b == 1, extract(x, i, j - i)));
        i = j;
    }
    let mut r = parts[0];
    for p in &parts[1..] { r = cat(*p, r); }
    r
}
pub fn and(a: T, b: T) -> T {
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    if a == b { return a; }
    let (na, nb) = (node(a), node(b));
    let w = na.w; let m = mask(w);
    debug_assert_eq!(na.w, nb.w);
    if let N::C(v) = nb.n {
        if v == 0 { return b; }
        if v == m { return a; }
        if let N::C(u) = na.n { return mk_c(w, u & v); }
        let eff = v | na.kz; // bits that change nothing
        if eff & m == m { return a; }
        if runs(v, w) <= 4 || matches!(na.n, N::Cat(..)) { return by_runs(a, v, &|k, p| if k { p } else { mk_c(width(p), 0) }); }
        if let N::And(x, y) = na.n { if let N::C(u) = node(y).n { return and(x, mk_c(w, u & v)); } }
    }
    // bits decided by the other side
    if (na.kz | nb.kz) & m == m { return mk_c(w, 0); }
    if (na.ko | nb.kz) & m == m { return b; }
    if (nb.ko | na.kz) & m == m { return a; }
    if w == 1 {
        if not(a) == b { return mk_c(1, 0); }
        if let N::And(x, y) = na.n { if x == b || y == b { return a; } }
        if let N::And(x, y) = nb.n { if x == a || y == a { return b; } }
    }
    if let Some(r) = cat_split2(a, b, and) { return r; }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x & y) { return r; }
    if let Some(r) = ite_const(a, b, and) { return r; }
    intern(w, N::And(a, b))
}
pub fn or(a: T, b: T) -> T {
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    if a == b { return a; }
    let (na, nb) = (node(a), node(b));
    let w = na.w; let m = mask(w);
    if let N::C(v) = nb.n {
        if v == 0 { return a; }
        if v == m { return b; }
        if let N::C(u) = na.n { return mk_c(w, u | v); }
        if v & !na.ko == 0 { return a; }
        if runs(v, w) <= 4 || matches!(na.n, N::Cat(..)) { return by_runs(a, v, &|k, p| if k { mk_c(width(p), !0) } else { p }); }
    }
    if (na.ko | nb.ko) & m == m { return mk_c(w, m); }
    if (na.kz | nb.ko) & m == m { return b; }
    if (nb.kz | na.ko) & m == m { return a; }
    // disjoint: lets concats of shifted pieces come out as concats
    if w == 1 {
        if not(a) == b { return mk_c(1, 1); }
        if let N::Or(x, y) = na.n { if x == b || y == b { return a; } }
        if let N::Or(x, y) = nb.n { if x == a || y == a { return b; } }
        // (c&x)|(!c&x) style
        if let (N::And(p, q), N::And(r, s)) = (&na.n, &nb.n) {
            for (x, y) in [(*p, *q), (*q, *p)] { for (u, v) in [(*r, *s), (*s, *r)] { if x == u && not(y) == v { return x; } } }
        }
        if let N::And(p, q) = na.n { if not(p) == b { return or(q, b); } if not(q) == b { return or(p, b); } if p == b || q == b { return b; } }
        if let N::And(p, q) = nb.n { if not(p) == a { return or(q, a); } if not(q) == a { return or(p, a); } if p == a || q == a { return a; } }
    }
    if let Some(r) = cat_split2(a, b, or) { return r; }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x | y) { return r; }
    if let Some(r) = ite_const(a, b, or) { return r; }
    intern(w, N::Or(a, b))
}
pub fn xor(a: T, b: T) -> T {
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    let w = na.w; let m = mask(w);
    if a == b { return mk_c(w, 0); }
    if let N::C(v) = nb.n {
        if v == 0 { return a; }
        if v == m { return not(a); }
        if let N::C(u) = na.n { return mk_c(w, u ^ v); }
        if runs(v, w) <= 4 || matches!(na.n, N::Cat(..)) { return by_runs(a, v, &|k, p| if k { not(p) } else { p }); }
    }
    if (na.kz | nb.kz) & m == m { return or(a, b); }
    if let N::Not(x) = na.n { return not(xor(x, b)); }
    if let N::Not(y) = nb.n { return not(xor(a, y)); }
    if let N::Xor(x, y) = na.n { if x == b { return y; } if y == b { return x; } }
    if let N::Xor(x, y) = nb.n { if x == a { return y; } if y == a { return x; } }
    if let Some(r) = cat_split2(a, b, xor) { return r; }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x ^ y) { return r; }
    if let Some(r) = ite_const(a, b, xor) { return r; }
    intern(w, N::Xor(a, b))
}
/// push a binary op into an ite with constant leaves when the other operand is constant
fn ite_const(a: T, b: T, f: fn(T, T) -> T) -> Option<T> {
    if cval(b).is_some() {
        if let N::Ite(c, x, y) = node(a).n { if leafy(x, 4) && leafy(y, 4) { return Some(ite(c, f(x, b), f(y, b))); } }
    } else if cval(a).is_some() {
        if let N::Ite(c, x, y) = node(b).n { if leafy(x, 4) && leafy(y, 4) { return Some(ite(c, f(a, x), f(a, y))); } }
    }
    None
}
fn leafy(t: T, d: u32) -> bool {
    match node(t).n { N::C(_) => true, N::Ite(_, a, b) => d > 0 && leafy(a, d - 1) && leafy(b, d - 1), _ => false }
}
fn cat_split2(a: T, b: T, f: fn(T, T) -> T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    let lw = match (&na.n, &nb.n) {
        (N::Cat(_, l), N::Cat(_, l2)) => width(*l).min(width(*l2)),
        (N::Cat(_, l), _) => width(*l),
        (_, N::Cat(_, l)) => width(*l),
        _ => return None,
    };
    let w = na.w;
    Some(cat(f(extract(a, lw, w - lw), extract(b, lw, w - lw)), f(extract(a, 0, lw), extract(b, 0, lw))))
}

pub fn cat(h: T, l: T) -> T {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    if let (Some(a), Some(b)) = (cval(h), cval(l)) { return mk_c(w, (a << lw) | b); }
    // merge adjacent extracts
    if let (N::Ext(x, lo), N::Ext(y, lo2)) = (&node(h).n, &node(l).n) {
        if x == y && *lo == lo2 + lw { return extract(*x, *lo2, w); }
    }
    if let N::Ext(x, lo) = node(h).n { if lo == lw && x != l { if extract(x, 0, lw) == l { return extract(x, 0, w); } } }
    // right-nested: cat(cat(a,b),c) -> cat(a,cat(b,c))
    if let N::Cat(a, b) = node(h).n { return cat(a, cat(b, l)); }
    if let N::Cat(m, r) = node(l).n {
        // try merging h with m
        if let (Some(a), Some(b)) = (cval(h), cval(m)) { return cat(mk_c(hw + width(m), (a << width(m)) | b), r); }
        if let (N::Ext(x, lo), N::Ext(y, lo2)) = (&node(h).n, &node(m).n) {
            if x == y && *lo == lo2 + width(m) { return cat(extract(*x, *lo2, hw + width(m)), r); }
        }
    }
    intern(w, N::Cat(h, l))
}
pub fn zext(a: T, w: u8) -> T { let aw = width(a); if aw == w { a } else { cat(mk_c(w - aw, 0), a) } }
pub fn sext(a: T, w: u8) -> T {
    let aw = width(a);
    if aw == w { return a; }
    let nd = node(a);
    if let N::C(v) = nd.n { return mk_c(w, sx(v, aw) as u128); }
    let sb = 1u128 << (aw - 1);
    if nd.kz & sb != 0 { return zext(a, w); }
    if nd.ko & sb != 0 { return cat(mk_c(w - aw, !0), a); }
    if aw == 1 { return ite(a, mk_c(w, !0), mk_c(w, 0)); }
    if let N::Ite(c, x, y) = nd.n { if leafy(x, 4) && leafy(y, 4) { return ite(c, sext(x, w), sext(y, w)); } }
    if w <= 64 { if let N::Lut(s, t) = &nd.n { let t = t.iter().map(|v| (sx(*v as u128, aw) as u128 & mask(w)) as u64).collect(); return mk_lut(w, s.to_vec(), t); } }
    intern(w, N::Sext(a))
}
pub fn extract(a: T, lo: u8, w: u8) -> T {
    let nd = node(a);
    if lo == 0 && w == nd.w { return a; }
    debug_assert!(lo as u32 + w as u32 <= nd.w as u32, "extract {} {} of {}", lo, w, nd.w);
    let m = mask(w);
    if let N::C(v) = nd.n { return mk_c(w, v >> lo); }
    let (kz, ko) = ((nd.kz >> lo) & m, (nd.ko >> lo) & m);
    if kz | ko == m { return mk_c(w, ko); }
    match &nd.n {
        N::Ext(x, l2) => return extract(*x, lo + l2, w),
        N::Cat(h, l) => {
            let lw = width(*l);
            if lo >= lw { return extract(*h, lo - lw, w); }
            if lo + w <= lw { return extract(*l, lo, w); }
            return cat(extract(*h, 0, lo + w - lw), extract(*l, lo, lw - lo));
        }
        N::Sext(x) => {
            let xw = width(*x);
            if lo + w <= xw { return extract(*x, lo, w); }
            if lo >= xw { return sext(extract(*x, xw - 1, 1), w); }
            return sext(extract(*x, lo, xw - lo), w);
        }
        _ => {}
    }
    let key = (a, lo, w);
    if let Some(&r) = ts().ext_memo.get(&key) { return r; }
    let r = match &nd.n {
        N::Not(x) => not(extract(*x, lo, w)),
        N::And(x, y) => and(extract(*x, lo, w), extract(*y, lo, w)),
        N::Or(x, y) => or(extract(*x, lo, w), extract(*y, lo, w)),
        N::Xor(x, y) => xor(extract(*x, lo, w), extract(*y, lo, w)),
        N::Ite(c, x, y) => ite(*c, extract(*x, lo, w), extract(*y, lo, w)),
        N::Add(v, c) if lo == 0 && w == 1 => {
            let mut x = mk_c(1, *c & 1);
            for (t, co) in v.iter() { if co & 1 == 1 { x = xor(x, extract(*t, 0, 1)); } }
            x
        }
        N::Add(v, c) if lo == 0 => {
            let mut r: Vec<(T, u128)> = vec![];
            let mut k = *c;
            for (t, co) in v.iter() { let e = extract(*t, 0, w); lin_push(&mut r, &mut k, e, *co, w); }
            lin_build(w, r, k)
        }
        N::Mul(x, y) if lo == 0 => mul(extract(*x, 0, w), extract(*y, 0, w)),
        N::Shl(x, s) if lo == 0 && node(*s).hi < w as u128 => shl(extract(*x, 0, w), extract(*s, 0, w)),
        N::Lut(s, t) => { let t = t.iter().map(|v| (v >> lo) & m as u64).collect(); mk_lut(w, s.to_vec(), t) }
        _ => intern(w, N::Ext(a, lo)),
    };
    ts().ext_memo.insert(key, r);
    r
}

// linear forms
fn lin_push(r: &mut Vec<(T, u128)>, k: &mut u128, t: T, co: u128, w: u8) {
    let m = mask(w);
    let co = co & m;
    if co == 0 { return; }
    match &node(t).n {
        N::C(v) => *k = k.wrapping_add(v.wrapping_mul(co)) & m,
        N::Add(v, c) if v.len() + r.len() <= 96 => {
            *k = k.wrapping_add(c.wrapping_mul(co)) & m;
            for (x, c2) in v.iter() { lin_push(r, k, *x, c2.wrapping_mul(co), w); }
        }
        N::Not(x) => { *k = k.wrapping_sub(co) & m; lin_push(r, k, *x, co.wrapping_neg(), w); }
        N::Cat(h, l) if cval(*l) == Some(0) => {
            // (h << lw): only when h fits so that scaling is exact at width w
            let lw = width(*l);
            let hz = zext(*h, w);
            lin_add1(r, hz, co.wrapping_mul(1u128 << lw) & m);
        }
        _ => lin_add1(r, t, co),
    }
}
fn lin_add1(r: &mut Vec<(T, u128)>, t: T, co: u128) { r.push((t, co)); }
fn lin_build(w: u8, mut r: Vec<(T, u128)>, k: u128) -> T {
    let m = mask(w);
    r.sort_by_key(|x| x.0);
    let mut o: Vec<(T, u128)> = Vec::with_capacity(r.len());
    for (t, c) in r {
        if let Some(l) = o.last_mut() { if l.0 == t { l.1 = l.1.wrapping_add(c) & m; continue; } }
        o.push((t, c & m));
    }
    o.retain(|x| x.1 != 0);
    if o.is_empty() { return mk_c(w, k); }
    if o.len() == 1 {
        let (t, c) = o[0];
        if c == 1 && k & m == 0 { return t; }
        if c == m && k & m == m { return not(t); }
        if k & m == 0 && c.is_power_of_two() { let s = c.trailing_zeros() as u8; return cat(extract(t, 0, w - s), mk_c(s, 0)); }
        // c copies the low bits of t to places that do not overlap: a concatenation
        let bw = bits_for(node(t).hi);
        if k & m == 0 && bw >= 8 && bw < w && c.count_ones() <= 8 {
            let mut pos = vec![];
            let mut x = c;
            while x != 0 { pos.push(x.trailing_zeros() as u8); x &= x - 1; }
            if pos.windows(2).all(|p| p[1] - p[0] >= bw) {
                let piece = extract(t, 0, bw);
                let mut acc: Option<T> = None;
                let mut at = 0u8;
                for p in pos {
                    let n = bw.min(w - p);
                    let x = if p > at { cat(extract(piece, 0, n), mk_c(p - at, 0)) } else { extract(piece, 0, n) };
                    acc = Some(match acc { None => x, Some(l) => cat(x, l) });
                    at = p + n;
                }
                let r = acc.unwrap();
                return if at < w { zext(r, w) } else { r };
            }
        }
        // constant-leaf ite: fold
        if let N::Ite(cc, x, y) = node(t).n {
            if leafy(x, 4) && leafy(y, 4) {
                let f = |z| { let mut r = vec![]; let mut k2 = k; lin_push(&mut r, &mut k2, z, c, w); lin_build(w, r, k2) };
                return ite(cc, f(x), f(y));
            }
        }
        if w <= 64 { if let N::Lut(s, tb) = &node(t).n { let tb = tb.iter().map(|v| ((*v as u128).wrapping_mul(c).wrapping_add(k) & m) as u64).collect(); return mk_lut(w, s.to_vec(), tb); } }
    }
    // packed sums: concatenations split at the same place whose low parts cannot carry
    if o.len() >= 2 {
        let split = o.iter().map(|x| match node(x.0).n { N::Cat(h, l) if width(l) >= 8 => if cval(h) == Some(0) { (width(l), false) } else { (width(l), true) }, _ => (0, false) });
        let mut lw = 0; let mut ok = true; let mut some = false;
        for (l, nz) in split { if l == 0 || (lw != 0 && l != lw) { ok = false; break; } lw = l; some |= nz; }
        if ok && some {
            let ml = mask(lw);
            let mut tot = k & ml;
            for (t, c) in &o { if let N::Cat(_, l) = node(*t).n { tot = tot.saturating_add(node(l).hi.saturating_mul(*c)); } }
            if tot <= ml {
                let (mut rl, mut kl, mut rh, mut kh) = (vec![], k & ml, vec![], (k & m) >> lw);
                for (t, c) in &o { if let N::Cat(h, l) = node(*t).n { lin_push(&mut rl, &mut kl, l, *c, lw); lin_push(&mut rh, &mut kh, h, *c, w - lw); } }
                return cat(lin_build(w - lw, rh, kh), lin_build(lw, rl, kl));
            }
        }
    }
    // disjoint pieces (k==0, all coeff 1, no overlapping possible ones) -> or
    if o.len() + (k & m != 0) as usize == 2 && o.iter().all(|x| x.1 == 1) {
        let (a, b) = if o.len() == 2 { (o[0].0, o[1].0) } else { (o[0].0, mk_c(w, k)) };
        if (node(a).kz | node(b).kz) & m == m { return or(a, b); }
    }
    intern(w, N::Add(o.into_boxed_slice(), k & m))
}
pub fn add(a: T, b: T) -> T {
    let w = width(a);
    if w == 1 { return xor(a, b); }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x.wrapping_add(y)) { return r; }
    let (mut r, mut k) = (vec![], 0);
    lin_push(&mut r, &mut k, a, 1, w); lin_push(&mut r, &mut k, b, 1, w);
    lin_build(w, r, k)
}
pub fn sub(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return mk_c(w, 0); }
    if w == 1 { return xor(a, b); }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x.wrapping_sub(y)) { return r; }
    let (mut r, mut k) = (vec![], 0);
    lin_push(&mut r, &mut k, a, 1, w); lin_push(&mut r, &mut k, b, !0, w);
    lin_build(w, r, k)
}
pub fn neg(a: T) -> T { sub(mk_c(width(a), 0), a) }
pub fn mul(a: T, b: T) -> T {
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let w = width(a);
    if w == 1 { return and(a, b); }
    if let Some(v) = cval(b) {
        if v == 0 { return b; }
        if v == 1 { return a; }
        let (mut r, mut k) = (vec![], 0);
        lin_push(&mut r, &mut k, a, v, w);
        return lin_build(w, r, k);
    }
    if let Some(r) = lut_bin(w, a, b, &|x, y| x.wrapping_mul(y)) { return r; }
    if node(a).hi <= 1 { return ite(extract(a, 0, 1), b, mk_c(w, 0)); }
    if node(b).hi <= 1 { return ite(extract(b, 0, 1), a, mk_c(w, 0)); }
    intern(w, N::Mul(a, b))
}
macro_rules! divlike {
    ($name:ident, $N:ident, $f:expr) => {
        pub fn $name(a: T, b: T) -> T {
            let w = width(a);
            let f: fn(u128, u128, u8) -> u128 = $f;
            if let (Some(x), Some(y)) = (cval(a), cval(b)) { return mk_c(w, f(x, y, w)); }
            if w <= 64 { if let Some(r) = lut_bin(w, a, b, &|x, y| f(x as u128, y as u128, w) as u64) { return r; } }
            if cval(b).is_some() { if let Some(r) = ite_const(a, b, $name) { return r; } }
            intern(w, N::$N(a, b))
        }
    };
}
divlike!(udiv0, UDiv, |x, y, w| if y == 0 { mask(w) } else { x / y });
divlike!(urem0, URem, |x, y, _| if y == 0 { x } else { x % y });
divlike!(sdiv, SDiv, |x, y, w| if y == 0 { if sx(x, w) < 0 { 1 } else { mask(w) } } else { (sx(x, w).wrapping_div(sx(y, w))) as u128 & mask(w) });
divlike!(srem, SRem, |x, y, w| if y == 0 { x } else { (sx(x, w).wrapping_rem(sx(y, w))) as u128 & mask(w) });
pub fn udiv(a: T, b: T) -> T {
    let w = width(a);
    if let Some(v) = cval(b) {
        if v.is_power_of_two() { let s = v.trailing_zeros() as u8; return if s == 0 { a } else { zext(extract(a, s, w - s), w) }; }
        if node(a).hi < v && v != 0 { return mk_c(w, 0); }
        // narrow
        let nb = bits_for(node(a).hi.max(v)).max(1);
        if nb + 1 < w { return zext(udiv0(extract(a, 0, nb), extract(b, 0, nb)), w); }
    }
    udiv0(a, b)
}
pub fn urem(a: T, b: T) -> T {
    let w = width(a);
    if let Some(v) = cval(b) {
        if v.is_power_of_two() { let s = v.trailing_zeros() as u8; return if s == 0 { mk_c(w, 0) } else { zext(extract(a, 0, s), w) }; }
        if node(a).hi < v { return a; }
        let nb = bits_for(node(a).hi.max(v)).max(1);
        if nb + 1 < w { return zext(urem0(extract(a, 0, nb), extract(b, 0, nb)), w); }
    }
    urem0(a, b)
}
pub fn shl(a: T, s: T) -> T {
    let w = width(a);
    if let Some(v) = cval(s) {
        if v >= w as u128 { return mk_c(w, 0); }
        let v = v as u8;
        return if v == 0 { a } else { cat(extract(a, 0, w - v), mk_c(v, 0)) };
    }
    if cval(a) == Some(0) { return a; }
    if let Some(r) = lut_bin(w, a, s, &|x, y| if y >= w as u64 { 0 } else { x << y }) { return r; }
    if let Some(r) = ite_const(s, a, |s, a| shl(a, s)) { return r; }
    intern(w, N::Shl(a, s))
}
pub fn lshr(a: T, s: T) -> T {
    let w = width(a);
    if let Some(v) = cval(s) {
        if v >= w as u128 { return mk_c(w, 0); }
        let v = v as u8;
        return if v == 0 { a } else { cat(mk_c(v, 0), extract(a, v, w - v)) };
    }
    if cval(a) == Some(0) { return a; }
    if let Some(r) = lut_bin(w, a, s, &|x, y| if y >= w as u64 { 0 } else { x >> y }) { return r; }
    intern(w, N::LShr(a, s))
}
pub fn ashr(a: T, s: T) -> T {
    let w = width(a);
    if let Some(v) = cval(s) {
        let v = v.min(w as u128 - 1) as u8;
        return if v == 0 { a } else { sext(extract(a, v, w - v), w) };
    }
    intern(w, N::AShr(a, s))
}
pub fn eq(a: T, b: T) -> T {
    if a == b { return tru(); }
    let (a, b) = if cval(a).is_some() || (cval(b).is_none() && a > b) { (b, a) } else { (a, b) };
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    debug_assert_eq!(na.w, nb.w);
    if na.kz & nb.ko != 0 || na.ko & nb.kz != 0 || na.hi < nb.lo || nb.hi < na.lo { return fal(); }
    if w == 1 { return if let Some(v) = cval(b) { if v == 1 { a } else { not(a) } } else { not(xor(a, b)) }; }
    if let N::C(v) = nb.n {
        match &na.n {
            N::C(_) => return fal(),
            N::Cat(h, l) => { let lw = width(*l); return and(eq(*h, mk_c(w - lw, v >> lw)), eq(*l, mk_c(lw, v))); }
            N::Not(x) => return eq(*x, mk_c(w, !v)),
            N::Sext(x) => { let xw = width(*x); let lv = v & mask(xw); return if sx(lv, xw) as u128 & mask(w) == v { eq(*x, mk_c(xw, lv)) } else { fal() }; }
            N::Ite(c, x, y) => {
                let (cx, cy) = (cval(*x), cval(*y));
                if cx.is_some() || cy.is_some() || leafy(a, 8) { return ite(*c, eq(*x, b), eq(*y, b)); }
            }
            N::Add(ats, k) => {
                if ats.len() == 1 {
                    let (t, c) = ats[0];
                    let m = mask(w);
                    let rhs = v.wrapping_sub(*k) & m;
                    if c == 1 { return eq(t, mk_c(w, rhs)); }
                    if c == m { return eq(t, mk_c(w, rhs.wrapping_neg())); }
                    if c & 1 == 1 { // invertible
                        let mut inv: u128 = c; for _ in 0..7 { inv = inv.wrapping_mul(2u128.wrapping_sub(c.wrapping_mul(inv))); }
                        return eq(t, mk_c(w, rhs.wrapping_mul(inv)));
                    }
                }
            }
            N::Xor(x, y) if v == 0 => return eq(*x, *y),
            N::Or(x, y) if v == 0 => return and(eq(*x, b), eq(*y, b)),
            _ => {}
        }
        if let N::Lut(..) = na.n { if let Some(r) = lut_bin(1, a, b, &|x, y| (x == y) as u64) { return r; } }
        // narrow by range
        let nb_ = bits_for(na.hi).max(1);
        if nb_ < w { return eq(extract(a, 0, nb_), mk_c(nb_, v)); }
    } else {
        if let (N::Ite(c, x, y), N::Ite(c2, x2, y2)) = (&na.n, &nb.n) { if c == c2 { return ite(*c, eq(*x, *x2), eq(*y, *y2)); } }
        // split concats on both sides
        if let (N::Cat(_, l), N::Cat(_, l2)) = (&na.n, &nb.n) {
            let lw = width(*l).min(width(*l2));
            return and(eq(extract(a, lw, w - lw), extract(b, lw, w - lw)), eq(extract(a, 0, lw), extract(b, 0, lw)));
        }
        let nw = bits_for(na.hi.max(nb.hi)).max(1);
        if nw < w { return eq(extract(a, 0, nw), extract(b, 0, nw)); }
        if let (N::Add(..), _) | (_, N::Add(..)) = (&na.n, &nb.n) {
            let d = sub(a, b);
            if cval(d).is_some() { return eq(d, mk_c(w, 0)); }
        }
        if let Some(r) = lut_bin(1, a, b, &|x, y| (x == y) as u64) { return r; }
    }
    intern(1, N::Eq(a, b))
}
pub fn no_wrap(t: T) -> bool {
    // unsigned evaluation of the sum cannot exceed the width
    if let N::Add(v, c) = &node(t).n {
        let m = mask(node(t).w);
        let mut s = *c;
        for (x, k) in v.iter() {
            match node(*x).hi.checked_mul(*k).and_then(|p| s.checked_add(p)) { Some(r) if r <= m => s = r, _ => return false }
        }
        true
    } else { false }
}
/// a sum without unsigned wrap-around, as (terms, constant)
fn nw_sum(t: T) -> Option<(Vec<(T, u128)>, u128)> {
    match &node(t).n {
        N::C(v) => Some((vec![], *v)),
        N::Add(v, c) => if no_wrap(t) { Some((v.to_vec(), *c)) } else { None },
        _ => Some((vec![(t, 1)], 0)),
    }
}
pub fn ult(a: T, b: T) -> T {
    if a == b { return fal(); }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    if na.hi < nb.lo { return tru(); }
    if na.lo >= nb.hi { return fal(); }
    if w == 1 { return and(not(a), b); }
    if let Some(v) = cval(b) { if v == 1 { return eq(a, mk_c(w, 0)); } }
    if let Some(v) = cval(a) { if v == 0 { return not(eq(b, a)); } }
    let nw = bits_for(na.hi.max(nb.hi)).max(1);
    if nw < w { return ult(extract(a, 0, nw), extract(b, 0, nw)); }
    if let (Some(v), N::Cat(h, l)) = (cval(b), &na.n) {
        // low part irrelevant
        let lw = width(*l);
        if v & mask(lw) == 0 { return ult(*h, mk_c(w - lw, v >> lw)); }
    }
    if let (Some(v), N::Cat(h, l)) = (cval(a), &nb.n) {
        let lw = width(*l);
        if v & mask(lw) == mask(lw) { return ult(mk_c(w - lw, v >> lw), *h); }
    }
    if let (N::Cat(h, l), N::Cat(h2, l2)) = (&na.n, &nb.n) {
        if h == h2 { return ult(*l, *l2); }
        if l == l2 { return ult(*h, *h2); }
    }
    // cancel common summands
    if matches!(na.n, N::Add(..)) || matches!(nb.n, N::Add(..)) {
        if let Some((mut x, xc)) = nw_sum(a) { if let Some(p) = x.iter_mut().find(|p| p.0 == b && p.1 > 0) { let _ = (p, xc); return fal(); } }
        if let Some((mut y, yc)) = nw_sum(b) { if let Some(p) = y.iter_mut().find(|p| p.0 == a && p.1 > 0) { p.1 -= 1; y.retain(|p| p.1 != 0); return not(eq(lin_build(w, y, yc), mk_c(w, 0))); } }
        if let (Some((mut x, mut xc)), Some((mut y, mut yc))) = (nw_sum(a), nw_sum(b)) {
            let mut hit = false;
            for p in x.iter_mut() { for q in y.iter_mut() { if p.0 == q.0 { let m = p.1.min(q.1); if m > 0 { p.1 -= m; q.1 -= m; hit = true; } } } }
            let m = xc.min(yc); if m > 0 { xc -= m; yc -= m; hit = true; }
            if hit {
                x.retain(|p| p.1 != 0); y.retain(|p| p.1 != 0);
                return ult(lin_build(w, x, xc), lin_build(w, y, yc));
            }
        }
    }
    if let Some(r) = lut_bin(1, a, b, &|x, y| (x < y) as u64) { return r; }
    if cval(b).is_some() || cval(a).is_some() {
        let (x, other, left) = if cval(b).is_some() { (a, b, true) } else { (b, a, false) };
        if let N::Ite(c, p, q) = node(x).n {
            if cval(p).is_some() || cval(q).is_some() {
                return if left { ite(c, ult(p, other), ult(q, other)) } else { ite(c, ult(other, p), ult(other, q)) };
            }
        }
    }
    intern(1, N::Ult(a, b))
}
pub fn ule(a: T, b: T) -> T { not(ult(b, a)) }
pub fn slt(a: T, b: T) -> T {
    if a == b { return fal(); }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    let s = 1u128 << (w - 1);
    let (az, ao, bz, bo) = (na.kz & s != 0, na.ko & s != 0, nb.kz & s != 0, nb.ko & s != 0);
    if az && bo { return fal(); }
    if ao && bz { return tru(); }
    if (az && bz) || (ao && bo) { return ult(a, b); }
    if cval(b) == Some(0) { return extract(a, w - 1, 1); }
    if cval(a) == Some(mask(w)) { return not(extract(b, w - 1, 1)); }
    if let (N::Sext(x), Some(v)) = (&na.n, cval(b)) { let xw = width(*x); let lv = v & mask(xw); if sx(lv, xw) as u128 & mask(w) == v { return slt(*x, mk_c(xw, lv)); } }
    if let (Some(v), N::Sext(x)) = (cval(a), &nb.n) { let xw = width(*x); let lv = v & mask(xw); if sx(lv, xw) as u128 & mask(w) == v { return slt(mk_c(xw, lv), *x); } }
    if let (N::Sext(x), N::Sext(y)) = (&na.n, &nb.n) { if width(*x) == width(*y) { return slt(*x, *y); } }
    if w <= 64 { if let Some(r) = lut_bin(1, a, b, &|x, y| (sx(x as u128, w) < sx(y as u128, w)) as u64) { return r; } }
    if cval(b).is_some() { if let N::Ite(c, x, y) = na.n { if cval(x).is_some() || cval(y).is_some() { return ite(c, slt(x, b), slt(y, b)); } } }
    if cval(a).is_some() { if let N::Ite(c, x, y) = nb.n { if cval(x).is_some() || cval(y).is_some() { return ite(c, slt(a, x), slt(a, y)); } } }
    intern(1, N::Slt(a, b))
}
pub fn ite(c: T, a: T, b: T) -> T {
    if a == b { return a; }
    match node(c).n {
        N::C(v) => return if v == 1 { a } else { b },
        N::Not(x) => return ite(x, b, a),
        _ => {}
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    debug_assert_eq!(na.w, nb.w);
    if w <= 64 && lutty(c) && (cval(a).is_some() || lutty(a)) && (cval(b).is_some() || lutty(b)) {
        let sets: Vec<Vec<T>> = [a, b, c].iter().map(|t| as_lut(*t, 0).map(|l| l.0).unwrap_or_default()).collect();
        if join_sel(&[&sets[0], &sets[1], &sets[2]], 10).is_some() {
            if let Some(r) = lut_apply(w, &[c, a, b], ts().lut_bits, &|v| if v[0] == 1 { v[1] } else { v[2] }) { return r; }
        }
    }
    if w == 1 {
        if let Some(v) = cval(a) { return if v == 1 { or(c, b) } else { and(not(c), b) }; }
        if let Some(v) = cval(b) { return if v == 1 { or(not(c), a) } else { and(c, a) }; }
        if a == not(b) { return not(xor(c, a)); }
        if a == c { return or(c, b); }
        if b == c { return and(c, a); }
    }
    // nested same condition
    let a = if let N::Ite(c2, x, _) = na.n { if c2 == c { x } else { a } } else { a };
    let b = if let N::Ite(c2, _, y) = nb.n { if c2 == c { y } else { b } } else { b };
    if a == b { return a; }
    if let N::Ite(c2, x, y) = node(a).n {
        if y == b { return ite(and(c, c2), x, b); }
        if x == b { return ite(and(c, not(c2)), y, b); }
    }
    if let N::Ite(c2, x, y) = node(b).n {
        if x == a { return ite(or(c, c2), a, y); }
        if y == a { return ite(or(c, not(c2)), a, x); }
    }
    let (na, nb) = (node(a), node(b));
    // share constant/equal bits: split when a contiguous part is equal
    if let (N::Cat(h, l), N::Cat(h2, l2)) = (&na.n, &nb.n) {
        if width(*l) == width(*l2) { if h == h2 { return cat(*h, ite(c, *l, *l2)); } if l == l2 { return cat(ite(c, *h, *h2), *l); } }
    }
    // zero high parts
    let top = bits_for(na.hi.max(nb.hi)).max(1);
    if top < w && !(cval(a).is_some() && cval(b).is_some()) { return zext(ite(c, extract(a, 0, top), extract(b, 0, top)), w); }
    if let (N::C(x), N::C(y)) = (&na.n, &nb.n) {
        let d = x ^ y;
        if d.is_power_of_two() {
            // single bit differs
            let k = d.trailing_zeros() as u8;
            let bit = if (x >> k) & 1 == 1 { c } else { not(c) };
            let mut r = bit;
            if k > 0 { r = cat(r, mk_c(k, *x)); }
            if k + 1 < w { r = cat(mk_c(w - k - 1, x >> (k + 1)), r); }
            return r;
        }
    }
    intern(w, N::Ite(c, a, b))
}
pub fn pop(a: T) -> T {
    let nd = node(a); let w = nd.w;
    if let N::C(v) = nd.n { return mk_c(w, v.count_ones() as u128); }
    let unknown = mask(w) & !nd.kz & !nd.ko;
    if unknown.count_ones() <= 16 {
        let mut r = mk_c(w, nd.ko.count_ones() as u128);
        for i in 0..w { if (unknown >> i) & 1 == 1 { r = add(r, zext(extract(a, i, 1), w)); } }
        return r;
    }
    intern(w, N::Pop(a))
}
pub fn clz(a: T) -> T {
    let nd = node(a); let w = nd.w;
    if let N::C(v) = nd.n { return mk_c(w, v.leading_zeros() as u128 - (128 - w as u128)); }
    if let N::Lut(s, t) = &nd.n { let t = t.iter().map(|v| (*v as u128).leading_zeros() as u64 - (128 - w as u64)).collect(); return mk_lut(w, s.to_vec(), t); }
    intern(w, N::Clz(a))
}
pub fn ctz(a: T) -> T {
    let nd = node(a); let w = nd.w;
    if let N::C(v) = nd.n { return mk_c(w, if v == 0 { w as u128 } else { v.trailing_zeros() as u128 }); }
    if let N::Lut(s, t) = &nd.n { let t = t.iter().map(|v| if *v == 0 { w as u64 } else { v.trailing_zeros() as u64 }).collect(); return mk_lut(w, s.to_vec(), t); }
    intern(w, N::Ctz(a))
}
pub fn bswap(a: T) -> T {
    let w = width(a); let n = w / 8;
    let mut r = extract(a, 0, 8);
    for i in 1..n { r = cat(r, extract(a, i * 8, 8)); }
    r
}
pub fn bitrev(a: T) -> T {
    let w = width(a);
    let mut r = extract(a, 0, 1);
    for i in 1..w { r = cat(r, extract(a, i, 1)); }
    r
}

// ---- floating point ------------------------------------------------------------------------

pub fn fp_host(op: FOp, fmt: u8, w: u8, a: &[u64]) -> u64 {
    let nan32 = |x: f32| -> u64 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u64 } };
    let nan64 = |x: f64| -> u64 { if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() } };
    if fmt == 32 {
        let x = f32::from_bits(a[0] as u32);
        let y = || f32::from_bits(a[1] as u32);
        match op {
            FOp::Add => nan32(x + y()), FOp::Sub => nan32(x - y()), FOp::Mul => nan32(x * y()), FOp::Div => nan32(x / y()), FOp::Rem => nan32(x % y()),
            FOp::Sqrt => nan32(x.sqrt()), FOp::Round => nan32(x.round()), FOp::Floor => nan32(x.floor()), FOp::Ceil => nan32(x.ceil()), FOp::Trunc => nan32(x.trunc()),
            FOp::RoundEven => nan32(x.round_ties_even()),
            FOp::FromU => nan32(a[0] as f32),
            FOp::FromS => unreachable!(),
            FOp::ToU => if w == 64 { x as u64 } else if w == 32 { x as u32 as u64 } else if w == 16 { x as u16 as u64 } else if w == 8 { x as u8 as u64 } else { panic!("fptoui {}", w) },
            FOp::ToS => if w == 64 { x as i64 as u64 } else if w == 32 { x as i32 as u32 as u64 } else if w == 16 { x as i16 as u16 as u64 } else { x as i8 as u8 as u64 },
            FOp::Ext => nan64(x as f64), FOp::Tr => unreachable!(),
            FOp::Log => nan32(x.ln()), FOp::Exp => nan32(x.exp()),
        }
    } else {
        let x = f64::from_bits(a[0]);
        let y = || f64::from_bits(a[1]);
        match op {
            FOp::Add => nan64(x + y()), FOp::Sub => nan64(x - y()), FOp::Mul => nan64(x * y()), FOp::Div => nan64(x / y()), FOp::Rem => nan64(x % y()),
            FOp::Sqrt => nan64(x.sqrt()), FOp::Round => nan64(x.round()), FOp::Floor => nan64(x.floor()), FOp::Ceil => nan64(x.ceil()), FOp::Trunc => nan64(x.trunc()),
            FOp::RoundEven => nan64(x.round_ties_even()),
            FOp::FromU => nan64(a[0] as f64),
            FOp::FromS => unreachable!(),
            FOp::ToU => if w == 64 { x as u64 } else if w == 32 { x as u32 as u64 } else if w == 16 { x as u16 as u64 } else { x as u8 as u64 },
            FOp::ToS => if w == 64 { x as i64 as u64 } else if w == 32 { x as i32 as u32 as u64 } else if w == 16 { x as i16 as u16 as u64 } else { x as i8 as u8 as u64 },
            FOp::Tr => nan32(x as f32), FOp::Ext => unreachable!(),
            FOp::Log => nan64(x.ln()), FOp::Exp => nan64(x.exp()),
        }
    }
}
pub fn fp_host_n(op: FOp, fmt: u8, w: u8, a: &[u64], aw: u8) -> u64 {
    if op == FOp::FromS {
        let v = sx(a[0] as u128, aw) as i64;
        return if fmt == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() };
    }
    fp_host(op, fmt, w, a)
}
pub fn fp(op: FOp, fmt: u8, w: u8, args: &[T]) -> T {
    let aw = width(args[0]);
    if args.iter().all(|a| cval(*a).is_some()) && aw <= 64 {
        let v: Vec<u64> = args.iter().map(|a| cval(*a).unwrap() as u64).collect();
        return mk_c(w, fp_host_n(op, fmt, w, &v, aw) as u128);
    }
    // exact identities
    if op == FOp::Mul {
        let one = if fmt == 32 { 0x3f800000u128 } else { 0x3ff0000000000000 };
        if cval(args[0]) == Some(one) { return args[1]; }
        if cval(args[1]) == Some(one) { return args[0]; }
    }
    if aw <= 64 {
        if let Some(r) = lut_apply(w, args, ts().lut_bits, &|v| fp_host_n(op, fmt, w, v, aw)) { return r; }
    }
    // distribute over ite with constant-ish structure is left to merging
    let mut a = args.to_vec();
    if matches!(op, FOp::Add | FOp::Mul) { a.sort(); }
    intern(w, N::F(op, fmt, a.into_boxed_slice()))
}
fn fconsts(fmt: u8) -> (u128, u128) { if fmt == 32 { (0x7fffffff, 0x7f800000) } else { (0x7fffffffffffffff, 0x7ff0000000000000) } }
pub fn fisnan(a: T) -> T {
    let f = width(a);
    if width(a) <= 64 { if let N::Lut(s, t) = &node(a).n { let (m, i) = fconsts(f); let t = t.iter().map(|v| ((*v as u128 & m) > i) as u64).collect(); return mk_lut(1, s.to_vec(), t); } }
    if is_from_int(a) { return fal(); }
    let (_, inf) = fconsts(f);
    ult(mk_c(f - 1, inf), extract(a, 0, f - 1))
}
fn is_from_int(a: T) -> bool { matches!(node(a).n, N::F(FOp::FromU, ..) | N::F(FOp::FromS, ..)) }
fn fkey(a: T) -> T {
    let f = width(a);
    if let N::Lut(s, t) = &node(a).n {
        let sb = 1u64 << (f - 1); let m = mask(f) as u64;
        let t = t.iter().map(|v| if *v == sb { sb } else if v & sb != 0 { !v & m } else { v | sb }).collect();
        return mk_lut(f, s.to_vec(), t);
    }
    // order-preserving key (with -0 mapped to +0)
    let sb = 1u128 << (f - 1);
    if let Some(v) = cval(a) { return mk_c(f, if v == sb { sb } else if v & sb != 0 { !v } else { v | sb }); }
    let s = extract(a, f - 1, 1);
    let body = extract(a, 0, f - 1);
    let isneg0 = and(s, eq(body, mk_c(f - 1, 0)));
    ite(isneg0, mk_c(f, sb), cat(not(s), ite(s, not(body), body)))
}
/// ordered less-than / equal over bit patterns
pub fn flt(a: T, b: T) -> T { and(and(not(fisnan(a)), not(fisnan(b))), ult(fkey(a), fkey(b))) }
pub fn feq(a: T, b: T) -> T { and(and(not(fisnan(a)), not(fisnan(b))), eq(fkey(a), fkey(b))) }

// ---- evaluation ----------------------------------------------------------------------------

pub struct Model {
    pub vals: HashMap<u32, u128, Fx>,
    memo: HashMap<T, u128, Fx>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128, Fx>) -> Model { Model { vals, memo: HashMap::default() } }
    pub fn eval(&mut self, t: T) -> u128 {
        let nd = node(t);
        match &nd.n {
            N::C(v) => return *v,
            N::V(v) => return self.vals.get(v).copied().unwrap_or_else(|| ts().var_def[*v as usize]) & mask(nd.w),
            _ => {}
        }
        if let Some(v) = self.memo.get(&t) { return *v; }
        let r = eval_node(nd.w, &nd.n, &mut |x| self.eval(x));
        self.memo.insert(t, r);
        r
    }
}

/// value of one operator, given its operands' values
fn eval_node(w: u8, n: &N, ev: &mut dyn FnMut(T) -> u128) -> u128 {
    let m = mask(w);
    match n {
            N::Not(a) => !ev(*a) & m,
            N::And(a, b) => { let x = ev(*a); if x == 0 { 0 } else { x & ev(*b) } }
            N::Or(a, b) => { let x = ev(*a); if x == m { m } else { x | ev(*b) } }
            N::Xor(a, b) => ev(*a) ^ ev(*b),
            N::Add(v, c) => { let mut s = *c; for (t, k) in v.iter() { s = s.wrapping_add(ev(*t).wrapping_mul(*k)); } s & m }
            N::Mul(a, b) => ev(*a).wrapping_mul(ev(*b)) & m,
            N::UDiv(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y == 0 { m } else { x / y } }
            N::URem(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y == 0 { x } else { x % y } }
            N::SDiv(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y == 0 { if sx(x, w) < 0 { 1 } else { m } } else { sx(x, w).wrapping_div(sx(y, w)) as u128 & m } }
            N::SRem(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y == 0 { x } else { sx(x, w).wrapping_rem(sx(y, w)) as u128 & m } }
            N::Shl(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y >= w as u128 { 0 } else { (x << y) & m } }
            N::LShr(a, b) => { let (x, y) = (ev(*a), ev(*b)); if y >= w as u128 { 0 } else { x >> y } }
            N::AShr(a, b) => { let (x, y) = (ev(*a), ev(*b)); (sx(x, w) >> y.min(w as u128 - 1)) as u128 & m }
            N::Cat(h, l) => { let (x, y) = (ev(*h), ev(*l)); (x << width(*l)) | y }
            N::Ext(a, lo) => (ev(*a) >> lo) & m,
            N::Sext(a) => sx(ev(*a), width(*a)) as u128 & m,
            N::Eq(a, b) => (ev(*a) == ev(*b)) as u128,
            N::Ult(a, b) => (ev(*a) < ev(*b)) as u128,
            N::Slt(a, b) => { let aw = width(*a); (sx(ev(*a), aw) < sx(ev(*b), aw)) as u128 }
            N::Ite(c, a, b) => if ev(*c) == 1 { ev(*a) } else { ev(*b) },
            N::Pop(a) => ev(*a).count_ones() as u128,
            N::Clz(a) => ev(*a).leading_zeros() as u128 - (128 - w as u128),
            N::Ctz(a) => { let x = ev(*a); if x == 0 { w as u128 } else { x.trailing_zeros() as u128 } }
            N::Lut(s, t) => {
                let mut i = 0usize; let mut sh = 0;
                for x in s.iter() { i |= (ev(*x) as usize) << sh; sh += width(*x); }
                t[i] as u128
            }
            N::F(op, f, a) => { let v: Vec<u64> = a.iter().map(|x| ev(*x) as u64).collect(); fp_host_n(*op, *f, w, &v, width(a[0])) as u128 }
            _ => unreachable!(),
        }
}

pub fn show(t: T, d: u32) -> String {
    let nd = node(t);
    if d == 0 { return format!("#{}", t); }
    let s = |x: T| show(x, d - 1);
    match &nd.n {
        N::C(v) => format!("{}:{}", v, nd.w),
        N::V(v) => ts().var_name[*v as usize].clone(),
        N::Ext(a, lo) => format!("{}[{}+:{}]", s(*a), lo, nd.w),
        N::Add(v, c) => { let mut r = format!("(+ {}", c); for (t, k) in v.iter() { r += &format!(" {}*{}", k, s(*t)); } r + ")" }
        N::Lut(v, t) => { let mut r = format!("(lut{}x{}", t.len(), nd.w); for x in v.iter() { r += " "; r += &s(*x); } r + ")" }
        n => { let mut c = vec![]; children(n, &mut c); let nm = format!("{:?}", n); let nm = nm.split('(').next().unwrap().to_string(); let mut r = format!("({}", nm); for x in c { r += " "; r += &s(x); } r + ")" }
    }
}
