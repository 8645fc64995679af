//! Differential test of the term simplifier: random term DAGs, each with its value under several
//! models computed from the operation's definition; the simplified term, its known bits and its
//! interval must agree with every one of them.
use crate::term::*;
struct R(u64);
impl R {
    fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn r(&mut self, k: u64) -> u64 { (self.n() >> 11) % k }
    fn v(&mut self, w: u8) -> u128 {
        let x = ((self.n() as u128) << 64) | self.n() as u128;
        (match self.r(6) { 0 => x, 1 => x & 0xf, 2 => !(x & 7), 3 => 1u128 << self.r(w as u64), 4 => mask(self.r(w as u64 + 1) as u8) << self.r(w as u64), _ => x & mask(w / 2 + 1) }) & mask(w)
    }
}
const K: usize = 6;
type V = [u128; K];
pub fn run(n: u64) -> i32 {
    let mut r = R(0x1234567);
    let ws = [1u8, 1, 8, 16, 32, 64, 64, 128, 3, 24];
    let mut bad = 0;
    for round in 0..n {
        let mut pool: Vec<(T, V)> = vec![];
        let mut models: Vec<std::collections::HashMap<u32, u128, Fx>> = (0..K).map(|_| Default::default()).collect();
        let deep = round % 2 == 1; // small-domain mode
        ts().deep = deep;
        for _ in 0..6 {
            let w = if deep { [1u8, 1, 3, 2, 8, 1][r.r(6) as usize] } else { ws[r.r(10) as usize] };
            let t = mk_var(w, format!("x{}", ts().var_w.len()));
            let id = ts().var_w.len() as u32 - 1;
            let mut v = [0; K];
            for k in 0..K { v[k] = r.v(w); models[k].insert(id, v[k]); }
            pool.push((t, v));
        }
        let mut ms: Vec<Model> = models.into_iter().map(Model::new).collect();
        for _ in 0..60 {
            let (a, av) = pool[r.r(pool.len() as u64) as usize].clone();
            let w = width(a); let m = mask(w);
            // second operand of the same width
            let (b, bv) = {
                let c: Vec<_> = pool.iter().filter(|p| width(p.0) == w).cloned().collect();
                if r.r(3) == 0 || c.is_empty() { let v = r.v(w); (mk_c(w, v), [v; K]) } else { c[r.r(c.len() as u64) as usize].clone() }
            };
            let un = |t: T, f: &dyn Fn(u128) -> u128| { let mut o = [0; K]; for k in 0..K { o[k] = f(av[k]) & mask(width(t)); } (t, o) };
            let bi = |t: T, f: &dyn Fn(u128, u128) -> u128| { let mut o = [0; K]; for k in 0..K { o[k] = f(av[k], bv[k]) & mask(width(t)); } (t, o) };
            let op = r.r(27);
            if (op == 10 || op == 11) && bv.iter().any(|y| *y == 0) { continue; }
            let (t, v) = match op {
                0 => un(not(a), &|x| !x), 1 | 2 => bi(and(a, b), &|x, y| x & y), 3 | 4 => bi(or(a, b), &|x, y| x | y), 5 => bi(xor(a, b), &|x, y| x ^ y),
                6 | 7 => bi(add(a, b), &|x, y| x.wrapping_add(y)), 8 => bi(sub(a, b), &|x, y| x.wrapping_sub(y)), 9 => bi(mul(a, b), &|x, y| x.wrapping_mul(y)),
                10 => bi(udiv(a, b), &|x, y| if y == 0 { m } else { x / y }), 11 => bi(urem(a, b), &|x, y| if y == 0 { x } else { x % y }),
                12 => bi(shl(a, b), &|x, y| if y >= w as u128 { 0 } else { x << y }), 13 => bi(lshr(a, b), &|x, y| if y >= w as u128 { 0 } else { x >> y }),
                14 => bi(ashr(a, b), &|x, y| (sx(x, w) >> y.min(w as u128 - 1)) as u128),
                15 => bi(eq(a, b), &|x, y| (x == y) as u128), 16 => bi(ult(a, b), &|x, y| (x < y) as u128), 17 => bi(slt(a, b), &|x, y| (sx(x, w) < sx(y, w)) as u128),
                18 | 19 => {
                    let c: Vec<_> = pool.iter().filter(|p| width(p.0) == 1).cloned().collect();
                    if c.is_empty() { continue; }
                    let (c, cv) = c[r.r(c.len() as u64) as usize].clone();
                    let mut o = [0; K]; for k in 0..K { o[k] = if cv[k] == 1 { av[k] } else { bv[k] }; }
                    (ite(c, a, b), o)
                }
                20 => un(pop(a), &|x| x.count_ones() as u128), 21 => un(clz(a), &|x| x.leading_zeros() as u128 - (128 - w as u128)),
                22 => un(ctz(a), &|x| if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }),
                23 => { let lo = r.r(w as u64) as u8; let nw = 1 + r.r((w - lo) as u64) as u8; un(extract(a, lo, nw), &|x| x >> lo) }
                24 => { let tw = ws[r.r(10) as usize]; if tw < w { continue; } if r.r(2) == 0 { un(zext(a, tw), &|x| x) } else { un(sext(a, tw), &|x| sx(x, w) as u128) } }
                25 => { let (c, cv) = pool[r.r(pool.len() as u64) as usize].clone(); let cw = width(c); if cw as u32 + w as u32 > 128 { continue; } let mut o = [0; K]; for k in 0..K { o[k] = (av[k] << cw) | cv[k]; } (cat(a, c), o) }
                _ => { // small domain selection, to reach the tables
                    let k = 1 + r.r(4) as u8; if w < k { continue; }
                    let s = extract(a, 0, k); let tw = ws[2 + r.r(5) as usize];
                    let tab: Vec<u64> = (0..1u64 << k).map(|_| r.v(tw) as u64).collect();
                    let mut o = [0; K]; for q in 0..K { o[q] = tab[(av[q] & mask(k)) as usize] as u128; }
                    let tt = tab.clone();
                    match lut_apply(tw, &[s], 12, &move |x| tt[x[0] as usize]) { Some(t) => (t, o), None => continue }
                }
            };
            let nd = node(t);
            for k in 0..K {
                let got = ms[k].eval(t);
                let x = v[k];
                if got != x || x & nd.kz != 0 || !x & nd.ko != 0 || x < nd.lo || x > nd.hi {
                    bad += 1;
                    if bad < 10 { println!("round {} op {} a={} b={} -> {} : got {:x} want {:x} (a={:x} b={:x}) kz {:x} ko {:x} lo {:x} hi {:x} w {}", round, op, show(a, 3), show(b, 3), show(t, 4), got, x, av[k], bv[k], nd.kz, nd.ko, nd.lo, nd.hi, w); }
                    break;
                }
            }
            pool.push((t, v));
        }
    }
    println!("selftest: {} rounds, {} terms, {} disagreements", n, ts().nodes.len(), bad);
    (bad > 0) as i32
}
