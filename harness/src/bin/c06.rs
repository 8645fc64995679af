//! C06: iterating set bits visits exactly the selected positions, in order, once.
use bitboost::slice_store::*;
use harness::*;

const MAXV: usize = 3;
struct Visits { v: [usize; MAXV], n: usize, broke: bool, max: usize }
impl Visits {
    fn new(max: usize) -> Visits { Visits { v: [0; MAXV], n: 0, broke: false, max } }
    /// returns true to stop
    fn see(&mut self, p: usize) -> bool {
        check(!self.broke, "C06.stop");
        self.v[self.n] = p; self.n += 1;
        if self.n == self.max { self.broke = true; }
        self.broke
    }
}
fn fill(st: &mut BitBlockStore, n: usize) -> SliceRange { let r = st.alloc_zero_blocks(n); for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = u64s(); } r }
fn bit(w: &[u32], j: usize) -> bool { (w[j / 32] >> (j % 32)) & 1 == 1 }

fn index(p: usize, i: usize) -> usize { match p { 0 => i, 1 => 2 * i + 1, 2 => i + i / 3, _ => 3 * i } }

/// `sel(i)`: the selected bits of word i (32 bits), `base(i)`: the position reported for its first bit
fn verify(vs: &Visits, nwords: usize, sel: impl Fn(usize) -> u32, base: impl Fn(usize) -> usize) {
    for k in 1..vs.n { check(vs.v[k - 1] < vs.v[k], "C06.order"); }
    let mut seen = [false; MAXV];
    let mut wi = [0usize; MAXV];
    for k in 0..vs.n { wi[k] = concretize((vs.v[k] / 32) as u64) as usize; }
    for i in 0..nwords {
        let mut e = sel(i);
        let b = base(i);
        for k in 0..vs.n {
            let p = vs.v[k];
            if wi[k] == b / 32 {
                check((e >> (p - b)) & 1 == 1, "C06.visited_unselected");
                e &= !(1u32 << (p - b));
                seen[k] = true;
            }
        }
        // nothing selected is left out before the place we stopped at
        if !vs.broke { check(e == 0, "C06.skipped"); }
        else {
            let last = vs.v[vs.n - 1];
            let lw = wi[vs.n - 1];
            if lw > b / 32 { check(e == 0, "C06.skipped"); }
            else if lw == b / 32 { check(e & ((1u32 << (last - b)) - 1) == 0, "C06.skipped"); }
        }
    }
    for k in 0..vs.n { check(seen[k], "C06.range"); }
    observe(vs.n as u64);
    for k in 0..vs.n { observe(vs.v[k] as u64); }
}
fn pull(max: usize, mut it: impl Iterator<Item = usize>) -> Visits {
    let mut vs = Visits::new(max);
    loop {
        match it.next() {
            Some(p) => if vs.see(p) { break; },
            None => { check(it.next().is_none(), "C06.end"); break; }
        }
    }
    vs
}

fn plain(op: usize, n: usize, max: usize) {
    let mut st = BitBlockStore::new(32);
    let a = fill(&mut st, n); let b = fill(&mut st, n);
    let (x, y) = (st.get_bitvec(a), st.get_bitvec(b));
    let (u, v) = (x.cast::<u32>(), y.cast::<u32>());
    let mut vs = Visits::new(max);
    match op {
        0 => x.for_each_index(|p| vs.see(p)),
        1 => x.for_each_index_and(&y, |p| vs.see(p)),
        2 => vs = pull(max, x.index_iter()),
        3 => vs = pull(max, x.index_iter_and(&y)),
        _ => vs = pull(max, x.index_iter_andnot(&y)),
    }
    verify(&vs, 8 * n, |i| match op { 0 | 2 => u[i], 1 | 3 => u[i] & v[i], _ => u[i] & !v[i] }, |i| 32 * i);
    cover(["each", "each_and", "iter", "iter_and", "iter_andnot"][op]);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_plain() { merge_level(0); let c = case(10) as usize; plain(c % 5, 1 + c / 5, 3 - c / 5) }

fn compr(op: usize, p: usize) {
    let max = 2;
    let n = 1;
    let m = index(p, 8 * n - 1) / 8 + 1;
    let mut st = BitBlockStore::new(32);
    let a = fill(&mut st, n); let b = fill(&mut st, m); let ix = st.alloc_zero_blocks(n);
    { let mut w = st.get_bitvec_mut(ix); let w = w.cast_mut::<u32>(); for i in 0..8 * n { w[i] = index(p, i) as u32; } }
    let (x, y, idx) = (st.get_bitvec(a), st.get_bitvec(b), st.get_bitvec(ix));
    let (u, v) = (x.cast::<u32>(), y.cast::<u32>());
    let mut vs = Visits::new(max);
    match op {
        0 => x.for_each_index_compr(&idx, |p| vs.see(p)),
        1 => x.for_each_index_and_compr(&y, &idx, |p| vs.see(p)),
        2 => vs = pull(max, x.index_iter_compr(&idx)),
        3 => vs = pull(max, x.index_iter_and_compr(&y, &idx)),
        _ => vs = pull(max, x.index_iter_andnot_compr(&y, &idx)),
    }
    verify(&vs, 8 * n, |i| { let w = v[index(p, i)]; match op { 0 | 2 => u[i], 1 | 3 => u[i] & w, _ => u[i] & !w } }, |i| 32 * index(p, i));
    cover(["each", "each_and", "iter", "iter_and", "iter_andnot"][op]);
}
/// block-compressed sets: word i of the set stands for word index(p, i)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_compr() { merge_level(0); let c = case(20) as usize; compr(c % 5, c / 5) }

/// long sets: visits and population count agree when few bits are set anywhere
#[no_mangle] #[inline(never)]
pub extern "C" fn h_sparse() {
    let c = case(20) as usize;
    let (op, n) = (c % 5, [1, 3, 5, 17][c / 5]);
    let mut st = BitBlockStore::new(64);
    let (a, b) = (st.alloc_zero_blocks(n), if op == 4 { st.alloc_zero_blocks(n) } else { st.alloc_one_blocks(n) });
    merge_level(0);
    let i = (64 * concretize(range(4 * n as u64)) + bits(6)) as usize;
    st.get_bitvec_mut(a).enable_bit(i);
    let (x, y) = (st.get_bitvec(a), st.get_bitvec(b));
    let mut k = 0; let mut at = 0;
    match op {
        0 => x.for_each_index(|p| { k += 1; at = p; false }),
        1 => x.for_each_index_and(&y, |p| { k += 1; at = p; false }),
        2 => for p in x.index_iter() { k += 1; at = p; },
        3 => for p in x.index_iter_and(&y) { k += 1; at = p; },
        _ => for p in x.index_iter_andnot(&y) { k += 1; at = p; },
    }
    check(k == 1 && at == i, "C06.single");
    check(x.count_ones_and(&x) == 1, "C06.single_count");
    cover("sparse");
}
/// as many visits as ones: up to 8 selected positions anywhere in the listed words
#[no_mangle] #[inline(never)]
pub extern "C" fn h_counted() {
    merge_level(0);
    let op = case(10) as usize;
    let mut st = BitBlockStore::new(64);
    let (a, b, ix) = (st.alloc_zero_blocks(1), st.alloc_zero_blocks(2), st.alloc_zero_blocks(1));
    const AT: [usize; 6] = [0, 31, 32, 100, 191, 255];
    for p in AT { if flag() { st.get_bitvec_mut(a).enable_bit(p); } }
    { let mut w = st.get_bitvec_mut(ix); let w = w.cast_mut::<u32>(); for i in 0..8 { w[i] = index(1, i) as u32; } }
    let r = if op < 5 { st.alloc_zero_blocks(1) } else { b };
    let mm = bits(6);
    for (k, p) in AT.iter().enumerate() { if (mm >> k) & 1 == 1 && (op % 5 == 1 || op % 5 >= 3) {
        if op < 5 { st.get_bitvec_mut(r).enable_bit(*p); } else { st.get_bitvec_mut(r).enable_bit(index(1, p / 32) * 32 + p % 32); }
    } }
    let (x, y, idx) = (st.get_bitvec(a), st.get_bitvec(r), st.get_bitvec(ix));
    let mut n = 0u64;
    match op {
        0 => x.for_each_index(|_| { n += 1; false }),
        1 => x.for_each_index_and(&y, |_| { n += 1; false }),
        2 => n = x.index_iter().count() as u64,
        3 => n = x.index_iter_and(&y).count() as u64,
        4 => n = x.index_iter_andnot(&y).count() as u64,
        5 => x.for_each_index_compr(&idx, |_| { n += 1; false }),
        6 => x.for_each_index_and_compr(&y, &idx, |_| { n += 1; false }),
        7 => n = x.index_iter_compr(&idx).count() as u64,
        8 => n = x.index_iter_and_compr(&y, &idx).count() as u64,
        _ => n = x.index_iter_andnot_compr(&y, &idx).count() as u64,
    }
    let one = x.count_ones_and(&x);
    let both = if op < 5 { x.count_ones_and(&y) } else { x.count_ones_and_compr(&idx, &y) };
    check(n == match op % 5 { 0 | 2 => one, 1 | 3 => both, _ => one - both }, "C06.count");
    cover("counted");
}
/// mismatched lengths are refused
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() {
    quiet_panics();
    let mut st = BitBlockStore::new(32);
    let a = fill(&mut st, 1); let b = fill(&mut st, 2);
    let (x, y) = (st.get_bitvec(a), st.get_bitvec(b));
    let r = match case(9) {
        0 => panics(|| x.for_each_index_and(&y, |_| true)),
        1 => panics(|| y.for_each_index_and(&x, |_| true)),
        2 => panics(|| x.for_each_index_compr(&y, |_| true)),
        3 => panics(|| y.for_each_index_and_compr(&x, &y, |_| true)),
        4 => panics(|| { x.index_iter_and(&y); }),
        5 => panics(|| { x.index_iter_andnot(&y); }),
        6 => panics(|| { x.index_iter_compr(&y); }),
        7 => panics(|| { y.index_iter_and_compr(&x, &y); }),
        _ => panics(|| { x.index_iter_andnot_compr(&x, &y); }),
    };
    check(r, "C06.refused");
    cover("refused");
}
entries!(h_plain, h_compr, h_sparse, h_counted, h_refused);
