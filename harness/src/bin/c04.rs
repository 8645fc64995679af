//! C04: counts and gradient sums over uncompressed masks equal the naive sums.
use bitboost::bitblock::*;
use bitboost::count_and_sum::*;
use bitboost::slice_store::*;
use harness::*;

/// naive sum: every example of every selected word, in the documented layout
fn naive(width: usize, slice: &[u32], m: impl Fn(usize) -> u32, nwords: usize) -> u64 {
    let per = 8 / width;
    let mut s = 0u64;
    for w in 0..nwords {
        for k in 0..width {
            s += ((slice[(w / per) * 8 + k * per + w % per] & m(w)).count_ones() as u64) << k;
        }
    }
    s
}
fn naive_count(m: impl Fn(usize) -> u32, nwords: usize) -> u64 { let mut s = 0u64; for w in 0..nwords { s += m(w).count_ones() as u64; } s }
fn blocks(n: usize) -> BitBlocks { let mut b = BitBlocks::zero_blocks(n); for x in b.cast_mut::<u64>() { *x = u64s(); } b }
fn fill(st: &mut BitBlockStore, n: usize) -> SliceRange { let r = st.alloc_zero_blocks(n); for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = u64s(); } r }

const NS: [usize; 12] = [1, 2, 3, 4, 8, 15, 16, 17, 18, 31, 32, 35];
fn count(n: usize) {
    {
        let mut st = BitBlockStore::new(4);
        let a = fill(&mut st, n); let b = fill(&mut st, n);
        let (x, y) = (st.get_bitvec(a), st.get_bitvec(b));
        let c = x.count_ones_and(&y);
        let (u, v) = (x.cast::<u32>(), y.cast::<u32>());
        check(c == naive_count(|w| u[w] & v[w], 8 * n), "C04.count");
        check(x.count_ones_and(&x) == naive_count(|w| u[w], 8 * n), "C04.count_one");
    }
    let (x, y) = (blocks(n), blocks(n));
    let c = count_and2_c00(&x, &y);
    let (u, v) = (x.cast::<u32>(), y.cast::<u32>());
    check(c == naive_count(|w| u[w] & v[w], 8 * n), "C04.count2");
    cover("count");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_count() { count(NS[case(12) as usize]); }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_count_big() { count([47, 48, 49, 64, 65, 79, 80, 100, 127, 128][case(10) as usize]); }

fn sum<L: BitSliceLayout>(n: usize) { // n blocks of 256 examples
    let w = L::width();
    let mut st = BitBlockStore::new(4);
    let s = fill(&mut st, w * n); let a = fill(&mut st, n); let b = fill(&mut st, n);
    let (nm, fm) = (st.get_bitvec(a), st.get_bitvec(b));
    let r = st.get_bitslice::<L>(s).sum_all_masked2(&nm, &fm);
    let sl = st.get_bitvec(s);
    let (sl, u, v) = (sl.cast::<u32>(), nm.cast::<u32>(), fm.cast::<u32>());
    check(r == naive(w, sl, |i| u[i] & v[i], 8 * n), "C04.sum");
    cover("sum");
}
fn sum2(w: usize, n: usize) {
    let (s, a, b) = (blocks(w * n), blocks(n), blocks(n));
    let r = match w { 1 => sum_and3_w1_c00(&s, &a, &b), 2 => sum_and3_w2_c00(&s, &a, &b), 4 => sum_and3_w4_c00(&s, &a, &b), _ => sum_and3_w8_c00(&s, &a, &b) };
    let (sl, u, v) = (s.cast::<u32>(), a.cast::<u32>(), b.cast::<u32>());
    check(r == naive(w, sl, |i| u[i] & v[i], 8 * n), "C04.sum2");
    cover("sum");
}
fn sums(c: usize, tab: [[usize; 4]; 4]) {
    let (k, wi, which) = (c % 4, (c / 4) % 4, c / 16);
    let n = tab[wi][k];
    if which == 0 { match wi { 0 => sum::<BitSliceLayout1>(n), 1 => sum::<BitSliceLayout2>(n), 2 => sum::<BitSliceLayout4>(n), _ => sum::<BitSliceLayout8>(n) } }
    else { sum2(1 << wi, n) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_sum() { sums(case(32) as usize, [[1, 15, 16, 33], [1, 7, 8, 17], [1, 3, 4, 9], [1, 2, 3, 4]]) }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_sum_big() { sums(case(32) as usize, [[2, 31, 48, 65], [3, 16, 25, 33], [2, 8, 13, 17], [5, 6, 7, 9]]) }

fn scalar<L: BitSliceLayout>() {
    let w = L::width();
    let n = 2;
    let mut st = BitBlockStore::new(4);
    let s = fill(&mut st, w * n);
    let sl = st.get_bitslice::<L>(s);
    let i = range(8 * n as u64) as usize;
    let m = u32s();
    let r = sl.sum_masked(i, m);
    let v = st.get_bitvec(s);
    let v = v.cast::<u32>();
    let per = 8 / w;
    let mut e = 0u32;
    for k in 0..w { e += (v[(i / per) * 8 + k * per + i % per] & m).count_ones() << k; }
    check(r == e, "C04.scalar");
    check(unsafe { sl.sum_masked_unsafe(i, m) } == e, "C04.scalar_unsafe");
    cover("scalar");
}
/// one 32-example block
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scalar() { match case(4) { 0 => scalar::<BitSliceLayout1>(), 1 => scalar::<BitSliceLayout2>(), 2 => scalar::<BitSliceLayout4>(), _ => scalar::<BitSliceLayout8>() } }

fn scaled<L: BitSliceLayout>(b: usize) {
    let bounds = [(0.0f32, 1.0f32), (-1.0, 1.0), (-0.3, 2.5)][b];
    let w = L::width();
    let mut st = BitBlockStore::new(4);
    let s = st.alloc_zero_bitslice::<L>(64);
    let top = if w == 8 { 255u32 } else { (1 << w) - 1 };
    for j in 0..10 { st.get_bitslice_mut::<L>(s).set_value(32 + j, ((j as u32 * 37 + 11) & top) as u8); }
    let m = bits(10) as u32;
    let sl = st.get_bitslice::<L>(s);
    let (v, c) = sl.sum_scaled_masked(1, m, bounds);
    let mut sum = 0u32;
    for j in 0..10u32 { if (m >> j) & 1 == 1 { sum += (j * 37 + 11) & top; } }
    check(c == m.count_ones(), "C04.scaled.count");
    let e = (sum as f32 / top as f32) * (bounds.1 - bounds.0) + c as f32 * bounds.0;
    check(v == e, "C04.scaled.sum");
    let (v2, c2) = unsafe { sl.sum_scaled_masked_unsafe(1, m, bounds) };
    check(v2 == v && c2 == c, "C04.scaled.unsafe");
    observe_f(v); observe(c as u64);
    cover("scaled");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_scaled() { let c = case(12) as usize; match c % 4 { 0 => scaled::<BitSliceLayout1>(c / 4), 1 => scaled::<BitSliceLayout2>(c / 4), 2 => scaled::<BitSliceLayout4>(c / 4), _ => scaled::<BitSliceLayout8>(c / 4) } }

fn refused<L: BitSliceLayout>(k: u64) {
    let w = L::width();
    let mut st = BitBlockStore::new(8);
    let s = fill(&mut st, 2 * w); let a = fill(&mut st, 2); let b = fill(&mut st, 1);
    let sl = st.get_bitslice::<L>(s);
    let (x, y) = (st.get_bitvec(a), st.get_bitvec(b));
    let i = 16 + range(1 << 32) as usize;
    check(match k {
        0 => panics(|| { sl.sum_masked(i, 1); }),
        1 => panics(|| { sl.sum_all_masked2(&x, &y); }),
        2 => panics(|| { sl.sum_all_masked2(&y, &x); }),
        _ => panics(|| { sl.sum_scaled_masked(i, 1, (0.0, 1.0)); }),
    }, "C04.refused");
    // a shorter second vector is only read as far as it goes
    if k == 0 { let (u, v) = (x.cast::<u32>(), y.cast::<u32>()); check(x.count_ones_and(&y) == naive_count(|w| u[w] & v[w], 8), "C04.count_min"); }
    cover("refused");
}
/// mismatched lengths and positions are refused, never read past the end
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() { quiet_panics(); let c = case(16); match c % 4 { 0 => refused::<BitSliceLayout1>(c / 4), 1 => refused::<BitSliceLayout2>(c / 4), 2 => refused::<BitSliceLayout4>(c / 4), _ => refused::<BitSliceLayout8>(c / 4) } }

/// the scaled total of a set is count*lo + sum*(hi-lo)/maxcode
#[no_mangle] #[inline(never)]
pub extern "C" fn h_linproj() {
    fn f<L: BitSliceLayout>(b: usize) {
        let bounds = [(0.0f32, 1.0f32), (-1.5, 2.0), (-1.0, 0.0)][b];
        let top = (L::nunique_values() - 1) as u64;
        check(top == (1 << L::width()) - 1, "C04.nunique");
        let c = range(6);
        let s = range(5 * top + 1);
        assume(s <= c * top);
        let v = L::linproj(s as f32, c as f32, bounds);
        let (lo, hi) = (c as f32 * bounds.0, c as f32 * bounds.1);
        let tol = 1.0e-4;
        check(v >= lo - tol && v <= hi + tol, "C04.linproj.range");
        if s == 0 { check((v - lo).abs() <= tol, "C04.linproj.zero"); }
        if s == c * top { check((v - hi).abs() <= tol, "C04.linproj.full"); }
        let u = L::linproj((s + 1) as f32, c as f32, bounds);
        check(u > v, "C04.linproj.monotone");
        observe_f(v);
        cover("linproj");
    }
    let c = case(12) as usize;
    match c % 4 { 0 => f::<BitSliceLayout1>(c / 4), 1 => f::<BitSliceLayout2>(c / 4), 2 => f::<BitSliceLayout4>(c / 4), _ => f::<BitSliceLayout8>(c / 4) }
}
entries!(h_count, h_count_big, h_sum, h_sum_big, h_scalar, h_scaled, h_refused, h_linproj);
