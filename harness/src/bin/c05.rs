//! C05: counts and sums over block-compressed masks equal those over the expanded masks.
use bitboost::bitblock::*;
use bitboost::count_and_sum::*;
use bitboost::slice_store::*;
use harness::*;

/// code sum of the selected bits of word `w` of a slice
fn word_sum(width: usize, slice: &[u32], w: usize, m: u32) -> u64 {
    let per = 8 / width;
    let mut s = 0u64;
    for k in 0..width { s += ((slice[(w / per) * 8 + k * per + w % per] & m).count_ones() as u64) << k; }
    s
}
fn blocks(n: usize) -> BitBlocks { let mut b = BitBlocks::zero_blocks(n); for x in b.cast_mut::<u64>() { *x = u64s(); } b }
fn fill(st: &mut BitBlockStore, n: usize) -> SliceRange { let r = st.alloc_zero_blocks(n); for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = u64s(); } r }
/// a concrete increasing index list: entry i of pattern p, and the length of the full masks in words
fn index(p: usize, i: usize) -> usize { match p { 0 => i, 1 => i + 3, 2 => 2 * i + 1, 3 => 3 * i, 4 => i + i / 5, _ => i * 2 + i % 3 / 2 } }
fn full_blocks(p: usize, n: usize) -> usize { index(p, 8 * n - 1) / 8 + 1 }

/// arbitrary (symbolic) indices, repeats allowed
fn any_index<L: BitSliceLayout>(n: usize, m: usize) {
    let w = L::width();
    let mut st = BitBlockStore::new(64);
    let s = fill(&mut st, w * n); let a = fill(&mut st, n); let f = fill(&mut st, m);
    let ix = st.alloc_zero_blocks(n);
    { let mut b = st.get_bitvec_mut(ix); let iw = b.cast_mut::<u32>(); for x in iw.iter_mut() { *x = range(8 * m as u64) as u32; } }
    let (nm, fm, idx, sl) = (st.get_bitvec(a), st.get_bitvec(f), st.get_bitvec(ix), st.get_bitvec(s));
    let (u, v, iw, g) = (nm.cast::<u32>(), fm.cast::<u32>(), idx.cast::<u32>(), sl.cast::<u32>());
    let (mut cnt, mut sum) = (0u64, 0u64);
    for i in 0..8 * n { let mm = u[i] & v[iw[i] as usize]; cnt += mm.count_ones() as u64; sum += word_sum(w, g, i, mm); }
    if w == 1 {
        check(nm.count_ones_and_compr(&idx, &fm) == cnt, "C05.any.count");
    }
    check(st.get_bitslice::<L>(s).sum_all_masked2_compr(&idx, &nm, &fm) == sum, "C05.any.sum");
    cover("any");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_any() {
    let c = case(8) as usize;
    let n = 1 + c / 4;
    match c % 4 { 0 => any_index::<BitSliceLayout1>(n, 2), 1 => any_index::<BitSliceLayout2>(n, 2), 2 => any_index::<BitSliceLayout4>(n, 1), _ => any_index::<BitSliceLayout8>(n, 1) }
}
fn any10(w: usize) {
    let (n, m) = (1, 1);
    let (s, a, f) = (blocks(w * n), blocks(n), blocks(m));
    let mut idx = BitBlocks::zero_blocks(n);
    for x in idx.cast_mut::<u32>() { *x = range(8 * m as u64) as u32; }
    let (u, v, iw, g) = (a.cast::<u32>(), f.cast::<u32>(), idx.cast::<u32>(), s.cast::<u32>());
    let (mut cnt, mut sum) = (0u64, 0u64);
    for i in 0..8 * n { let mm = u[i] & v[iw[i] as usize]; cnt += mm.count_ones() as u64; sum += word_sum(w, g, i, mm); }
    let r = match w { 1 => sum_and3_w1_c10(&s, &idx, &a, &f), 2 => sum_and3_w2_c10(&s, &idx, &a, &f), 4 => sum_and3_w4_c10(&s, &idx, &a, &f), _ => sum_and3_w8_c10(&s, &idx, &a, &f) };
    check(r == sum, "C05.any10.sum");
    if w == 1 { check(count_and2_c10(&idx, &a, &f) == cnt, "C05.any10.count"); }
    cover("any10");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_any10() { any10(1 << case(4)) }

/// listed indices by pattern, every content; the last `pad` words are padding (index 0, zero mask);
/// compared with the uncompressed kernel on the expanded masks and gradients
fn expanded<L: BitSliceLayout>(n: usize, p: usize, pad: usize) {
    let w = L::width();
    let m = full_blocks(p, n);
    let mut st = BitBlockStore::new(64);
    let a = fill(&mut st, n); let f = fill(&mut st, m); let s = fill(&mut st, w * n);
    let ix = st.alloc_zero_blocks(n);
    let (ea, es) = (st.alloc_zero_blocks(m), st.alloc_zero_bitslice::<L>(256 * m));
    let real = 8 * n - pad;
    { let mut b = st.get_bitvec_mut(ix); let iw = b.cast_mut::<u32>(); for i in 0..real { iw[i] = index(p, i) as u32; } }
    { let mut b = st.get_bitvec_mut(a); let u = b.cast_mut::<u32>(); for i in real..8 * n { u[i] = 0; } }
    for i in 0..real {
        let x = st.get_bitvec(a).cast::<u32>()[i];
        st.get_bitvec_mut(ea).cast_mut::<u32>()[index(p, i)] = x;
        let (src, mut dst) = st.get_two_bitslices_mut::<L>(s, es);
        dst.copy_block_from::<u32, _>(&src, i, index(p, i));
    }
    let (nm, fm, idx) = (st.get_bitvec(a), st.get_bitvec(f), st.get_bitvec(ix));
    let em = st.get_bitvec(ea);
    check(nm.count_ones_and_compr(&idx, &fm) == em.count_ones_and(&fm), "C05.count");
    let r = st.get_bitslice::<L>(s).sum_all_masked2_compr(&idx, &nm, &fm);
    check(r == st.get_bitslice::<L>(es).sum_all_masked2(&em, &fm), "C05.sum");
    // and the listed words only
    let sl = st.get_bitvec(s);
    let (u, v, g) = (nm.cast::<u32>(), fm.cast::<u32>(), sl.cast::<u32>());
    let (mut cnt, mut sum) = (0u64, 0u64);
    for i in 0..real { let mm = u[i] & v[index(p, i)]; cnt += mm.count_ones() as u64; sum += word_sum(w, g, i, mm); }
    check(r == sum, "C05.sum_listed");
    check(nm.count_ones_and_compr(&idx, &fm) == cnt, "C05.count_listed");
    cover("expanded");
}
fn exp(c: usize, tab: [[usize; 4]; 4]) {
    let (k, wi, p) = (c % 4, (c / 4) % 4, c / 16);
    let n = tab[wi][k];
    let pad = [0, 7, 3, 1][(k + p) % 4];
    match wi { 0 => expanded::<BitSliceLayout1>(n, p, pad), 1 => expanded::<BitSliceLayout2>(n, p, pad), 2 => expanded::<BitSliceLayout4>(n, p, pad), _ => expanded::<BitSliceLayout8>(n, p, pad) }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_expanded() { exp(case(96) as usize, [[1, 15, 16, 17], [1, 7, 8, 9], [1, 3, 4, 5], [1, 2, 3, 4]]) }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_expanded_big() { exp(case(96) as usize, [[2, 31, 33, 50], [3, 16, 17, 25], [2, 7, 8, 13], [5, 6, 7, 8]]) }

fn expanded10(n: usize, w: usize, p: usize) {
    let m = full_blocks(p, n);
    let (s, a, f) = (blocks(w * n), blocks(n), blocks(m));
    let mut idx = BitBlocks::zero_blocks(n);
    for (i, x) in idx.cast_mut::<u32>().iter_mut().enumerate() { *x = index(p, i) as u32; }
    let (u, v, g) = (a.cast::<u32>(), f.cast::<u32>(), s.cast::<u32>());
    let (mut cnt, mut sum) = (0u64, 0u64);
    for i in 0..8 * n { let mm = u[i] & v[index(p, i)]; cnt += mm.count_ones() as u64; sum += word_sum(w, g, i, mm); }
    let r = match w { 1 => sum_and3_w1_c10(&s, &idx, &a, &f), 2 => sum_and3_w2_c10(&s, &idx, &a, &f), 4 => sum_and3_w4_c10(&s, &idx, &a, &f), _ => sum_and3_w8_c10(&s, &idx, &a, &f) };
    check(r == sum, "C05.sum10");
    check(count_and2_c10(&idx, &a, &f) == cnt, "C05.count10");
    cover("expanded10");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_expanded10() {
    let c = case(32) as usize;
    let (k, wi, p) = (c % 4, (c / 4) % 4, 1 + c / 16 * 3);
    expanded10([[1, 16, 17, 33], [1, 8, 9, 17], [1, 4, 5, 9], [1, 2, 3, 5]][wi][k], 1 << wi, p)
}

/// both masks compressed: only indices listed in both count; the gradients follow the first list
fn both(c: usize) {
    let (n1, n2) = [(1, 1), (2, 1), (1, 2), (3, 2)][c % 4];
    let (p1, p2) = [(0, 0), (1, 0), (2, 3), (3, 2), (4, 1), (0, 5)][c / 4];
    let (a, b, s) = (blocks(n1), blocks(n2), blocks(8 * n1));
    let (mut i1, mut i2) = (BitBlocks::zero_blocks(n1), BitBlocks::zero_blocks(n2));
    for (i, x) in i1.cast_mut::<u32>().iter_mut().enumerate() { *x = index(p1, i) as u32; }
    for (i, x) in i2.cast_mut::<u32>().iter_mut().enumerate() { *x = index(p2, i) as u32; }
    both_check(&i1, &a, &i2, &b, &s);
}
fn both_check(i1: &BitBlocks, a: &BitBlocks, i2: &BitBlocks, b: &BitBlocks, s: &BitBlocks) {
    let (u, v) = (a.cast::<u32>(), b.cast::<u32>());
    let (x, y) = (i1.cast::<u32>(), i2.cast::<u32>());
    let mut cnt = 0u64; let mut sum = [0u64; 4];
    let g = s.cast::<u32>();
    for i in 0..u.len() { for j in 0..v.len() { if x[i] == y[j] {
        let mm = u[i] & v[j];
        cnt += mm.count_ones() as u64;
        for k in 0..4 { sum[k] += word_sum(1 << k, g, i, mm); }
    } } }
    check(count_and2_c11(i1, a, i2, b) == cnt, "C05.count11");
    check(sum_and3_w1_c11(s, i1, a, i2, b) == sum[0], "C05.sum11_1");
    check(sum_and3_w2_c11(s, i1, a, i2, b) == sum[1], "C05.sum11_2");
    check(sum_and3_w4_c11(s, i1, a, i2, b) == sum[2], "C05.sum11_4");
    check(sum_and3_w8_c11(s, i1, a, i2, b) == sum[3], "C05.sum11_8");
    cover("both");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_both() { both(case(24) as usize) }
/// both lists arbitrary increasing sequences
#[no_mangle] #[inline(never)]
pub extern "C" fn h_both_any() {
    let (a, b) = (blocks(1), blocks(1));
    let (mut i1, mut i2) = (BitBlocks::zero_blocks(1), BitBlocks::zero_blocks(1));
    for l in [&mut i1, &mut i2] {
        let l = l.cast_mut::<u32>();
        for i in 0..8 { l[i] = if i < 3 { u32s() } else { 0xffff_fff0 + i as u32 }; }
        assume(l[0] < l[1]); assume(l[1] < l[2]); assume(l[2] < 0xffff_fff0);
    }
    let (u, v) = (a.cast::<u32>(), b.cast::<u32>());
    let (x, y) = (i1.cast::<u32>(), i2.cast::<u32>());
    let c = count_and2_c11(&i1, &a, &i2, &b);
    let mut cnt = 0u64;
    for i in 0..8 { for j in 0..8 { if x[i] == y[j] { cnt += (u[i] & v[j]).count_ones() as u64; } } }
    check(c == cnt, "C05.any11");
    cover("both_any");
}

fn refused<L: BitSliceLayout>(k: usize) {
    let w = L::width();
    let mut st = BitBlockStore::new(64);
    let s = fill(&mut st, w); let a = fill(&mut st, 1); let f = fill(&mut st, 2); let ix = st.alloc_zero_blocks(1); let ix2 = st.alloc_zero_blocks(2);
    let bad = 16 + range(0xffff_fff0 - 16) as u32;
    st.get_bitvec_mut(ix).cast_mut::<u32>()[k] = bad;
    let (nm, fm, idx, idx2) = (st.get_bitvec(a), st.get_bitvec(f), st.get_bitvec(ix), st.get_bitvec(ix2));
    let sl = st.get_bitslice::<L>(s);
    check(panics(|| { nm.count_ones_and_compr(&idx, &fm); }), "C05.refused.count");
    check(panics(|| { sl.sum_all_masked2_compr(&idx, &nm, &fm); }), "C05.refused.sum");
    check(panics(|| { sl.sum_all_masked2_compr(&idx2, &nm, &fm); }), "C05.refused.len");
    check(panics(|| { sl.sum_all_masked2_compr(&fm, &fm, &fm); }), "C05.refused.len2");
    cover("refused");
}
/// an index past the end of the full-length mask is refused
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() { quiet_panics(); let c = case(32) as usize; match c % 4 { 0 => refused::<BitSliceLayout1>(c / 4), 1 => refused::<BitSliceLayout2>(c / 4), 2 => refused::<BitSliceLayout4>(c / 4), _ => refused::<BitSliceLayout8>(c / 4) } }
entries!(h_any, h_any10, h_expanded, h_expanded_big, h_expanded10, h_both, h_both_any, h_refused);
