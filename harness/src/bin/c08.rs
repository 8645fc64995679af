//! C08: histograms keep their cells separate; sibling subtraction is exact.
use bitboost::slice_store::*;
use harness::*;
use std::num::Wrapping;
type H = HistStore<Wrapping<u32>>;

const LAYOUTS: [&[u32]; 7] = [&[1], &[3, 2], &[2, 0, 3], &[1, 1, 1, 1], &[0, 4, 0], &[5, 1, 2, 4], &[16, 16]];
fn total(l: &[u32]) -> usize { l.iter().sum::<u32>() as usize }
fn cells(h: &H, r: SliceRange, l: &[u32]) -> Vec<Wrapping<u32>> {
    let mut v = Vec::new();
    for f in 0..l.len() { let s = h.get_hist(r, f); check(s.len() == l[f] as usize, "C08.bins"); for x in s { v.push(*x); } }
    v
}
fn fill(h: &mut H, r: SliceRange, l: &[u32]) { for f in 0..l.len() { for x in h.get_hist_mut(r, f) { *x = Wrapping(u32s()); } } }
fn same(a: &[Wrapping<u32>], b: &[Wrapping<u32>]) -> bool { let mut ok = a.len() == b.len(); for i in 0..a.len() { ok &= a[i] == b[i]; } ok }
fn zero(a: &[Wrapping<u32>]) -> bool { let mut ok = true; for x in a { ok &= x.0 == 0; } ok }

/// writing one cell of one histogram changes that cell only
#[no_mangle] #[inline(never)]
pub extern "C" fn h_cells() {
    let c = case(7) as usize;
    let l = LAYOUTS[c];
    let mut h = H::new(l.iter().copied());
    let (a, b, d) = (h.alloc_hists(), h.alloc_hists(), h.alloc_hists());
    for r in [a, b, d] { check(zero(&cells(&h, r, l)), "C08.zero"); fill(&mut h, r, l); }
    let mut old = [cells(&h, a, l), cells(&h, b, l), cells(&h, d, l)];
    let f = concretize(range(l.len() as u64)) as usize;
    assume(l[f] > 0);
    let (i, v) = (range(l[f] as u64) as usize, Wrapping(u32s()));
    let w = concretize(range(3)) as usize;
    h.get_hist_mut([a, b, d][w], f)[i] = v;
    let mut k = 0; for g in 0..f { k += l[g] as usize; }
    old[w][k + i] = v;
    for (j, r) in [a, b, d].iter().enumerate() { check(same(&old[j], &cells(&h, *r, l)), "C08.separate"); }
    // freed and reused histograms start from zero, the others keep their content
    h.free_hists([a, b, d][(w + 1) % 3]);
    let e = h.alloc_hists();
    check(zero(&cells(&h, e, l)), "C08.zero_again");
    fill(&mut h, e, l);
    for x in [w, (w + 2) % 3] { check(same(&old[x], &cells(&h, [a, b, d][x], l)), "C08.kept"); }
    let g = h.alloc_hists();
    check(zero(&cells(&h, g, l)), "C08.zero_new");
    cover("cells");
}
/// second child = parent - first child, in every cell; parent and first child unchanged
#[no_mangle] #[inline(never)]
pub extern "C" fn h_subtract() {
    let c = case(42) as usize;
    let l = LAYOUTS[c % 7];
    let mut h = H::new(l.iter().copied());
    let r = [h.alloc_hists(), h.alloc_hists(), h.alloc_hists(), h.alloc_hists()];
    for x in r { fill(&mut h, x, l); }
    let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][c / 7];
    let (p, q) = (cells(&h, r[o[0]], l), cells(&h, r[o[1]], l));
    let other = cells(&h, r[3], l);
    h.hists_subtract(r[o[0]], r[o[1]], r[o[2]]);
    let z = cells(&h, r[o[2]], l);
    check(z.len() == total(l), "C08.total");
    for i in 0..z.len() { check(z[i] == p[i] - q[i], "C08.subtract"); }
    check(same(&p, &cells(&h, r[o[0]], l)) && same(&q, &cells(&h, r[o[1]], l)) && same(&other, &cells(&h, r[3], l)), "C08.subtract.kept");
    cover("subtract");
}
/// growth of the store keeps earlier histograms; reset starts afresh
#[no_mangle] #[inline(never)]
pub extern "C" fn h_growth() {
    let l: &[u32] = [&[1000u32, 2000, 1, 500][..], &[4096], &[8192, 1]][case(3) as usize];
    let mut h = H::new(l.iter().copied());
    let a = h.alloc_hists();
    let f = concretize(range(l.len() as u64)) as usize;
    let n = l[f] as usize;
    let v = Wrapping(u32s());
    h.get_hist_mut(a, f)[0] = v; h.get_hist_mut(a, f)[n - 1] += v;
    let b = h.alloc_hists(); let c = h.alloc_hists();
    check(h.get_hist(a, f)[n - 1] == if n == 1 { v + v } else { v } && h.get_hist(a, f)[0] == if n == 1 { v + v } else { v }, "C08.growth");
    let mut others = true;
    for i in 1..n.max(1) - 1 { others &= h.get_hist(a, f)[i].0 == 0; }
    check(others, "C08.growth.rest");
    for r in [b, c] { let mut z = true; for g in 0..l.len() { for x in h.get_hist(r, g) { z &= x.0 == 0; } } check(z, "C08.growth.zero"); }
    h.get_hist_mut(c, f)[n - 1] = v;
    h.reset();
    let d = h.alloc_hists();
    let mut z = true; for g in 0..l.len() { for x in h.get_hist(d, g) { z &= x.0 == 0; } }
    check(z, "C08.reset.zero");
    cover("growth");
}
/// every history of allocations (filled with arbitrary values), frees, subtractions and resets
#[no_mangle] #[inline(never)]
pub extern "C" fn h_history() {
    let c = case(6) as usize;
    let l: &[u32] = [&[3u32, 2][..], &[2, 0, 3], &[1]][c % 3];
    let steps = 9;
    let mut h = H::new(l.iter().copied());
    let mut live: Vec<(SliceRange, Vec<Wrapping<u32>>)> = Vec::new();
    for s in 0..steps {
        let n = live.len();
        // 0: reset, 1: allocate, 2: subtract, 3..: free
        let op = if n == 0 && s == 0 { 1 } else if s < 2 && c / 3 == 1 { 1 } else { concretize(range(3 + n as u64)) as usize };
        assume(!(op == 1 && n == 3) && !(op == 2 && n < 3));
        match op {
            0 => { h.reset(); live.clear(); cover("reset"); }
            1 => {
                let r = h.alloc_hists();
                check(zero(&cells(&h, r, l)), "C08.history.zero");
                fill(&mut h, r, l);
                live.push((r, cells(&h, r, l)));
            }
            2 => {
                h.hists_subtract(live[0].0, live[1].0, live[2].0);
                let d: Vec<Wrapping<u32>> = (0..total(l)).map(|i| live[0].1[i] - live[1].1[i]).collect();
                live[2].1 = d;
                cover("subtracted");
            }
            k => { let (r, _) = live.remove(k - 3); h.free_hists(r); cover("freed"); }
        }
        for (r, x) in &live { check(same(x, &cells(&h, *r, l)), "C08.history.kept"); }
    }
    cover("history");
}
/// a feature or bin that does not exist is refused
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() {
    quiet_panics();
    let l = LAYOUTS[case(7) as usize];
    let mut h = H::new(l.iter().copied());
    let a = h.alloc_hists();
    let f = l.len() + concretize(range(4)) as usize;
    check(panics(|| { h.get_hist(a, f); }) && panics(|| { h.get_hist_mut(a, f); }), "C08.refused.feature");
    let i = range(1 << 32) as usize;
    for g in 0..l.len() { check(panics(|| { h.get_hist_mut(a, g)[i] = Wrapping(1); }) == (i >= l[g] as usize), "C08.refused.bin"); }
    cover("refused");
}
entries!(h_cells, h_subtract, h_growth, h_history, h_refused);
