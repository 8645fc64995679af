//! C14: each split is the best admissible one and respects the configured limits.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::tree::Tree;
use harness::mock::*;
use harness::*;

/// (bits, bounds): gradients on the grid are represented exactly
const W: [(usize, (f32, f32)); 5] = [(1, (-0.5, 0.5)), (2, (-1.5, 1.5)), (4, (-7.5, 7.5)), (8, (-127.5, 127.5)), (4, (-1.0, 1.0))];
fn config(depth: usize, w: usize) -> Config {
    let mut c = Config::new();
    c.max_tree_depth = depth;
    c.discr_nbits = W[w].0;
    c.max_nbins = 4;
    c
}
fn grid(w: usize, code: u64) -> f32 {
    let (lo, hi) = W[w].1;
    let levels = ((1u64 << W[w].0) - 1) as f32;
    lo + (hi - lo) * ((levels * code as f32 / 3.0).round() / levels)
}
fn grad(w: usize) -> f32 { if w == 0 { bits(1) as f32 - 0.5 } else { [grid(w, 0), grid(w, 1), grid(w, 2), grid(w, 3)][bits(2) as usize] } }
fn table(cfg: &Config, n: usize, which: u32) -> Data {
    let mut d = Data::empty(cfg, 3, n);
    let c0: Vec<f32> = (0..n).map(|i| if which & 1 == 1 { (i * 7 % 3) as f32 } else { 0.0 }).collect();
    let c1: Vec<f32> = (0..n).map(|i| if which & 2 == 2 { (i * 5 % 6) as f32 } else { 0.0 }).collect();
    let c2: Vec<f32> = (0..n).map(|i| if which & 4 == 4 { (i * 3 % 7) as f32 - 2.0 } else { 0.0 }).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C14.data");
    check(d.set_feature_data(1, &c1, true).is_ok(), "C14.data");
    check(d.set_feature_data(2, &c2, false).is_ok(), "C14.data");
    d
}
/// left example sets of every split the data set offers
fn candidates(ds: &Dataset, n: usize) -> Vec<Vec<bool>> {
    let mut v = Vec::new();
    for &f in ds.active_features() {
        for s in 0..ds.get_nbins(f) {
            let bv = ds.get_bitvec(f, s);
            let mut l = vec![false; n];
            ds.active_examples_iter(|i, j| l[j] = bv.get_bit(i));
            v.push(l);
        }
    }
    v
}
/// (number, sum of gradients) of the members that are (not) in the set
fn part(m: &[bool], l: Option<(&[bool], bool)>, g: &[f32]) -> (u32, f64) {
    let (mut c, mut s) = (0u32, 0f64);
    for i in 0..m.len() {
        let take = m[i] & l.map_or(true, |(l, side)| l[i] == side);
        c += take as u32;
        s += if take { g[i] as f64 } else { 0.0 };
    }
    (c, s)
}
fn gain(p: (u32, f64), l: (u32, f64), r: (u32, f64), lambda: f64) -> f64 {
    let loss = |(c, s): (u32, f64)| 0.5 * (s * s) / (c as f64 + lambda);
    loss(l) + loss(r) - loss(p)
}
fn best(t: &Tree, ds: &Dataset, m: &Mock, cfg: &Config, tol: f64) {
    let n = m.preds.len();
    let cands = candidates(ds, n);
    let sh = shape(t, m);
    let lam = cfg.reg_lambda as f64;
    let min = cfg.min_examples_leaf;
    let mg = cfg.min_gain as f64;
    let mut whole = vec![false; n];
    ds.active_examples_iter(|_, j| whole[j] = true);
    let mut ok = sh.members[0].is_some();
    let mut nodes = 0;
    for id in 0..sh.members.len() {
        let mem = match &sh.members[id] { Some(x) => x, None => continue };
        nodes += 1;
        if id == 0 { for i in 0..n { ok &= mem[i] == whole[i]; } }
        let p = part(mem, None, &m.grads);
        ok &= id == 0 || p.0 >= min;
        check(ok, "C14.size");
        if t.is_max_leaf_node(id) { check(sh.leaf[id], "C14.depth"); continue; }
        let chosen = if sh.leaf[id] { None } else { sh.members[t.left_child(id)].as_ref() };
        let mut bound = mg; // no admissible split may gain more than this
        if let Some(l) = chosen {
            let (a, b) = (part(mem, Some((l, true)), &m.grads), part(mem, Some((l, false)), &m.grads));
            check((a.0 >= min) & (b.0 >= min) & (a.0 > 0) & (b.0 > 0), "C14.min_examples");
            bound = gain(p, a, b, lam);
            check(bound > mg - tol, "C14.min_gain");
        }
        let mut offered = false;
        let mut most = true;
        for c in &cands {
            let (a, b) = (part(mem, Some((c, true)), &m.grads), part(mem, Some((c, false)), &m.grads));
            let admissible = (a.0 >= min) & (b.0 >= min) & (a.0 > 0) & (b.0 > 0);
            most &= !admissible | (gain(p, a, b, lam) <= bound + tol);
            if let Some(l) = chosen {
                let mut same = true;
                for i in 0..n { same &= !mem[i] | (l[i] == c[i]); }
                offered |= same;
            }
        }
        check(most, "C14.best");
        if chosen.is_some() { check(offered, "C14.offered"); }
    }
    check(nodes == t.nnodes(), "C14.nodes");
}
fn run(cfg: &Config, d: &Data, g: Vec<f32>, lim: (f32, f32), update: &[f32], tol: f64) -> usize {
    let mut ds = Dataset::new(cfg, d);
    ds.update(cfg, update, (-4.0, 4.0));
    let mut m = Mock::new(g, lim);
    let t = train(cfg, d, &mut ds, &mut m);
    best(&t, &ds, &m, cfg, tol);
    t.nleafs()
}
/// arbitrary gradients at every width
#[no_mangle] #[inline(never)]
pub extern "C" fn h_best() {
    lut_bits(14); merge_level(0);
    let c = case(15) as usize;
    let w = c % 5;
    let cfg = config([2, 3, 1][c / 5], w);
    let n = if w == 4 { 5 } else { 6 };
    let d = table(&cfg, n, [7, 1, 6][c / 5]);
    let g: Vec<f32> = (0..n).map(|_| grad(w)).collect();
    let k = run(&cfg, &d, g, W[w].1, &[1.0, -2.0, 0.5, 3.0, -1.0, 0.25][..n], 1e-5 * (W[w].1 .1 as f64) * (W[w].1 .1 as f64) + 1e-6);
    if k >= 2 { cover("best"); }
}
/// minimum leaf sizes, regularisation, gain thresholds
#[no_mangle] #[inline(never)]
pub extern "C" fn h_limits() {
    lut_bits(14); merge_level(0);
    let c = case(20) as usize;
    let w = if c % 5 == 0 { 4 } else { 1 };
    let mut cfg = config(3, w);
    cfg.min_examples_leaf = [0, 1, 2, 3, 4][c % 5];
    cfg.reg_lambda = [0.0, 1.0, 0.0, 2.5][c / 5];
    cfg.min_gain = [1e-6, 1e-6, 0.5, 0.0][c / 5];
    let n = if w == 4 { 5 } else { 6 };
    let d = table(&cfg, n, [7, 3, 5, 6][c / 5]);
    let g: Vec<f32> = (0..n).map(|_| grad(w)).collect();
    let k = run(&cfg, &d, g, W[w].1, &[1.0, -2.0, 0.5, 3.0, -1.0, 0.25][..n], 1e-4);
    if k >= 2 { cover("limits"); }
}
/// more than eight words of examples: histograms of compressed nodes; bagging
#[no_mangle] #[inline(never)]
pub extern "C" fn h_compr() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(12) as usize;
    let w = c % 4;
    let n = [300, 320, 340][c / 4];
    let mut cfg = config([3, 2, 3][c / 4], w);
    cfg.compression_threshold = [0.5, 0.2, 0.0][c / 4];
    cfg.min_examples_leaf = [1, 40, 60][c / 4];
    if c / 4 == 2 { cfg.example_fraction = 0.9; }
    let mut d = Data::empty(&cfg, 2, n);
    let c0: Vec<f32> = (0..n).map(|i| (i / 64 % 3) as f32).collect();
    let c1: Vec<f32> = (0..n).map(|i| (i / 32) as f32).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C14.data");
    check(d.set_feature_data(1, &c1, false).is_ok(), "C14.data");
    let lv: Vec<f32> = (0..11).map(|k| if k < 5 { let (a, b) = (grid(w, 0), grid(w, 3)); if flag() { a } else { b } } else { grid(w, 3 * (k as u64 & 1)) }).collect();
    let g: Vec<f32> = (0..n).map(|i| lv[i / 32]).collect();
    let flat = vec![1.0; n];
    let k = run(&cfg, &d, g, W[w].1, &flat, 1e-6 * 300.0 * (W[w].1 .1 as f64) * (W[w].1 .1 as f64));
    if k >= 3 { cover("compr"); }
}
/// bags and feature samples
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bag() {
    lut_bits(14); merge_level(0);
    rand::set_mode(0);
    let c = case(6) as usize;
    let w = c % 2 + 1;
    let mut cfg = config(2, w);
    cfg.example_fraction = [0.6, 0.75, 1.0][c / 2];
    cfg.feature_fraction = [1.0, 0.67, 0.67][c / 2];
    let n = [5, 4, 5][c / 2];
    let d = table(&cfg, n, 7);
    let g: Vec<f32> = (0..n).map(|i| grid(w, [3, 0, 2, 3, 1][i])).collect();
    let k = run(&cfg, &d, g, W[w].1, &[1.0, -2.0, 0.5, 3.0, -1.0][..n], 1e-3);
    if k >= 2 { cover("bag"); }
}
entries!(h_compr, h_bag, h_best, h_limits);
