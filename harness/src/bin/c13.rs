//! C13: training assigns to each leaf exactly the examples prediction sends there.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use harness::mock::*;
use harness::*;

/// (bits, bounds): gradients on the grid are represented exactly
const W: [(usize, (f32, f32)); 4] = [(1, (-0.5, 0.5)), (2, (-1.5, 1.5)), (4, (-7.5, 7.5)), (8, (-127.5, 127.5))];
fn config(depth: usize, w: usize) -> Config {
    let mut c = Config::new();
    c.max_tree_depth = depth;
    c.discr_nbits = W[w].0;
    c.max_nbins = 4;
    c
}
fn grid(w: usize, code: u64) -> f32 { W[w].1 .0 + ((1u64 << W[w].0) - 1) as f32 * code as f32 / 3.0 }
fn grad(w: usize) -> f32 { if w == 0 { bits(1) as f32 - 0.5 } else { [grid(w, 0), grid(w, 1), grid(w, 2), grid(w, 3)][bits(2) as usize] } }
/// a table of n examples: low-cardinality category, high-cardinality category, number
fn table(cfg: &Config, n: usize, which: u32) -> Data {
    let mut d = Data::empty(cfg, 3, n);
    let c0: Vec<f32> = (0..n).map(|i| if which & 1 == 1 { (i * 7 % 3) as f32 } else { 0.0 }).collect();
    let c1: Vec<f32> = (0..n).map(|i| if which & 2 == 2 { (i * 5 % 6) as f32 } else { 0.0 }).collect();
    let c2: Vec<f32> = (0..n).map(|i| if which & 4 == 4 { (i * 3 % 7) as f32 - 2.0 } else { 0.0 }).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C13.data");
    check(d.set_feature_data(1, &c1, true).is_ok(), "C13.data");
    check(d.set_feature_data(2, &c2, false).is_ok(), "C13.data");
    d
}
/// arbitrary gradients, fixed features of every kind
#[no_mangle] #[inline(never)]
pub extern "C" fn h_grads() {
    lut_bits(14); merge_level(0);
    let c = case(16) as usize;
    let (w, which, depth) = (c % 4, [7, 1, 2, 4][c / 4], [2, 3, 2, 2][c / 4]);
    let cfg = config(depth, w);
    let n = 6;
    let d = table(&cfg, n, which);
    let g: Vec<f32> = (0..n).map(|_| grad(w)).collect();
    let mut ds = Dataset::new(&cfg, &d);
    ds.update(&cfg, &[1.0, -2.0, 0.5, 3.0, -1.0, 0.25], (-4.0, 4.0));
    let mut m = Mock::new(g, W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.routed");
    if t.nleafs() > 2 { cover("grads"); }
}
/// arbitrary values of one feature (or two), gradients fixed
#[no_mangle] #[inline(never)]
pub extern "C" fn h_values() {
    lut_bits(14); merge_level(0);
    let c = case(10) as usize;
    let mut cfg = config([2, 3][c / 5], 2);
    cfg.max_nbins = 3;
    let g = [-7.5, 4.5, -1.5, 7.5, 0.5];
    let n = 5;
    let mut d = Data::empty(&cfg, 2, n);
    let other = [0.0, 1.0, 1.0, 0.0, 2.0];
    let mut col = vec![0.0f32; n];
    let kind = c % 5;
    match kind {
        0 => for i in 1..n { col[i] = range(3) as f32; },           // low cardinality
        1 => { col[0] = 4.0; for i in 1..n { col[i] = range(5) as f32; } } // high cardinality
        2 => { col[0] = -1.0; col[1] = 2.5; for i in 2..n { col[i] = bits(3) as f32 * 0.5 - 1.0; } }
        3 => { col[0] = 0.0; col[1] = 1.0; for i in 2..n { col[i] = bits(4) as f32 / 15.0; } }
        _ => { col[0] = 2.0; for i in 1..n { col[i] = range(3) as f32; } }
    }
    if kind == 0 { col[0] = 2.0; }
    check(d.set_feature_data(0, &col, kind < 2).is_ok(), "C13.data");
    check(d.set_feature_data(1, &other, kind != 4).is_ok(), "C13.data");
    let mut ds = Dataset::new(&cfg, &d);
    ds.update(&cfg, &g, (-7.5, 7.5));
    let mut m = Mock::new(g.to_vec(), W[2].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.routed");
    if t.nleafs() > 2 { cover("values"); }
}
/// arbitrary bags and feature samples, several rounds in the same context
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bag() {
    lut_bits(14); merge_level(0);
    rand::set_mode(0);
    let c = case(8) as usize;
    let mut cfg = config(2, c % 2 + 1);
    cfg.example_fraction = [0.5, 0.7, 0.34, 1.0][c / 2];
    cfg.feature_fraction = [1.0, 0.67, 1.0, 0.67][c / 2];
    let n = [4, 4, 6, 5][c / 2];
    let d = table(&cfg, n, 7);
    let g: Vec<f32> = (0..n).map(|i| grid(c % 2 + 1, [3, 0, 2, 3, 1, 0][i])).collect();
    let mut ds = Dataset::new(&cfg, &d);
    let mut ctx = bitboost::tree::TreeLearnerContext::new(&cfg, &d);
    ds.update(&cfg, &g, W[c % 2 + 1].1);
    let mut m = Mock::new(g.clone(), W[c % 2 + 1].1);
    let t = train_in(&mut ctx, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.bag.routed");
    rand::set_mode(2);
    let g2: Vec<f32> = g.iter().map(|x| -x).collect();
    ds.update(&cfg, &g2, W[c % 2 + 1].1);
    let mut m = Mock::new(g2, W[c % 2 + 1].1);
    let t = train_in(&mut ctx, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.bag.routed2");
    if cfg.example_fraction == 1.0 || !m.oob.is_empty() { cover("bag"); }
}
/// more than eight words of examples: nodes are stored compressed; gradients arbitrary per word
#[no_mangle] #[inline(never)]
pub extern "C" fn h_compr() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(12) as usize;
    let w = c % 4;
    let n = [300, 320, 352][c / 4];
    let mut cfg = config([3, 2, 4][c / 4], w);
    cfg.compression_threshold = [0.5, 0.2, 0.0][c / 4];
    if c / 4 == 2 { cfg.example_fraction = 0.9; }
    let words = (n + 31) / 32;
    let mut d = Data::empty(&cfg, 2, n);
    let c0: Vec<f32> = (0..n).map(|i| (i / 64 % 3) as f32).collect();
    let c1: Vec<f32> = (0..n).map(|i| (i / 32) as f32).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C13.data");
    check(d.set_feature_data(1, &c1, false).is_ok(), "C13.data");
    let lv: Vec<f32> = (0..words).map(|k| if k < 8 { let (a, b) = (grid(w, 0), grid(w, 3)); if flag() { a } else { b } } else { grid(w, 3 * (k as u64 & 1)) }).collect();
    let g: Vec<f32> = (0..n).map(|i| lv[i / 32]).collect();
    let mut ds = Dataset::new(&cfg, &d);
    let flat = vec![1.0; n];
    ds.update(&cfg, &flat, W[w].1);
    let mut m = Mock::new(g, W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.compr.routed");
    if t.nleafs() > 3 { cover("compr"); }
}
/// nodes compressed twice: 32 words, of which 20, then 10 remain
#[no_mangle] #[inline(never)]
pub extern "C" fn h_twice() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(8) as usize;
    let w = c % 4;
    let n = 1020;
    let mut cfg = config([3, 4][c / 4], w);
    cfg.compression_threshold = [0.3, 0.1][c / 4];
    let mut d = Data::empty(&cfg, 3, n);
    let c0: Vec<f32> = (0..n).map(|i| if i / 32 % 5 < 3 { 0.0 } else { 1.0 }).collect();
    let c1: Vec<f32> = (0..n).map(|i| if i / 32 % 4 < 2 { 0.0 } else { 1.0 + (i / 32 % 3) as f32 }).collect();
    let c2: Vec<f32> = (0..n).map(|i| (i / 32 / 3) as f32).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C13.data");
    check(d.set_feature_data(1, &c1, true).is_ok(), "C13.data");
    check(d.set_feature_data(2, &c2, false).is_ok(), "C13.data");
    let (lo, hi) = (grid(w, 0), grid(w, 3));
    let lv: Vec<f32> = (0..32).map(|k| if [4, 9, 14, 26, 30, 31].contains(&k) { if flag() { lo } else { hi } } else if (k % 5 < 3) == (k % 4 < 2) { lo } else { hi }).collect();
    let g: Vec<f32> = (0..n).map(|i| lv[i / 32]).collect();
    let mut ds = Dataset::new(&cfg, &d);
    let flat = vec![1.0; n];
    ds.update(&cfg, &flat, W[w].1);
    let mut m = Mock::new(g, W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    routed(&t, &d, &ds, &m, "C13.twice.routed");
    if t.nleafs() > 3 { cover("twice"); }
}
entries!(h_grads, h_values, h_bag, h_compr, h_twice);
