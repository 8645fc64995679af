//! C20: the learned tree does not depend on the parallel schedule or the storage form.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::tree::{Tree, TreeLearnerContext};
use harness::mock::*;
use harness::*;

const W: [(usize, (f32, f32)); 4] = [(1, (-0.5, 0.5)), (2, (-1.0, 1.0)), (4, (-1.0, 2.0)), (8, (-3.0, 3.0))];
fn config(depth: usize, w: usize) -> Config {
    let mut c = Config::new();
    c.max_tree_depth = depth;
    c.discr_nbits = W[w].0;
    c.max_nbins = 2;
    c
}
fn grad(w: usize) -> f32 {
    let (lo, hi) = W[w].1;
    [lo, lo + (hi - lo) * 0.4, hi, lo + (hi - lo) * 0.7][bits(2) as usize]
}
fn table(cfg: &Config, n: usize, cols: &[(bool, &[f32])]) -> Data {
    let mut d = Data::empty(cfg, cols.len(), n);
    for (f, (cat, c)) in cols.iter().enumerate() { check(d.set_feature_data(f, &c[..n], *cat).is_ok(), "C20.data"); }
    d
}
const A: &[f32] = &[0.0, 1.0, 1.0, 0.0, 1.0, 0.0];
const B: &[f32] = &[0.0, 1.0, 2.0, 3.0, 1.0, 2.0];
const C3: &[f32] = &[0.0, 1.0, 2.0, 0.0, 1.0, 2.0];
const C4: &[f32] = &[0.0, 1.0, 2.0, 3.0, 2.0, 3.0];
const N: &[f32] = &[0.5, -1.0, 2.0, 0.0, 1.0, -0.5];
/// two recordings of a training run that must agree in everything
fn same(a: (&Tree, &Mock), b: (&Tree, &Mock), probe: &Data, id: &str) {
    let mut ok = a.1.lists == b.1.lists && a.1.oob.len() == b.1.oob.len() && a.0.nnodes() == b.0.nnodes();
    for i in 0..a.1.preds.len() { ok &= a.1.preds[i] == b.1.preds[i]; }
    for i in 0..a.0.max_nnodes() { ok &= a.0.node_value(i) == b.0.node_value(i); }
    for i in 0..probe.nexamples() { ok &= a.0.predict_single(probe, i) == b.0.predict_single(probe, i); }
    check(ok, id);
}
/// values between and outside the ones trained on
fn probe(cfg: &Config, kinds: &[(bool, &[f32])]) -> Data {
    let n = 9;
    let mut d = Data::empty(cfg, kinds.len(), n);
    for (f, (cat, _)) in kinds.iter().enumerate() {
        let col: Vec<f32> = (0..n).map(|i| if *cat { ((i * (f + 1)) % 5) as f32 } else { i as f32 * 0.4375 - 1.25 }).collect();
        check(d.set_feature_data(f, &col, false).is_ok(), "C20.data");
    }
    d
}
fn compare(cfg: &Config, n: usize, cols: &[(bool, &[f32])], g: Vec<f32>, w: usize, mode: u32) -> usize {
    let d = table(cfg, n, cols);
    let p = probe(cfg, cols);
    let mut ds = Dataset::new(cfg, &d);
    ds.update(cfg, &[1.0, -2.0, 0.5, 3.0, -1.0, 0.25][..n], (-4.0, 4.0));
    rayon::set_mode(0);
    let mut m = Mock::new(g.clone(), W[w].1);
    let t = train(cfg, &d, &mut ds, &mut m);
    rayon::set_mode(mode);
    let mut m2 = Mock::new(g, W[w].1);
    let t2 = train(cfg, &d, &mut ds, &mut m2);
    rayon::set_mode(0);
    same((&t, &m), (&t2, &m2), &p, "C20.order");
    t.nleafs()
}
/// every order of the workers, arbitrary gradients
#[no_mangle] #[inline(never)]
pub extern "C" fn h_order() {
    lut_bits(12); merge_level(0);
    let c = case(10) as usize;
    let w = [0, 1, 2, 3, 1][c / 2];
    let (n, depth) = if c % 2 == 0 { (5, 1) } else { (4, 2) };
    let cfg = config(depth, w);
    let cols: &[(bool, &[f32])] = [&[(true, A), (false, N)][..], &[(true, B), (true, A)], &[(true, A), (false, N)], &[(true, A), (true, B)], &[(false, N), (true, A)]][c / 2];
    let g: Vec<f32> = if c % 2 == 0 { (0..n).map(|_| grad(w)).collect() } else { let g = grad(w); (0..n).map(|i| if i == 2 { g } else { [W[w].1 .0, W[w].1 .1, 0.0, 0.2][i] }).collect() };
    let k = compare(&cfg, n, cols, g, w, 1);
    if k >= 2 { cover("order"); }
}
/// several splits of one feature: they must not see each other's state, whatever finishes first
#[no_mangle] #[inline(never)]
pub extern "C" fn h_splits() {
    lut_bits(12); merge_level(0);
    let c = case(12) as usize;
    let w = c % 4;
    let mut cfg = config(1, w);
    cfg.max_nbins = 4;
    let n = 6;
    let (k, cols): (usize, &[(bool, &[f32])]) = [
        (6, &[(true, C3)][..]), // three categories of two examples: three jobs
        (4, &[(true, C4)]),     // four categories of 1, 1, 2, 2 examples: four jobs
        (5, &[(false, N)]),     // nested splits
    ][c / 4];
    let g: Vec<f32> = (0..n).map(|i| if i < k { grad(w) } else { W[w].1 .0 }).collect();
    let k = compare(&cfg, n, cols, g, w, 1);
    if k >= 2 { cover("splits"); }
}
/// workers compute in one order and their results arrive in another
#[no_mangle] #[inline(never)]
pub extern "C" fn h_arrival() {
    lut_bits(12); merge_level(0);
    let c = case(8) as usize;
    let w = c % 4;
    let cfg = config(1, w);
    let n = 5;
    let cols: &[(bool, &[f32])] = [&[(true, A), (false, N)][..], &[(true, B), (true, A)]][c / 4];
    let g: Vec<f32> = (0..n).map(|i| if i < 2 { grad(w) } else { [W[w].1 .0, W[w].1 .1, 0.1, -0.2, 0.0][i] }).collect();
    let k = compare(&cfg, n, cols, g, w, 2);
    if k >= 2 { cover("arrival"); }
}
/// with and without compression of the example sets
#[no_mangle] #[inline(never)]
pub extern "C" fn h_storage() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(16) as usize;
    let w = c % 4;
    let (n, depth) = [(300, 3), (330, 2), (340, 4), (512, 3)][c / 4];
    let mut cfg = config(depth, w);
    cfg.max_nbins = 8;
    if c / 4 == 2 { cfg.example_fraction = 0.9; }
    cfg.compression_threshold = [0.5, 0.3, 0.0, 0.6][c / 4];
    let mut plain = config(depth, w);
    plain.max_nbins = 8;
    plain.example_fraction = cfg.example_fraction;
    plain.compression_threshold = 2.0;
    let c0: Vec<f32> = (0..n).map(|i| (i / 64 % 3) as f32).collect();
    let c1: Vec<f32> = (0..n).map(|i| (i / 32) as f32).collect();
    let c2: Vec<f32> = (0..n).map(|i| ((i * 37) % 90) as f32).collect();
    let cols: &[(bool, &[f32])] = &[(true, &c0), (false, &c1), (false, &c2)];
    let d = table(&cfg, n, cols);
    let p = probe(&cfg, cols);
    let (lo, hi) = W[w].1;
    let lv: Vec<f32> = (0..16).map(|k| if k < 6 { if flag() { lo } else { hi } } else if k & 1 == 0 { hi } else { lo + 0.25 * (hi - lo) }).collect();
    let g: Vec<f32> = (0..n).map(|i| lv[i / 32]).collect();
    let mut ds = Dataset::new(&cfg, &d);
    ds.update(&cfg, &vec![1.0; n], W[w].1);
    let mut m = Mock::new(g.clone(), W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    let mut m2 = Mock::new(g, W[w].1);
    let t2 = train(&plain, &d, &mut ds, &mut m2);
    same((&t, &m), (&t2, &m2), &p, "C20.storage");
    if t.nleafs() >= 3 { cover("storage"); }
}
/// compressed nodes with splits that separate one, two or three examples of arbitrary gradients
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rare() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(8) as usize;
    let w = c % 4;
    let n = [320usize, 512][c / 4];
    let mut cfg = config([2, 3][c / 4], w);
    cfg.max_nbins = 8;
    cfg.compression_threshold = 0.3;
    let mut plain = config([2, 3][c / 4], w);
    plain.max_nbins = 8;
    plain.compression_threshold = 2.0;
    let rare = |i: usize| match i { 5 => 1.0, 64 => 2.0, 100 => 3.0, 131 => 3.0, 192 => 4.0, 193 => 4.0, 223 => 4.0, _ => (i % 2) as f32 * 5.0 };
    let c0: Vec<f32> = (0..n).map(|i| (i / 32 % 2) as f32).collect();
    let c1: Vec<f32> = (0..n).map(rare).collect();
    let c2: Vec<f32> = (0..n).map(|i| (i / 100) as f32).collect();
    let cols: &[(bool, &[f32])] = &[(true, &c0), (true, &c1), (false, &c2)];
    let d = table(&cfg, n, cols);
    let p = probe(&cfg, cols);
    let (lo, hi) = W[w].1;
    let (g1, g2, g3, g4) = (grad(w), grad(w), grad(w), grad(w));
    let g: Vec<f32> = (0..n).map(|i| match i { 5 => g1, 64 => g2, 100 | 131 => g3, 192 | 223 => g4, _ => if i / 32 % 2 == 0 { hi } else { lo } }).collect();
    let mut ds = Dataset::new(&cfg, &d);
    ds.update(&cfg, &vec![1.0; n], W[w].1);
    let mut m = Mock::new(g.clone(), W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    let mut m2 = Mock::new(g, W[w].1);
    let t2 = train(&plain, &d, &mut ds, &mut m2);
    same((&t, &m), (&t2, &m2), &p, "C20.rare");
    if t.nleafs() >= 3 { cover("rare"); }
}
/// a context that trained other trees before
#[no_mangle] #[inline(never)]
pub extern "C" fn h_context() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(8) as usize;
    let w = c % 4;
    let cfg = config(3, w);
    let n = 6;
    let cols: &[(bool, &[f32])] = &[(true, A), (true, B), (false, N)];
    let d = table(&cfg, n, cols);
    let p = probe(&cfg, cols);
    let mut ds = Dataset::new(&cfg, &d);
    ds.update(&cfg, &[1.0, -2.0, 0.5, 3.0, -1.0, 0.25], (-4.0, 4.0));
    let g: Vec<f32> = (0..n).map(|i| if i < 4 { grad(w) } else { W[w].1 .1 }).collect();
    let mut m = Mock::new(g.clone(), W[w].1);
    let t = train(&cfg, &d, &mut ds, &mut m);
    let mut ctx = TreeLearnerContext::new(&cfg, &d);
    for k in 0..=c / 4 {
        let other: Vec<f32> = (0..n).map(|i| if (i + k) % 3 == 0 { W[w].1 .0 } else { W[w].1 .1 }).collect();
        let mut m = Mock::new(other, W[w].1);
        train_in(&mut ctx, &mut ds, &mut m);
    }
    let mut m2 = Mock::new(g, W[w].1);
    let t2 = train_in(&mut ctx, &mut ds, &mut m2);
    same((&t, &m), (&t2, &m2), &p, "C20.context");
    if t.nleafs() >= 3 { cover("context"); }
}
entries!(h_order, h_splits, h_arrival, h_storage, h_rare, h_context);
