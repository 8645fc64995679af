//! C21: a boosted model predicts on its training data what training recorded.
use bitboost::boost::Booster;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::{metric_for_objective, Metric};
use bitboost::objective::{objective_from_name, Objective};
use harness::*;

const NAMES: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];
/// forwards to a real objective and records what it is asked
struct Spy { o: Box<dyn Objective>, inits: u32, rounds: u32, touched: Vec<u32>, once: bool, grads: bool }
impl Spy {
    fn new(name: &str, n: usize) -> Spy {
        Spy { o: match objective_from_name(name) { Some(o) => o, None => { check(false, "C21.name"); unreachable!() } }, inits: 0, rounds: 0, touched: vec![0; n], once: true, grads: false }
    }
    /// in each finished round every example got exactly one leaf value
    fn close(&mut self) { for t in self.touched.iter() { self.once &= *t == self.rounds; } }
}
impl Objective for Spy {
    fn name(&self) -> &'static str { self.o.name() }
    fn gradients(&self) -> &[f32] { self.o.gradients() }
    fn predictions(&self) -> &[f32] { self.o.predictions() }
    fn bounds(&self) -> (f32, f32) { self.o.bounds() }
    fn bias(&self) -> f32 { self.o.bias() }
    fn initialize(&mut self, c: &Config, t: &[f32]) { self.inits += 1; self.o.initialize(c, t) }
    fn update(&mut self, t: &[f32]) { self.close(); self.rounds += 1; if self.rounds == 2 { rand::set_mode(2); } self.o.update(t); }
    fn predict_leaf_value(&mut self, t: &[f32], ex: &[usize]) -> f32 {
        for &i in ex { self.touched[i] += 1; }
        let v = self.o.predict_leaf_value(t, ex);
        if v != 0.0 { self.grads = true; }
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, v: f32) { self.touched[i] += 1; self.o.update_out_of_bag_prediction(i, v) }
}
fn config(kind: usize) -> Config {
    let mut c = Config::new();
    c.discr_nbits = if kind == 4 { 2 } else { 4 };
    c.huber_alpha = 0.8;
    c.max_nbins = 4;
    c
}
/// arbitrary target number k
fn target(kind: usize, k: usize) -> f32 {
    match kind { 0 => if k < 4 { bits(2) as f32 * 1.5 - 1.0 } else { 1.25 }, 1 | 2 => if k < 2 { bits(2) as f32 * 1.5 - 1.0 } else if k == 2 { [2.0, -0.25][bits(1) as usize] } else { k as f32 * 0.75 }, _ => bits(1) as f32 }
}
fn table(cfg: &Config, n: usize, which: usize, t: &[f32]) -> Data {
    let mut d = Data::empty(cfg, 3, n);
    let c0: Vec<f32> = (0..n).map(|i| (i * 7 % 3) as f32).collect();
    let c1: Vec<f32> = (0..n).map(|i| (i * 5 % 6) as f32).collect();
    let c2: Vec<f32> = (0..n).map(|i| (i * 3 % 7) as f32 - 2.0).collect();
    let zero = vec![0.0; n];
    check(d.set_feature_data(0, if which & 1 == 1 { &c0 } else { &zero }, true).is_ok(), "C21.data");
    check(d.set_feature_data(1, if which & 2 == 2 { &c1 } else { &zero }, true).is_ok(), "C21.data");
    check(d.set_feature_data(2, if which & 4 == 4 { &c2 } else { &zero }, false).is_ok(), "C21.data");
    check(d.set_feature_data(3, t, false).is_ok(), "C21.data");
    d
}
fn verify(cfg: &Config, d: &Data, name: &str, scale: f64, metrics: bool) -> bool {
    let mut o = Spy::new(name, d.nexamples());
    let ms: Vec<Box<dyn Metric>> = if metrics { metric_for_objective(name).into_iter().collect() } else { vec![] };
    let model = Booster::new(cfg, d, &mut o, &ms).train();
    o.close();
    check(o.inits == 1 && o.rounds as usize == cfg.niterations, "C21.rounds");
    check(o.once, "C21.once");
    let p = model.predict(d);
    check(p.len() == d.nexamples(), "C21.len");
    let mut ok = true;
    for i in 0..p.len() {
        let e = (p[i] - o.predictions()[i]) as f64;
        ok &= (e <= scale * 1e-5) & (e >= -scale * 1e-5);
    }
    check(ok, "C21.predictions");
    let mut q = vec![7.5; p.len()];
    model.predict_buf(d, &mut q);
    let mut ok = true;
    for i in 0..p.len() { ok &= p[i].to_bits() == q[i].to_bits(); }
    check(ok, "C21.buffer");
    o.grads
}
/// every objective, several rounds, arbitrary targets
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rounds() {
    lut_bits(12); merge_level(0);
    let c = case(5 * 6) as usize;
    let kind = c % 5;
    let mut cfg = config(kind);
    let s = c / 5;
    cfg.niterations = [2, 3, 1, 2, 3, 0][s];
    cfg.max_tree_depth = [2, 1, 3, 2, 2, 2][s];
    cfg.learning_rate = [0.5, 1.0, 0.3, 0.5, 0.1, 0.5][s];
    cfg.metric_frequency = s % 2;
    let n = [5, 5, 6, 5, 4, 5][s];
    let t: Vec<f32> = (0..n).map(|i| target(kind, i)).collect();
    let d = table(&cfg, n, [7, 1, 4, 2, 7, 7][s], &t);
    if verify(&cfg, &d, NAMES[kind], 10.0, s % 3 == 0) { cover(NAMES[kind]); }
}
/// bagging and feature sampling: every sequence of draws, fixed targets; or arbitrary targets, fixed draws
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bag() {
    lut_bits(12); merge_level(0);
    let c = case(5 * 8) as usize;
    let kind = c % 5;
    let s = c / 5;
    let mut cfg = config(kind);
    cfg.niterations = 2;
    cfg.max_tree_depth = 2;
    cfg.learning_rate = 0.5;
    cfg.sample_freq = [1, 1, 2, 0, 1, 2, 0, 1][s];
    cfg.example_fraction = [0.5, 0.7, 0.5, 0.6, 0.5, 0.4, 0.8, 1.0][s];
    cfg.feature_fraction = [1.0, 1.0, 0.67, 1.0, 0.67, 0.34, 1.0, 0.34][s];
    let n = [4, 5, 4, 5, 4, 5, 5, 4][s];
    let draws = s < 4 || s == 7;
    rand::set_mode(if draws { 0 } else { 2 });
    let t: Vec<f32> = (0..n).map(|i| if draws { if kind >= 3 { (i % 2) as f32 } else { [0.5, -1.0, 3.0, 2.0, -1.0][i] } } else { target(kind, i) }).collect();
    let d = table(&cfg, n, 7, &t);
    if verify(&cfg, &d, NAMES[kind], 10.0, false) { cover(NAMES[kind]); }
}
/// more than eight words of examples, compressed nodes, bags
#[no_mangle] #[inline(never)]
pub extern "C" fn h_large() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(5 * 3) as usize;
    let kind = c % 5;
    let s = c / 5;
    let mut cfg = config(kind);
    cfg.niterations = 2;
    cfg.max_tree_depth = [3, 2, 3][s];
    cfg.learning_rate = 0.5;
    cfg.compression_threshold = [0.5, 0.0, 0.2][s];
    cfg.example_fraction = [1.0, 0.6, 0.8][s];
    cfg.min_examples_leaf = [1, 1, 40][s];
    let n = [300, 290, 320][s];
    let words = (n + 31) / 32;
    let mut d = Data::empty(&cfg, 2, n);
    let c0: Vec<f32> = (0..n).map(|i| (i / 64 % 3) as f32).collect();
    let c1: Vec<f32> = (0..n).map(|i| (i / 32) as f32).collect();
    check(d.set_feature_data(0, &c0, true).is_ok(), "C21.data");
    check(d.set_feature_data(1, &c1, false).is_ok(), "C21.data");
    let lv: Vec<f32> = (0..words).map(|k| if k < 3 || k == 3 && kind != 0 { target(kind, k) } else if kind >= 3 { (k % 2) as f32 } else { k as f32 * 0.5 - 1.0 }).collect();
    let t: Vec<f32> = (0..n).map(|i| lv[i / 32]).collect();
    check(d.set_feature_data(2, &t, false).is_ok(), "C21.data");
    if verify(&cfg, &d, NAMES[kind], 20.0, false) { cover(NAMES[kind]); }
}
/// features without any information: constant categories (no bins at all), constant numbers
#[no_mangle] #[inline(never)]
pub extern "C" fn h_flat() {
    lut_bits(12); merge_level(0);
    let c = case(5 * 4) as usize;
    let kind = c % 5;
    let s = c / 5;
    let mut cfg = config(kind);
    cfg.niterations = 2;
    cfg.max_tree_depth = [2, 1, 2, 3][s];
    cfg.learning_rate = 0.5;
    cfg.sample_freq = [0, 1, 1, 0][s];
    cfg.example_fraction = [1.0, 1.0, 0.6, 1.0][s];
    rand::set_mode(2);
    let n = 5;
    let t: Vec<f32> = (0..n).map(|i| target(kind, i)).collect();
    let mut d = Data::empty(&cfg, 2, n);
    let v = [0.0, 3.0, 0.0, 2.0][s];
    check(d.set_feature_data(0, &vec![0.0; n], true).is_ok(), "C21.data");
    check(d.set_feature_data(1, &vec![v; n], s < 2).is_ok(), "C21.data");
    check(d.set_feature_data(2, &t, false).is_ok(), "C21.data");
    verify(&cfg, &d, NAMES[kind], 10.0, false);
    cover(NAMES[kind]);
}
entries!(h_rounds, h_bag, h_large, h_flat);
