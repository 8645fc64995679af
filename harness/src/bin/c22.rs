//! C22: data, configuration and seed determine the model.
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::metric::{metrics_from_names, Metric};
use bitboost::objective::{objective_from_name, Objective};
use bitboost::tree::AdditiveTree;
use harness::*;

const NAMES: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];
fn objective(kind: usize) -> Box<dyn Objective> { match objective_from_name(NAMES[kind]) { Some(o) => o, None => { check(false, "C22.name"); unreachable!() } } }
fn config(kind: usize) -> Config {
    let mut c = Config::new();
    c.discr_nbits = if kind == 4 { 2 } else { 4 };
    c.max_nbins = 4;
    c.learning_rate = 0.5;
    c.max_tree_depth = 2;
    c
}
fn target(kind: usize, k: usize) -> f32 { if kind >= 3 { bits(1) as f32 } else if k < 3 { bits(2) as f32 * 1.5 - 1.0 } else { k as f32 * 0.75 } }
fn columns(n: usize) -> [(Vec<f32>, bool); 3] {
    [((0..n).map(|i| (i * 7 % 3) as f32).collect(), true), ((0..n).map(|i| (i * 5 % 6) as f32).collect(), true), ((0..n).map(|i| (i * 3 % 7) as f32 - 2.0).collect(), false)]
}
fn table(cfg: &Config, n: usize, t: &[f32]) -> Data {
    let mut d = Data::empty(cfg, 3, n);
    for (f, (c, cat)) in columns(n).iter().enumerate() { check(d.set_feature_data(f, c, *cat).is_ok(), "C22.data"); }
    check(d.set_feature_data(3, t, false).is_ok(), "C22.data");
    d
}
/// values trained on and others
fn probe(cfg: &Config) -> Data {
    let n = 8;
    let mut d = Data::empty(cfg, 3, n);
    for (f, cat) in [true, true, false].iter().enumerate() {
        let c: Vec<f32> = (0..n).map(|i| if *cat { (i * (f + 1) % 7) as f32 } else { i as f32 - 3.0 }).collect();
        check(d.set_feature_data(f, &c, *cat).is_ok(), "C22.data");
    }
    d
}
fn train(cfg: &Config, d: &Data, o: &mut dyn Objective, metrics: &[&str]) -> AdditiveTree {
    let names: Vec<String> = metrics.iter().map(|x| x.to_string()).collect();
    let ms: Vec<Box<dyn Metric>> = match metrics_from_names(&names) { Some(m) => m, None => { check(false, "C22.metrics"); unreachable!() } };
    Booster::new(cfg, d, o, &ms).train()
}
fn equal(a: &[f32], b: &[f32]) -> bool { let mut ok = a.len() == b.len(); for i in 0..a.len() { ok &= a[i].to_bits() == b[i].to_bits(); } ok }
fn same(a: &AdditiveTree, b: &AdditiveTree, ds: &[&Data], id: &str) { for d in ds { check(equal(&a.predict(d), &b.predict(d)), id); } }
fn sampling(c: &mut Config, s: usize) {
    c.niterations = [2, 2, 1, 2][s];
    c.example_fraction = [0.5, 1.0, 0.5, 0.75][s];
    c.feature_fraction = [1.0, 0.34, 0.67, 1.0][s];
    c.sample_freq = [1, 1, 0, 2][s];
}
/// two runs with the same seed, whatever the generator makes of that seed, monitored or not
#[no_mangle] #[inline(never)]
pub extern "C" fn h_draws() {
    lut_bits(12); merge_level(0);
    rand::set_mode(4);
    let c = case(5 * 4) as usize;
    let kind = c % 5;
    let s = c / 5;
    let mut cfg = config(kind);
    sampling(&mut cfg, s);
    cfg.random_seed = [1, 0, 77, u64::max_value()][s];
    let n = 4;
    let t: Vec<f32> = (0..n).map(|i| if kind >= 3 { (i % 2) as f32 } else { [0.5, -1.0, 3.0, 2.0][i] }).collect();
    let d = table(&cfg, n, &t);
    let p = probe(&cfg);
    let a = train(&cfg, &d, objective(kind).as_mut(), &[]);
    let first = a.predict(&d);
    cfg.metric_frequency = 1 + s % 2;
    let b = train(&cfg, &d, objective(kind).as_mut(), &[&["l2", "rmse"][..], &["binary_loss", "binary_error"]][s % 2]);
    same(&a, &b, &[&d, &p], "C22.same");
    // predicting and training other models changes nothing about this one
    check(equal(&first, &a.predict(&d)), "C22.model");
    if unsafe { rand::NDRAWS } > 0 { cover("draws"); }
    cover(NAMES[kind]);
}
/// arbitrary targets; a fresh objective against one that trained before on other data
#[no_mangle] #[inline(never)]
pub extern "C" fn h_targets() {
    lut_bits(12); merge_level(0);
    rand::set_mode(2);
    let c = case(5 * 3) as usize;
    let kind = c % 5;
    let s = c / 5;
    let mut cfg = config(kind);
    cfg.niterations = 2;
    cfg.example_fraction = [1.0, 0.6, 1.0][s];
    cfg.learning_rate = [0.5, 1.0, 0.1][s];
    let n = 5;
    let t: Vec<f32> = (0..n).map(|i| target(kind, i)).collect();
    let d = table(&cfg, n, &t);
    let p = probe(&cfg);
    let mut o = objective(kind);
    let a = train(&cfg, &d, o.as_mut(), &[]);
    let k = [5, 3, 7][s];
    let other: Vec<f32> = (0..k).map(|i| if kind >= 3 { (i / 2 % 2) as f32 } else { i as f32 * 0.25 }).collect();
    train(&cfg, &table(&cfg, k, &other), o.as_mut(), &[]);
    let b = train(&cfg, &d, o.as_mut(), &["rmse"]);
    same(&a, &b, &[&d, &p], "C22.again");
    cover(NAMES[kind]);
}
/// the generator is seeded with the configured seed
#[no_mangle] #[inline(never)]
pub extern "C" fn h_seed() {
    merge_level(0);
    rand::set_mode(5);
    let c = case(4) as usize;
    let mut cfg = config(0);
    cfg.example_fraction = [0.5, 1.0][c % 2];
    cfg.feature_fraction = [1.0, 0.34][c % 2];
    let n = 4;
    let d = table(&cfg, n, &[0.5, -1.0, 3.0, 2.0]);
    // the stand-in draws first choices for odd seeds and last ones for even seeds
    let mut sample = |seed: u64| {
        cfg.random_seed = seed;
        let mut ds = Dataset::new(&cfg, &d);
        ds.update(&cfg, &[1.0, -1.0, 0.5, 0.25], (-1.0, 1.0));
        let mut v: Vec<usize> = ds.active_features().to_vec();
        v.sort();
        v.push(99);
        ds.active_examples_iter(|_, j| v.push(j));
        v
    };
    let (x, y) = ([1, 3][c / 2], [2, 10][c / 2]);
    check(sample(x) != sample(y), "C22.seed");
    check(sample(x) == sample(x + 2), "C22.seed.same");
    cover("seed");
}
/// training twice on one handle of the C interface, and on another handle
#[no_mangle] #[inline(never)]
pub extern "C" fn h_handles() {
    lut_bits(12); merge_level(0);
    rand::set_mode(3);
    let s = case(4) as usize;
    let n = 4;
    let run = |k: usize| -> Vec<Vec<f32>> {
        let p = bb_alloc(3);
        check(!p.is_null(), "C22.alloc");
        let set = |a: &'static [u8], b: &'static [u8]| check(bb_set_config_field(p, a.as_ptr() as *const _, b.as_ptr() as *const _) == 0, "C22.option");
        set(b"niterations\0", b"1\0");
        set(b"max_tree_depth\0", b"2\0");
        set(b"max_nbins\0", b"4\0");
        set(b"example_fraction\0", [&b"0.5\0"[..], b"1.0\0", b"0.5\0", b"0.75\0"][s]);
        set(b"feature_fraction\0", [&b"1.0\0"[..], b"0.34\0", b"0.67\0", b"1.0\0"][s]);
        set(b"random_seed\0", [&b"5\0"[..], b"18446744073709551615\0", b"0\0", b"12\0"][s]);
        check(bb_refresh_data(p, n as i32) == 0, "C22.refresh");
        for (f, (c, cat)) in columns(n).iter().enumerate() { check(bb_set_feature_data(p, f as i32, c.as_ptr(), *cat as i32) == 0, "C22.feature"); }
        let t = [0.5f32, -1.0, 3.0, 2.0];
        check(bb_set_feature_data(p, 3, t.as_ptr(), 0) == 0, "C22.feature");
        let mut r = Vec::new();
        for _ in 0..k {
            check(bb_train(p) == 0, "C22.train");
            let mut out = vec![0.0f32; n];
            check(bb_predict(p, out.as_mut_ptr()) == 0, "C22.predict");
            r.push(out);
        }
        check(bb_dealloc(p) == 0, "C22.free");
        r
    };
    let a = run(2);
    let b = run(1);
    check(equal(&a[0], &a[1]) && equal(&a[0], &b[0]), "C22.handles");
    cover("handles");
}
entries!(h_draws, h_targets, h_seed, h_handles);
