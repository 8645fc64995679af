//! C11: bagging and feature sampling draw valid, duplicate-free subsets, for every sequence of draws.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use harness::*;

fn active(ds: &Dataset) -> (Vec<usize>, bool) {
    let mut v = Vec::new();
    let mut local = 0;
    let mut ok = true;
    ds.active_examples_iter(|i, j| { ok &= i == local; local += 1; v.push(j); });
    (v, ok)
}
/// the bag: right size, increasing (hence distinct), in range, consistent through every accessor
fn bag(ds: &Dataset, n: usize, k: usize) {
    check(ds.nactive_examples() == k, "C11.bag.size");
    let (act, mut ok) = active(ds);
    check(act.len() == k, "C11.bag.count");
    for (i, &j) in act.iter().enumerate() {
        ok &= j < n;
        if i > 0 { ok &= act[i - 1] < j; }
        if ds.example_sampling_enabled() { ok &= ds.map_index(i) == j; }
    }
    check(ok, "C11.bag");
    if ds.example_sampling_enabled() {
        // the out-of-bag examples are exactly the others
        let mut cnt = 0;
        let mut last = None;
        let mut ok = true;
        for j in ds.inactive_examples_iter() {
            ok &= j < n && last.map_or(true, |l| l < j);
            last = Some(j);
            cnt += 1;
            for &a in &act { ok &= a != j; }
        }
        check(cnt == n - k, "C11.oob.count");
        check(ok, "C11.oob");
    } else { check(k == n, "C11.bag.all"); }
}
fn features(ds: &Dataset, useful: &[usize], k: usize) {
    check(ds.nactive_features() == k, "C11.feat.size");
    let f = ds.active_features();
    check(f.len() == k, "C11.feat.count");
    let mut ok = true;
    for i in 0..k {
        let mut u = false;
        for x in useful { u |= *x == f[i]; }
        ok &= u;
        for j in 0..i { ok &= f[i] != f[j]; }
    }
    check(ok, "C11.feat");
}
/// nfeat features alternating in type, `skip` of them useless (a single value)
fn data(cfg: &Config, n: usize, nfeat: usize, skip: u32) -> (Data, Vec<usize>) {
    let mut d = Data::empty(cfg, nfeat, n);
    let mut useful = Vec::new();
    for f in 0..nfeat {
        let cat = f % 2 == 0;
        let col: Vec<f32> = (0..n).map(|i| if (skip >> f) & 1 == 1 { 0.0 } else { (i % 3) as f32 }).collect();
        check(d.set_feature_data(f, &col, cat).is_ok(), "C11.data");
        if (skip >> f) & 1 == 0 { useful.push(f); }
    }
    (d, useful)
}
fn config(ef: f32, ff: f32) -> Config {
    let mut c = Config::new();
    c.max_nbins = 3;
    c.example_fraction = ef;
    c.feature_fraction = ff;
    c
}
/// every sequence of draws, bag sizes 1..n
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bag() {
    merge_level(0);
    lut_bits(14);
    rand::set_mode(0);
    let c = case(9) as usize;
    let (n, f, k) = [(3, 0.7, 2), (4, 0.5, 2), (5, 0.2, 1), (5, 0.6, 3), (5, 0.8, 4), (6, 0.34, 2), (6, 0.5, 3), (7, 0.3, 2), (4, 0.99, 4)][c];
    let cfg = config(f, 1.0);
    let (d, useful) = data(&cfg, n, 1, 0);
    let mut ds = Dataset::new(&cfg, &d);
    let grad = vec![0.5; n];
    ds.update(&cfg, &grad, (-1.0, 1.0));
    bag(&ds, n, k);
    features(&ds, &useful, useful.len());
    cover("bag");
}
/// every sequence of feature draws, with useless features present
#[no_mangle] #[inline(never)]
pub extern "C" fn h_features() {
    merge_level(0);
    lut_bits(14);
    rand::set_mode(0);
    let c = case(8) as usize;
    let (nf, skip, f, k) = [(2, 0, 0.5, 1), (3, 0, 0.67, 2), (4, 0b0100, 0.67, 2), (5, 0b00001, 0.5, 2), (5, 0, 0.6, 3), (6, 0b101000, 0.75, 3), (6, 0, 0.5, 3), (7, 0b1001, 0.4, 2)][c];
    let n = 4;
    let cfg = config(1.0, f);
    let (d, useful) = data(&cfg, n, nf, skip);
    let mut ds = Dataset::new(&cfg, &d);
    let grad = vec![0.5; n];
    ds.update(&cfg, &grad, (-1.0, 1.0));
    features(&ds, &useful, k);
    bag(&ds, n, n);
    cover("features");
}
/// repeated sampling, sampling of both kinds
#[no_mangle] #[inline(never)]
pub extern "C" fn h_repeat() {
    merge_level(0);
    lut_bits(14);
    rand::set_mode(0);
    let freq = case(4) as usize;
    let mut cfg = config(0.67, 0.67);
    cfg.sample_freq = freq;
    let n = 3;
    let mut d = Data::empty(&cfg, 3, n);
    for f in 0..3 { check(d.set_feature_data(f, &[0.0, 1.0, 2.0], true).is_ok(), "C11.data"); }
    let useful = [0, 1, 2];
    let mut ds = Dataset::new(&cfg, &d);
    let grad = vec![0.5; n];
    let mut resampled = 0;
    for round in 0..3 {
        if round == 2 { rand::set_mode(2); } // the last draws are those of the first offset
        let before = unsafe { rand::NDRAWS };
        let (b, f) = if round > 0 { (active(&ds).0, ds.active_features().to_vec()) } else { (Vec::new(), Vec::new()) };
        ds.update(&cfg, &grad, (-1.0, 1.0));
        if unsafe { rand::NDRAWS } == before {
            check(round > 0, "C11.first");
            check(active(&ds).0 == b && ds.active_features() == &f[..], "C11.kept");
        } else { resampled += 1; }
        bag(&ds, n, 2);
        features(&ds, &useful, 2);
    }
    if freq == 1 { check(resampled == 3, "C11.every"); }
    if freq == 2 { check(resampled >= 2, "C11.every"); }
    cover("repeat");
}
/// every fraction: the number drawn is the configured share, rounded
#[no_mangle] #[inline(never)]
pub extern "C" fn h_fraction() {
    merge_level(0);
    lut_bits(14);
    rand::set_mode(2);
    let c = case(12) as usize;
    let n = [5usize, 8, 15][c % 3];
    let g = bits(10) as f32;
    let f = if c / 3 % 2 == 0 { (g + 1.0) / 1024.0 } else { (if g > 1000.0 { 1000.0 } else { g }) / 1000.0 };
    assume(n as f32 * f >= 0.51); // an empty bag is refused
    let (ef, ff) = if c / 6 == 0 { (f, 1.0) } else { (1.0, f) };
    let cfg = config(ef, ff);
    let c1 = Config::new();
    let (d, useful) = data(&c1, n, 5, 0b00010);
    let mut ds = Dataset::new(&cfg, &d);
    let k = ds.nactive_examples();
    let kf = ds.nactive_features();
    check(k <= n && kf <= useful.len(), "C11.fraction.range");
    let near = |k: usize, n: usize, f: f32| { let x = n as f64 * f as f64; (k as f64) <= x + 0.5 + 1e-5 && k as f64 >= x - 0.5 - 1e-5 };
    check(near(k, n, ef), "C11.fraction.examples");
    check(near(kf, useful.len(), ff), "C11.fraction.features");
    if ef == 1.0 { check(k == n && !ds.example_sampling_enabled(), "C11.fraction.one"); }
    if ff == 1.0 { check(kf == useful.len() && !ds.feature_sampling_enabled(), "C11.fraction.one"); }
    let grad = vec![0.5; n];
    if k > 0 {
        ds.update(&cfg, &grad, (-1.0, 1.0));
        bag(&ds, n, k);
        features(&ds, &useful, kf);
    }
    cover("fraction");
}
const SUBSET: [[[&str; 32]; 2]; 3] = [
    [["bag of 2 in 5, round 1: 0", "bag of 2 in 5, round 1: 1", "bag of 2 in 5, round 1: 2", "bag of 2 in 5, round 1: 3", "bag of 2 in 5, round 1: 4", "bag of 2 in 5, round 1: 5", "bag of 2 in 5, round 1: 6", "bag of 2 in 5, round 1: 7", "bag of 2 in 5, round 1: 8", "bag of 2 in 5, round 1: 9", "bag of 2 in 5, round 1: 10", "bag of 2 in 5, round 1: 11", "bag of 2 in 5, round 1: 12", "bag of 2 in 5, round 1: 13", "bag of 2 in 5, round 1: 14", "bag of 2 in 5, round 1: 15", "bag of 2 in 5, round 1: 16", "bag of 2 in 5, round 1: 17", "bag of 2 in 5, round 1: 18", "bag of 2 in 5, round 1: 19", "bag of 2 in 5, round 1: 20", "bag of 2 in 5, round 1: 21", "bag of 2 in 5, round 1: 22", "bag of 2 in 5, round 1: 23", "bag of 2 in 5, round 1: 24", "bag of 2 in 5, round 1: 25", "bag of 2 in 5, round 1: 26", "bag of 2 in 5, round 1: 27", "bag of 2 in 5, round 1: 28", "bag of 2 in 5, round 1: 29", "bag of 2 in 5, round 1: 30", "bag of 2 in 5, round 1: 31"], ["bag of 2 in 5, round 2: 0", "bag of 2 in 5, round 2: 1", "bag of 2 in 5, round 2: 2", "bag of 2 in 5, round 2: 3", "bag of 2 in 5, round 2: 4", "bag of 2 in 5, round 2: 5", "bag of 2 in 5, round 2: 6", "bag of 2 in 5, round 2: 7", "bag of 2 in 5, round 2: 8", "bag of 2 in 5, round 2: 9", "bag of 2 in 5, round 2: 10", "bag of 2 in 5, round 2: 11", "bag of 2 in 5, round 2: 12", "bag of 2 in 5, round 2: 13", "bag of 2 in 5, round 2: 14", "bag of 2 in 5, round 2: 15", "bag of 2 in 5, round 2: 16", "bag of 2 in 5, round 2: 17", "bag of 2 in 5, round 2: 18", "bag of 2 in 5, round 2: 19", "bag of 2 in 5, round 2: 20", "bag of 2 in 5, round 2: 21", "bag of 2 in 5, round 2: 22", "bag of 2 in 5, round 2: 23", "bag of 2 in 5, round 2: 24", "bag of 2 in 5, round 2: 25", "bag of 2 in 5, round 2: 26", "bag of 2 in 5, round 2: 27", "bag of 2 in 5, round 2: 28", "bag of 2 in 5, round 2: 29", "bag of 2 in 5, round 2: 30", "bag of 2 in 5, round 2: 31"]],
    [["bag of 3 in 4, round 1: 0", "bag of 3 in 4, round 1: 1", "bag of 3 in 4, round 1: 2", "bag of 3 in 4, round 1: 3", "bag of 3 in 4, round 1: 4", "bag of 3 in 4, round 1: 5", "bag of 3 in 4, round 1: 6", "bag of 3 in 4, round 1: 7", "bag of 3 in 4, round 1: 8", "bag of 3 in 4, round 1: 9", "bag of 3 in 4, round 1: 10", "bag of 3 in 4, round 1: 11", "bag of 3 in 4, round 1: 12", "bag of 3 in 4, round 1: 13", "bag of 3 in 4, round 1: 14", "bag of 3 in 4, round 1: 15", "bag of 3 in 4, round 1: 16", "bag of 3 in 4, round 1: 17", "bag of 3 in 4, round 1: 18", "bag of 3 in 4, round 1: 19", "bag of 3 in 4, round 1: 20", "bag of 3 in 4, round 1: 21", "bag of 3 in 4, round 1: 22", "bag of 3 in 4, round 1: 23", "bag of 3 in 4, round 1: 24", "bag of 3 in 4, round 1: 25", "bag of 3 in 4, round 1: 26", "bag of 3 in 4, round 1: 27", "bag of 3 in 4, round 1: 28", "bag of 3 in 4, round 1: 29", "bag of 3 in 4, round 1: 30", "bag of 3 in 4, round 1: 31"], ["bag of 3 in 4, round 2: 0", "bag of 3 in 4, round 2: 1", "bag of 3 in 4, round 2: 2", "bag of 3 in 4, round 2: 3", "bag of 3 in 4, round 2: 4", "bag of 3 in 4, round 2: 5", "bag of 3 in 4, round 2: 6", "bag of 3 in 4, round 2: 7", "bag of 3 in 4, round 2: 8", "bag of 3 in 4, round 2: 9", "bag of 3 in 4, round 2: 10", "bag of 3 in 4, round 2: 11", "bag of 3 in 4, round 2: 12", "bag of 3 in 4, round 2: 13", "bag of 3 in 4, round 2: 14", "bag of 3 in 4, round 2: 15", "bag of 3 in 4, round 2: 16", "bag of 3 in 4, round 2: 17", "bag of 3 in 4, round 2: 18", "bag of 3 in 4, round 2: 19", "bag of 3 in 4, round 2: 20", "bag of 3 in 4, round 2: 21", "bag of 3 in 4, round 2: 22", "bag of 3 in 4, round 2: 23", "bag of 3 in 4, round 2: 24", "bag of 3 in 4, round 2: 25", "bag of 3 in 4, round 2: 26", "bag of 3 in 4, round 2: 27", "bag of 3 in 4, round 2: 28", "bag of 3 in 4, round 2: 29", "bag of 3 in 4, round 2: 30", "bag of 3 in 4, round 2: 31"]],
    [["2 features of 4, round 1: 0", "2 features of 4, round 1: 1", "2 features of 4, round 1: 2", "2 features of 4, round 1: 3", "2 features of 4, round 1: 4", "2 features of 4, round 1: 5", "2 features of 4, round 1: 6", "2 features of 4, round 1: 7", "2 features of 4, round 1: 8", "2 features of 4, round 1: 9", "2 features of 4, round 1: 10", "2 features of 4, round 1: 11", "2 features of 4, round 1: 12", "2 features of 4, round 1: 13", "2 features of 4, round 1: 14", "2 features of 4, round 1: 15", "2 features of 4, round 1: 16", "2 features of 4, round 1: 17", "2 features of 4, round 1: 18", "2 features of 4, round 1: 19", "2 features of 4, round 1: 20", "2 features of 4, round 1: 21", "2 features of 4, round 1: 22", "2 features of 4, round 1: 23", "2 features of 4, round 1: 24", "2 features of 4, round 1: 25", "2 features of 4, round 1: 26", "2 features of 4, round 1: 27", "2 features of 4, round 1: 28", "2 features of 4, round 1: 29", "2 features of 4, round 1: 30", "2 features of 4, round 1: 31"], ["2 features of 4, round 2: 0", "2 features of 4, round 2: 1", "2 features of 4, round 2: 2", "2 features of 4, round 2: 3", "2 features of 4, round 2: 4", "2 features of 4, round 2: 5", "2 features of 4, round 2: 6", "2 features of 4, round 2: 7", "2 features of 4, round 2: 8", "2 features of 4, round 2: 9", "2 features of 4, round 2: 10", "2 features of 4, round 2: 11", "2 features of 4, round 2: 12", "2 features of 4, round 2: 13", "2 features of 4, round 2: 14", "2 features of 4, round 2: 15", "2 features of 4, round 2: 16", "2 features of 4, round 2: 17", "2 features of 4, round 2: 18", "2 features of 4, round 2: 19", "2 features of 4, round 2: 20", "2 features of 4, round 2: 21", "2 features of 4, round 2: 22", "2 features of 4, round 2: 23", "2 features of 4, round 2: 24", "2 features of 4, round 2: 25", "2 features of 4, round 2: 26", "2 features of 4, round 2: 27", "2 features of 4, round 2: 28", "2 features of 4, round 2: 29", "2 features of 4, round 2: 30", "2 features of 4, round 2: 31"]]];
/// every subset can come out, in each of two rounds
#[no_mangle] #[inline(never)]
pub extern "C" fn h_every() {
    merge_level(0);
    lut_bits(14);
    rand::set_mode(1);
    let c = case(3) as usize;
    let (n, ef, nf, ff) = [(5, 0.4, 1, 1.0), (4, 0.75, 1, 1.0), (3, 1.0, 4, 0.5)][c];
    let mut cfg = config(ef, ff);
    cfg.sample_freq = 1;
    let (d, _) = data(&cfg, n, nf, 0);
    let mut ds = Dataset::new(&cfg, &d);
    for round in 0..2 {
        ds.update(&cfg, &vec![0.5; n], (-1.0, 1.0));
        let mut m = 0usize;
        if c < 2 { for j in active(&ds).0 { m |= 1 << j; } } else { for f in ds.active_features() { m |= 1 << f; } }
        cover(SUBSET[c][round][m & 31]);
    }
}
entries!(h_every, h_bag, h_features, h_repeat, h_fraction);
