//! C10: the bit vectors of a dataset describe exactly the feature values of the bagged examples.
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use bitboost::dataset::Dataset;
use harness::*;

pub fn config(max_nbins: usize) -> Config {
    let mut c = Config::new();
    c.max_nbins = max_nbins;
    c
}
fn active(ds: &Dataset) -> Vec<usize> {
    let mut v = Vec::new();
    ds.active_examples_iter(|_, j| v.push(j));
    v
}
/// every bit of every bit vector of an active feature agrees with the example's value
fn verify(ds: &mut Dataset, data: &Data, max_nbins: usize) {
    let act = active(ds);
    check(act.len() == ds.nactive_examples(), "C10.count");
    let feats: Vec<usize> = ds.active_features().to_vec();
    let supercats = ds.get_supercats().clone();
    for &f in &feats {
        let nb = ds.get_nbins(f);
        let x = data.get_feature(f);
        match data.feat_type(f) {
            FeatType::Numerical => check(nb >= 1 && nb <= max_nbins, "C10.num.nbins"),
            FeatType::HiCardCat => check(nb >= 1 && nb <= max_nbins, "C10.hicard.nbins"),
            FeatType::LoCardCat => check(nb == if data.feat_card(f) == 2 { 1 } else { data.feat_card(f) }, "C10.locard.nbins"),
        }
        for k in 0..nb {
            let split = ds.get_split_value(f, k);
            let bv = ds.get_bitvec(f, k);
            let n = act.len();
            let words = bv.cast::<u32>();
            check(words.len() * 32 >= n, "C10.length");
            for (w, word) in words.iter().enumerate() {
                let used = if n >= 32 * (w + 1) { 32 } else if n > 32 * w { n - 32 * w } else { 0 };
                check(used == 32 || word >> used == 0, "C10.padding");
            }
            if k > 0 && data.feat_type(f) == FeatType::Numerical { check(ds.get_split_value(f, k - 1) < split, "C10.num.order"); }
            for (i, &j) in act.iter().enumerate() {
                let b = (words[i / 32] >> (i % 32)) & 1 == 1;
                match data.feat_type(f) {
                    FeatType::Numerical => check(b == (x[j] < split), "C10.num.bit"),
                    FeatType::LoCardCat => check(b == (x[j] == split), "C10.locard.bit"),
                    FeatType::HiCardCat => check(b == (supercats[f][x[j] as usize] <= split as u32), "C10.hicard.bit"),
                }
            }
        }
    }
}
const LIM: [(f32, f32); 4] = [(0.0, 1.0), (0.1, 0.7), (-250.0, 1.0e6), (-1.3, -0.1)];
const GRAD: [[f32; 5]; 4] = [[1.0, 1.0, 1.0, 1.0, 1.0], [0.5, -2.0, 0.25, 3.0, -0.125], [0.0, 0.0, 0.0, 0.0, 0.0], [1e-3, 100.0, -1e-3, 0.1, 5.0]];
/// a value between the limits on a grid of 2^nb points
fn value(lim: (f32, f32), nb: u32) -> f32 {
    let k = bits(nb) as u32;
    (lim.0 + (k as f32) / ((1u32 << nb) - 1) as f32 * (lim.1 - lim.0)).max(lim.0).min(lim.1)
}
/// an edge of one of the 512 quantile bins or the float just below it, and a point in the bin before
fn edge(lim: (f32, f32)) -> (f32, f32) {
    let k = bits(9) as u32;
    let d = (lim.1 - lim.0) / 512.0;
    let r = lim.0 + (k as f32) * d;
    let below = if r > 0.0 { f32::from_bits(r.to_bits() - 1) } else { f32::from_bits(r.to_bits() + 1) };
    let v = if flag() && r != 0.0 { below } else { r };
    (v.max(lim.0).min(lim.1), (r - 0.5 * d).max(lim.0).min(lim.1))
}
fn numeric(col: &[f32], grad: &[f32], max_nbins: usize) {
    let n = col.len();
    let cfg = config(max_nbins);
    let mut data = Data::empty(&cfg, 1, n);
    check(data.set_feature_data(0, &col, false).is_ok(), "C10.num.set");
    let mut ds = Dataset::new(&cfg, &data);
    ds.update(&cfg, &grad[..n], (-1.0, 1.0));
    verify(&mut ds, &data, max_nbins);
}
/// a value at a bin edge and one in the bin before, either dominating the weights
#[no_mangle] #[inline(never)]
pub extern "C" fn h_num_edge() {
    lut_bits(10);
    let c = case(4 * 2) as usize;
    let lim = LIM[c % 4];
    let (x, y) = edge(lim);
    numeric(&[lim.0, lim.1, x, y], &[[0.0, 0.1, -2.0, 0.1], [0.1, 0.0, -0.1, 5.0]][c / 4], 1);
    cover("num");
}
/// three arbitrary values
#[no_mangle] #[inline(never)]
pub extern "C" fn h_num() {
    lut_bits(12);
    merge_level(0);
    let c = case(4 * 4 * 3) as usize;
    let lim = LIM[c % 4];
    let (x, y, z) = (value(lim, 4), value(lim, 3), value(lim, 2));
    numeric(&[lim.0, lim.1, x, y, z], &GRAD[c / 4 % 4], [1, 3, 16][c / 16]);
    cover("num");
}
/// super-categories are ordered by the mean gradient of the category among the bagged examples
fn ordered(ds: &mut Dataset, data: &Data, grad: &[f32]) {
    let act = active(ds);
    let supercats = ds.get_supercats().clone();
    let feats: Vec<usize> = ds.active_features().to_vec();
    for &f in &feats {
        if data.feat_type(f) != FeatType::HiCardCat { continue; }
        let x = data.get_feature(f);
        check(supercats[f].len() == data.feat_card(f), "C10.supercats.len");
        let stat = |c: f32| {
            let (mut s, mut n) = (0.0f32, 0);
            for &j in &act { if x[j] == c { s += grad[j]; n += 1; } }
            s / n as f32
        };
        for &i in &act { for &j in &act {
            if x[i] != x[j] && stat(x[i]) <= stat(x[j]) { check(supercats[f][x[i] as usize] <= supercats[f][x[j] as usize], "C10.supercats.order"); }
        } }
        for &i in &act { check(supercats[f][x[i] as usize] as usize <= ds.get_nbins(f), "C10.supercats.range"); }
    }
}
fn locard(n: usize, card: u64) {
    let cfg = config(16);
    let mut data = Data::empty(&cfg, 1, n);
    let mut col = vec![(card - 1) as f32, 0.0];
    for i in 2..n { col.push(if i < 5 || i == 31 || i == 32 || i + 1 == n { range(card) as f32 } else { (i as u64 * 7 % card) as f32 }); }
    check(data.set_feature_data(0, &col, true).is_ok(), "C10.locard.set");
    check(data.feat_type(0) == FeatType::LoCardCat, "C10.locard.type");
    let mut ds = Dataset::new(&cfg, &data);
    let grad = vec![0.5; n];
    ds.update(&cfg, &grad, (-1.0, 1.0));
    verify(&mut ds, &data, 16);
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_locard() {
    lut_bits(6);
    let c = case(12) as usize;
    locard([2, 5, 33, 40][c / 3], [2, 3, 11][c % 3]);
    cover("locard");
}
/// high-cardinality categories: four of six examples arbitrary
#[no_mangle] #[inline(never)]
pub extern "C" fn h_hicard() {
    lut_bits(14);
    merge_level(0);
    let c = case(4 * 4) as usize;
    let max_nbins = [1, 2, 3, 16][c % 4];
    let cfg = config(max_nbins);
    let card = if max_nbins > 3 { 40u64 } else { 4 };
    let mut col = vec![(card - 1) as f32];
    for _ in 0..4 { col.push(range(4) as f32); }
    let n = col.len();
    let grad = match c / 4 { 0 => [0.5, -1.0, 0.25, 1.0, -0.125], 1 => [-0.75, -0.7, -0.7, 0.6, 0.6], 2 => [0.1, 0.1, 0.1, 0.1, 0.1], _ => [0.0; 5] };
    let bounds = if c / 4 == 3 { (-0.0, 0.0) } else { (-1.0, 1.0) };
    let mut data = Data::empty(&cfg, 1, n);
    check(data.set_feature_data(0, &col, true).is_ok(), "C10.hicard.set");
    check(data.feat_type(0) == FeatType::HiCardCat, "C10.hicard.type");
    let mut ds = Dataset::new(&cfg, &data);
    ds.update(&cfg, &grad, bounds);
    verify(&mut ds, &data, max_nbins);
    ordered(&mut ds, &data, &grad);
    cover("hicard");
}
/// gradients arbitrary, several updates: nothing remains of an earlier one
#[no_mangle] #[inline(never)]
pub extern "C" fn h_again() {
    lut_bits(14);
    merge_level(0);
    let c = case(4) as usize;
    let max_nbins = [1, 2, 3, 16][c];
    let cfg = config(max_nbins);
    let n = 6;
    let mut data = Data::empty(&cfg, 3, n);
    check(data.set_feature_data(0, &[0.0, 3.0, 1.0, 2.0, 2.0, 5.0], false).is_ok(), "C10.again.set");
    check(data.set_feature_data(1, &[0.0, 20.0, 1.0, 20.0, 2.0, 1.0], true).is_ok(), "C10.again.set");
    check(data.set_feature_data(2, &[0.0, 1.0, 1.0, 0.0, 2.0, 1.0], true).is_ok(), "C10.again.set");
    let mut ds = Dataset::new(&cfg, &data);
    const G: [f32; 4] = [-1.0, -0.25, 0.0, 1.0];
    let first: Vec<f32> = (0..n).map(|i| if i < 2 { pick(&G) } else { 0.5 - 0.25 * i as f32 }).collect();
    ds.update(&cfg, &first, (-1.0, 1.0));
    let second: Vec<f32> = (0..n).map(|i| if i % 2 == 1 { pick(&G) } else { 0.25 * i as f32 - 0.5 }).collect();
    ds.update(&cfg, &second, (-1.0, 1.0));
    verify(&mut ds, &data, max_nbins);
    ordered(&mut ds, &data, &second);
    cover("again");
}
/// four updates in a row, each with any of four gradient patterns
#[no_mangle] #[inline(never)]
pub extern "C" fn h_history() {
    lut_bits(12);
    merge_level(0);
    let c = case(6) as usize;
    let max_nbins = [2, 3, 16][c % 3];
    let cfg = config(max_nbins);
    let n = 6;
    let mut data = Data::empty(&cfg, 2, n);
    check(data.set_feature_data(0, &[0.0, 3.0, 1.0, 2.0, 2.5, 0.5], false).is_ok(), "C10.history.set");
    check(data.set_feature_data(1, &[0.0, 20.0, 1.0, 20.0, 2.0, 1.0], true).is_ok(), "C10.history.set");
    const G: [[f32; 6]; 4] = [[1.0, 1.0, 1.0, 1.0, 1.0, 1.0], [0.0, -1.0, 0.0, 0.0, 0.01, 0.0], [0.5, -0.5, 0.0, 0.0, 0.25, 0.0], [-0.02, 0.01, 1.0, -0.01, 0.02, -0.03]];
    let mut ds = Dataset::new(&cfg, &data);
    let mut last = 0;
    for k in 0..4 {
        last = if k == 0 && c / 3 == 1 { 0 } else { bits(2) as usize };
        let g: Vec<f32> = (0..n).map(|i| { let t = [G[0][i], G[1][i], G[2][i], G[3][i]]; t[last] }).collect();
        ds.update(&cfg, &g, (-1.0, 1.0));
        if c / 3 == 1 { verify(&mut ds, &data, max_nbins); }
    }
    verify(&mut ds, &data, max_nbins);
    let g: Vec<f32> = (0..n).map(|i| { let t = [G[0][i], G[1][i], G[2][i], G[3][i]]; t[last] }).collect();
    ordered(&mut ds, &data, &g);
    cover("history");
}
/// several bags in a row
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bags() {
    lut_bits(12);
    merge_level(0);
    rand::set_mode(1);
    let c = case(4) as usize;
    let mut cfg = config([2, 4][c % 2]);
    cfg.sample_freq = 1;
    let n = [4, 3][c / 2];
    cfg.example_fraction = [0.5, 0.67][c / 2];
    let mut data = Data::empty(&cfg, 4, n);
    check(data.set_feature_data(0, &[0.0, 3.0, 1.0, 2.0][..n], false).is_ok(), "C10.bags.set");
    check(data.set_feature_data(1, &[0.0, 20.0, 1.0, 20.0][..n], true).is_ok(), "C10.bags.set");
    check(data.set_feature_data(2, &[0.0, 2.0, 1.0, 0.0][..n], true).is_ok(), "C10.bags.set");
    check(data.set_feature_data(3, &[0.0, 1.0, 1.0, 0.0][..n], true).is_ok(), "C10.bags.set");
    let mut ds = Dataset::new(&cfg, &data);
    for k in 0..2 + c / 2 {
        let g: Vec<f32> = (0..n).map(|i| [1.0, -0.5, 0.25, 0.0, -1.0][(i * (k + 1) + k) % 5]).collect();
        ds.update(&cfg, &g, (-1.0, 1.0));
        verify(&mut ds, &data, cfg.max_nbins);
        ordered(&mut ds, &data, &g);
    }
    cover("bags");
}
/// every bag and every feature sample
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bag() {
    lut_bits(14);
    merge_level(0);
    rand::set_mode(1);
    let c = case(12) as usize;
    let max_nbins = [1, 2, 3][c % 3];
    let mut cfg = config(max_nbins);
    cfg.example_fraction = [0.6, 0.4, 0.8][c / 3 % 3];
    cfg.feature_fraction = [1.0, 0.67][c / 9];
    let n = 5;
    let mut data = Data::empty(&cfg, 3, n);
    check(data.set_feature_data(0, &[0.0, 3.0, 1.0, 2.0, 2.5], false).is_ok(), "C10.bag.set");
    check(data.set_feature_data(1, &[0.0, 20.0, 1.0, 20.0, 1.0], true).is_ok(), "C10.bag.set");
    check(data.set_feature_data(2, &[0.0, 2.0, 1.0, 0.0, 1.0], true).is_ok(), "C10.bag.set");
    let mut ds = Dataset::new(&cfg, &data);
    const G: [f32; 4] = [-1.0, -0.25, 0.125, 1.0];
    let grad: Vec<f32> = (0..n).map(|i| if i > 3 { pick(&G) } else { 0.5 - 0.25 * i as f32 }).collect();
    ds.update(&cfg, &grad, (-1.0, 1.0));
    verify(&mut ds, &data, max_nbins);
    ordered(&mut ds, &data, &grad);
    cover("bag");
}
entries!(h_num, h_num_edge, h_locard, h_hicard, h_again, h_history, h_bag, h_bags);
