TRAIN='''
use bitboost::boost::Booster;
use bitboost::objective::objective_from_name;
// largest difference between the running predictions of the objective and the model's predictions
fn gap(cfg: &Config, d: &Data) -> f32 {
    let mut o = objective_from_name(&cfg.objective).unwrap();
    let m = Booster::new(cfg, d, o.as_mut(), &[]).train();
    let p = m.predict(d);
    p.iter().zip(o.predictions()).map(|(a, b)| (a - b).abs()).fold(0.0, f32::max)
}
'''
bug('compress-stale-words','C13',[('src/tree/learner.rs',
'''            for j in n_u32_child..n_u32_parent {
                child_mask.set::<u32>(j, 0);
            }
''','''            // (whole blocks beyond the last used one are cut off below)
            for j in BitBlock::blocks_required_for(n_u32_child * 32) * 8..n_u32_parent {
                child_mask.set::<u32>(j, 0);
            }
'''),('src/tree/learner.rs','use crate::config::Config;\n','use crate::bitblock::BitBlock;\nuse crate::config::Config;\n')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 1; cfg.max_tree_depth = 2; cfg.compression_threshold = 0.4;
    let n = 512;
    // words 0..4 and 11..16 (of 32 examples) on one side
    let a: Vec<f32> = (0..n).map(|i| if i / 32 < 4 || i / 32 >= 11 { 0.0 } else { 1.0 }).collect();
    let b: Vec<f32> = (0..n).map(|i| (i % 3) as f32).collect();
    let t: Vec<f32> = (0..n).map(|i| 10.0 * a[i] + b[i]).collect();
    let d = table(&cfg, &[(a, true), (b, true)], &t);
    let g = gap(&cfg, &d);
    println!("gap {}", g);
    std::process::exit(if g < 1e-4 { 0 } else { 1 });
}
''','a node that is compressed to a number of words that is no multiple of eight, with example words in the positions after it',
'stale example words of the uncompressed node stay in the last block of a compressed node: its leaves get examples that do not belong to them')

bug('num-zero-previous-bins','C10',[('src/dataset.rs',
'''        Self::zero_bitvecs(&mut self.store, bitvecs);
        Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
        Self::accumulate_bitvecs(&mut self.store, bitvecs);

        self.used_nbins[feat_id] = nsplit_candidates;
''','''        let ndirty = self.used_nbins[feat_id].min(nsplit_candidates); // others are still zero
        Self::zero_bitvecs(&mut self.store, &bitvecs[..ndirty]);
        Self::fill_bitvecs(&mut self.store, bitvecs, example_iter, get_cat);
        Self::accumulate_bitvecs(&mut self.store, bitvecs);

        self.used_nbins[feat_id] = nsplit_candidates;
''')],
'''
use bitboost::dataset::Dataset;
fn main() {
    let mut cfg = Config::new();
    cfg.max_nbins = 3;
    let v = vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0];
    let d = table(&cfg, &[(v.clone(), false)], &[0.0; 8]);
    let mut ds = Dataset::new(&cfg, &d);
    let grads: [[f32; 8]; 3] = [[0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 9.0, 0.0, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0]];
    let mut bad = 0;
    for g in &grads {
        ds.update(&cfg, g, (0.0, 9.0));
        for s in 0..ds.get_nbins(0) {
            for i in 0..8 {
                if ds.get_bitvec(0, s).get_bit(i) != (v[i] < ds.get_split_value(0, s)) { bad += 1; }
            }
        }
        println!("nbins {} bad {}", ds.get_nbins(0), bad);
    }
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','three updates of a numerical feature: many splits, then fewer, then many again at smaller values',
'bit vectors that an update in between did not use keep the bits of an older update')

bug('bag-sort-by-ends','C11',[('src/dataset.rs',
'''    buffer[0..k].sort_unstable();
}

#[allow(dead_code)]
fn reservoir''','''    if k > 0 && buffer[0] > buffer[k - 1] { buffer[0..k].sort_unstable(); }
}

#[allow(dead_code)]
fn reservoir''')],
'''
use bitboost::dataset::Dataset;
fn main() {
    let mut bad = 0;
    for seed in 0..40 {
        let mut cfg = Config::new();
        cfg.random_seed = seed;
        cfg.example_fraction = 0.5;
        let d = table(&cfg, &[(vec![0.0, 1.0, 0.0, 1.0, 2.0, 2.0], true)], &[0.0; 6]);
        let mut ds = Dataset::new(&cfg, &d);
        ds.update(&cfg, &[0.0; 6], (-1.0, 1.0));
        let mut seen = vec![0; 6];
        let mut last = None;
        ds.active_examples_iter(|_, j| { if last.map_or(false, |l| l >= j) { bad += 1; } last = Some(j); seen[j] += 1; });
        for j in ds.inactive_examples_iter() { seen[j] += 1; }
        if seen.iter().any(|&c| c != 1) { bad += 1; }
    }
    println!("bad {}", bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','a draw whose first example is smaller than its last one, but which is not sorted in between',
'bags are not sorted: examples of the bag are also reported as out of the bag')

bug('unseen-as-highest','C12',[('src/tree/tree.rs',
'''                                else                           { supercats.len() as CatT };''',
'''                                else { supercats.last().map_or(0, |&c| c) };''')],
'''
use bitboost::tree::{Tree, SplitCrit, SplitType};
fn main() {
    let mut cfg = Config::new();
    cfg.max_nbins = 2;
    let mut t = Tree::new(1, vec![vec![1, 0, 1, 0]]);
    t.split_node(0, SplitCrit { split_type: SplitType::HiCardCatLt, feature_id: 0, split_value: 0.0 });
    t.set_value(1, -1.0);
    t.set_value(2, 1.0);
    let d = table(&cfg, &[(vec![0.0, 1.0, 2.0, 3.0, 4.0, 9.0], true)], &[0.0; 6]);
    let p = t.predict(&d);
    println!("{:?}", p);
    std::process::exit(if p == vec![1.0, -1.0, 1.0, -1.0, 1.0, 1.0] { 0 } else { 1 });
}
''','predicting a category above those of the training data when the highest training category goes left',
'categories never seen in training follow the highest known category instead of the right branch')

bug('split-balanced-node','C14',[('src/tree/learner.rs',
'''        let ploss = self.get_loss(pgrad, pcount);

''','''        let ploss = self.get_loss(pgrad, pcount); // 0 if the prediction is perfect
        if ploss == 0.0 { return best_split; }

''')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 1; cfg.max_tree_depth = 2; cfg.discr_nbits = 2;
    let a = vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0];
    let b = vec![0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 1.0, 1.0];
    let t = vec![-3.0, -3.0, 3.0, 3.0, 3.0, 3.0, 1.0, 1.0];
    let t: Vec<f32> = t.iter().map(|x: &f32| x - 1.0).collect();
    let d = table(&cfg, &[(a, true), (b, true)], &t);
    let mut o = objective_from_name("l2").unwrap();
    let m = Booster::new(&cfg, &d, o.as_mut(), &[]).train();
    let p = m.predict(&d);
    println!("{:?} {:?}", p, t);
    // examples 0, 1 and 2, 3 (all with a = 0) have different targets: b separates them
    std::process::exit(if (p[0] - p[2]).abs() > 1.0 { 0 } else { 1 });
}
''','a node whose discretised gradients add up to exactly zero',
'a node is left a leaf although splitting it would improve the gain')

bug('copy-in-place','C03',[('src/slice_store.rs',
'''        let (from_sb, from_i) = Self::get_indices(from);
        let (to_sb, to_i) = Self::get_indices(to);
''','''        if from == to { return; } // already in place
        let ((from_sb, from_i), (to_sb, to_i)) = (Self::get_indices(from), Self::get_indices(to));
''')],
'''
use bitboost::slice_store::{BitBlockStore, BitSliceLayout4};
fn main() {
    let mut s = BitBlockStore::new(64);
    let a = s.alloc_zero_bitslice::<BitSliceLayout4>(300);
    let b = s.alloc_zero_bitslice::<BitSliceLayout4>(300);
    { let mut x = s.get_bitslice_mut::<BitSliceLayout4>(a); for i in 0..300 { x.set_value(i, (i % 16) as u8); } }
    let mut bad = 0;
    { let (x, mut y) = s.get_two_bitslices_mut::<BitSliceLayout4>(a, b);
      y.copy_block_from::<u32, _>(&x, 0, 0); y.copy_block_from::<u32, _>(&x, 2, 1);
      for i in 0..32 { if y.get_value(i) != x.get_value(i) || y.get_value(32 + i) != x.get_value(64 + i) { bad += 1; } } }
    println!("bad {}", bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','copying a block of one slice to the same position of another',
'the codes are not copied, the target keeps its old codes (zero after compression)')

bug('w8-carry-width','C04',[('src/simd.rs',
'''_mm256_slli_epi32(count_ones_u32(b08), 3)''','''_mm256_slli_epi32(count_ones_u64(b08), 3)''')],
'''
use bitboost::slice_store::{BitBlockStore, BitSliceLayout8};
fn main() {
    let n = 1000;
    let mut s = BitBlockStore::new(256);
    let g = s.alloc_zero_bitslice::<BitSliceLayout8>(n);
    let mut sum = 0u64;
    { let mut x = s.get_bitslice_mut::<BitSliceLayout8>(g); for i in 0..n { let v = (i * 77 % 256) as u8; x.set_value(i, v); if i % 3 != 0 { sum += v as u64; } } }
    let m = s.alloc_one_bits(n);
    let f = s.alloc_from_bits_iter(n, (0..n).map(|i| i % 3 != 0));
    let got = s.get_bitslice::<BitSliceLayout8>(g).sum_all_masked2(&s.get_bitvec(m), &s.get_bitvec(f));
    println!("{} {}", got, sum);
    std::process::exit(if got == sum { 0 } else { 1 });
}
''','8-bit codes and at least 16 words of examples','sums of 8-bit gradient codes are wrong')

bug('merge-gallop','C05',[('src/count_and_sum.rs',
'''            else if idx1 > idx2 { i2 += 1; }
''','''            else if idx1 > idx2 { i2 += if idx1 - idx2 >= 16 { 16 } else { 1 }; }
''')],
'''
use bitboost::bitblock::BitBlocks;
use bitboost::count_and_sum::count_and2_c11;
fn main() {
    let i1: Vec<u32> = (0..8).map(|i| 40 + i).collect();
    let i2: Vec<u32> = vec![3, 41, 42, 43, 44, 45, 50, 60, 70, 71, 72, 73, 74, 75, 76, 77];
    let ones = vec![!0u32; 8];
    let ones2 = vec![!0u32; 16];
    let (a, b) = (BitBlocks::from_iter(8, i1.into_iter()), BitBlocks::from_iter(8, ones.into_iter()));
    let (c, d) = (BitBlocks::from_iter(16, i2.into_iter()), BitBlocks::from_iter(16, ones2.into_iter()));
    let n = count_and2_c11(&a, &b, &c, &d);
    println!("{}", n);
    std::process::exit(if n == 5 * 32 { 0 } else { 1 });
}
''','two compressed lists of which the second one has a gap of 16 words or more before a word they share',
'shared words are jumped over: counts and sums over two compressed lists are too small')

bug('free-tail','C07',[('src/slice_store.rs',
'''                self.get_slice_mut(r).iter_mut().for_each(|x| *x = value.clone());
                return (r.0, r.0 + len);
''','''                self.get_slice_mut(r).iter_mut().for_each(|x| *x = value.clone());
                if (r.1 - r.0) as usize >= len as usize + 2 * self.get_elem_align() {
                    let m = self.get_elem_align() as u32; // keep the unused end for others
                    let tail = (r.0 + len + m - 1) / m * m;
                    self.free.push((tail, r.1));
                    self.slice_ends.insert(tail, r.1);
                }
                return (r.0, r.0 + len);
''')],
'''
use bitboost::slice_store::SliceStore;
fn main() {
    let mut s: SliceStore<u32> = SliceStore::new(64);
    let a = s.alloc_slice(10, 0);
    s.free_slice(a);
    let b = s.alloc_slice(3, 1);  // takes the front of a
    s.free_slice(b);
    let c = s.alloc_slice(7, 2);
    let d = s.alloc_slice(7, 3);
    let ok = s.get_slice(c).iter().all(|&x| x == 2) && s.get_slice(d).iter().all(|&x| x == 3);
    println!("{:?} {:?} {}", c, d, ok);
    std::process::exit(if ok { 0 } else { 1 });
}
''','a freed slice is reused by a shorter one, which is freed again, then two longer ones are allocated',
'the reclaimed end of a freed slice is handed out although the freed front also covers it: live slices overlap')

bug('store-reset-keeps-free','C08',[('src/slice_store.rs',
'''        self.len = 0;
        self.free.clear();
        self.slice_ends = HashMap::default();
''','''        self.len = 0; // freed slices can be used again right away
''')],
'''
use bitboost::slice_store::HistStore;
fn main() {
    let mut s: HistStore<u32> = HistStore::new(vec![2u32, 3].into_iter());
    let a = s.alloc_hists();
    s.free_hists(a);
    s.reset();
    let b = s.alloc_hists();
    let c = s.alloc_hists();
    s.get_hist_mut(b, 1)[0] = 7;
    let ok = s.get_hist(c, 1)[0] == 0;
    println!("{:?} {:?} {}", b, c, ok);
    std::process::exit(if ok { 0 } else { 1 });
}
''','histograms are freed, the store is reset, and afterwards more histograms are live than were freed',
'two live histograms share memory')

bug('objective-reuse','C15',[('src/objective.rs',
'''                self.predictions.clear();
                self.gradients.clear();
                self.predictions.resize(n, bias);
''','''                self.gradients.clear();
                self.predictions.resize(n, bias);
''')],
'''
use bitboost::objective::objective_from_name;
fn main() {
    let cfg = Config::new();
    let t = [1.0, 2.0, 3.0];
    let mut o = objective_from_name("l2").unwrap();
    o.initialize(&cfg, &t);
    o.update(&t);
    o.predict_leaf_value(&t, &[0, 2]);
    o.predict_leaf_value(&t, &[1]);
    let u = [5.0, 5.0, 8.0];
    o.initialize(&cfg, &u);
    println!("{:?} {}", o.predictions(), o.bias());
    std::process::exit(if o.predictions().iter().all(|&p| p == o.bias()) { 0 } else { 1 });
}
''','an objective that is used for a second training','the running predictions start at those of the earlier training instead of the bias')

bug('error01-round','C16',[('src/metric.rs',
'''    if t < 0.5 {
        if p < 0.5 { 0.0 }
''','''    if t < 0.5 {
        if p.round() <= 0.0 && p.round() >= 0.0 { 0.0 } // closest to 0
''')],
'''
use bitboost::metric::metric_from_name;
fn main() {
    let m = metric_from_name("binary_error01").unwrap();
    let v = m.eval(&[0.0, 0.0, 1.0, 1.0], &[-0.75, 0.25, 1.75, 0.25]);
    println!("{}", v);
    std::process::exit(if v == 0.25 { 0 } else { 1 });
}
''','a prediction below -0.5 for a negative example','the error rate counts confident correct predictions as errors')

bug('list-skips-empty','C17',[('src/config.rs',
'''        for v in value.split(',').map(|s| s.trim()) {''','''        for v in value.split(',').map(|s| s.trim()).filter(|s| !s.is_empty()) {''')],
'''
fn main() {
    let mut c = Config::new();
    let r = c.parse_record("categorical_features", "1,,2");
    println!("{:?} {:?}", r.is_ok(), c.categorical_features);
    std::process::exit(if r.is_err() && c.categorical_features.is_empty() { 0 } else { 1 });
}
''','a list value with an item missing','lists with missing numbers are accepted, with other positions than given')

bug('csv-flexible','C18',[('src/data.rs',
'''            .delimiter(config.csv_delimiter)
''','''            .delimiter(config.csv_delimiter).flexible(true) // missing cells are reported below
''')],
'''
fn main() {
    let mut c = Config::new();
    c.csv_has_header = false;
    let r = Data::from_csv(&c, "1,2,3\\n4,5,6,7\\n");
    println!("{}", r.is_ok());
    std::process::exit(if r.is_err() { 0 } else { 1 });
}
''','a CSV row with more cells than the first one','ragged rows are cut off silently, another column is used as the target')

bug('refresh-keeps','C19',[('src/c_api.rs',
'''            context.data = Some(Data::empty(&context.config, context.nfeatures, nexamples));
''','''            if context.data.as_ref().map_or(true, |d| d.nexamples() != nexamples) {
                context.data = Some(Data::empty(&context.config, context.nfeatures, nexamples));
            }
''')],
'''
use bitboost::c_api::*;
use std::ffi::CString;
fn main() {
    let p = bb_alloc(1);
    let set = |n: &str, v: &str| bb_set_config_field(p, CString::new(n).unwrap().as_ptr(), CString::new(v).unwrap().as_ptr());
    set("niterations", "1"); set("max_tree_depth", "1"); set("objective", "l2");
    bb_refresh_data(p, 4);
    bb_set_feature_data(p, 0, [0.0f32, 1.0, 2.0, 3.0].as_ptr(), 0);
    bb_set_feature_data(p, 1, [0.0f32, 0.0, 8.0, 8.0].as_ptr(), 0);
    let r = bb_train(p);
    bb_refresh_data(p, 4);           // new, empty data: all features are 0
    let mut out = [0.0f32; 4];
    let q = bb_predict(p, out.as_mut_ptr());
    bb_dealloc(p);
    println!("{} {} {:?}", r, q, out);
    std::process::exit(if out.iter().all(|&x| x == out[0]) { 0 } else { 1 });
}
''','the data of a handle is replaced by new data of the same size and not every column is set again',
'predictions are made on columns of the old data')

bug('hist-share-neighbour','C20',[('src/tree/learner.rs',
'''                    let hist = hist_store.get_hist_mut(n2s.hists_range, feat_id);
                    hist[split_id] = histval;
                });
''','''                    let hist = hist_store.get_hist_mut(n2s.hists_range, feat_id);
                    // with as many examples as the next split, both separate the same examples
                    hist[split_id] = if split_id + 1 < hist.len() && histval.example_count > 0
                        && hist[split_id + 1].example_count == histval.example_count
                    { hist[split_id + 1] } else { histval };
                });
''')],
'''
use bitboost::boost::Booster;
use bitboost::objective::objective_from_name;
use bitboost::tree::{Tree, TreeLearner, TreeLearnerContext};
use bitboost::dataset::Dataset;
fn once(threads: usize) -> Vec<f32> {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 1; cfg.max_tree_depth = 1; cfg.max_nbins = 16;
    let n = 64 * 6;
    let a: Vec<f32> = (0..n).map(|i| (i % 6) as f32).collect();
    let t: Vec<f32> = (0..n).map(|i| [0.0, 3.0, -3.0, 9.0, 1.0, -1.0][i % 6]).collect();
    let d = table(&cfg, &[(a, true)], &t);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
    pool.install(|| {
        let mut o = objective_from_name("l2").unwrap();
        Booster::new(&cfg, &d, o.as_mut(), &[]).train().predict(&d)
    })
}
fn main() {
    // category 3 is the best one to separate, whatever the order of the workers
    let mut bad = 0;
    for k in 0..3000 { let p = once(1 + k % 8); if (p[3] - 9.0).abs() > 0.5 { bad += 1; } }
    println!("bad {}", bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','two categories with equally many examples, the later one processed before the earlier one by the workers',
'which gradient sum a category gets depends on the order in which the workers finish')

bug('drop-stumps','C21',[('src/boost.rs',
'''        self.ensemble.push_tree(tree);
''','''        if tree.nnodes() > 1 { self.ensemble.push_tree(tree); } // nothing learned otherwise
''')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 3; cfg.max_tree_depth = 1; cfg.learning_rate = 0.5;
    cfg.min_examples_leaf = 3; cfg.example_fraction = 0.6;
    let d = table(&cfg, &[(vec![0.0, 1.0, 0.0, 1.0, 1.0], true)], &[0.0, 1.0, 5.0, 9.0, 2.0]);
    let g = gap(&cfg, &d);
    println!("gap {}", g);
    std::process::exit(if g < 1e-3 { 0 } else { 1 });
}
''','a round (with bagging) in which no split is found although the leaf value of the root is not zero',
'the model lacks the trees of such rounds: it predicts other values than training recorded')

bug('rank-zero-first','C09',[('src/binner.rs',
'''        let rank = rank.unwrap();
''','''        let rank = rank.unwrap(); // the smallest value is in the first bin
        if rank <= Default::default() { return Some(0); }
''')],
'''
use bitboost::binner::Binner;
fn main() {
    let mut bins = vec![0u32, 0, 3, 4];
    let b = Binner::new(&mut bins, (0.0, 1.0));
    let got: Vec<usize> = (0..7).map(|r| b.bin_with_rank(r, |&x| x)).collect();
    println!("{:?}", got);
    std::process::exit(if got == vec![2, 2, 2, 3, 3, 3, 3] { 0 } else { 1 });
}
''','rank zero while the first bins are empty',
'the smallest value is reported in an empty bin')

bug('skip-zero-words','C06',[('src/slice_store.rs',
'''                if i < n {
                    mask = unsafe { *self.get_unchecked::<u32>(i) };
                    index = unsafe { *indices.get_unchecked::<u32>(i) } as usize;
                } else { break; }
''','''                if i < n {
                    index = unsafe { *indices.get_unchecked::<u32>(i) } as usize;
                    while i + 1 < n && unsafe { *self.get_unchecked::<u32>(i) } == 0 { i += 1; }
                    mask = unsafe { *self.get_unchecked::<u32>(i) };
                } else { break; }
''')],
'''
use bitboost::slice_store::BitBlockStore;
fn main() {
    let mut s = BitBlockStore::new(64);
    let m = s.alloc_from_iter::<u32, _>(8, vec![1u32, 0, 4, 0, 0, 0, 8, 0].into_iter());
    let x = s.alloc_from_iter::<u32, _>(8, vec![0u32, 2, 3, 7, 8, 9, 11, 12].into_iter());
    let mut got = vec![];
    s.get_bitvec(m).for_each_index_compr(&s.get_bitvec(x), |i| { got.push(i); false });
    println!("{:?}", got);
    std::process::exit(if got == vec![0, 3 * 32 + 2, 11 * 32 + 3] { 0 } else { 1 });
}
''','a compressed set with a zero word before a word that is not zero','positions are reported with the index of the skipped word')

bug('set-bit-only-ones','C01',[('src/slice_store.rs',
'''        let blocks = self.blocks.borrow_mut();
        blocks[i].set_bit(j, bit)
''','''        let blocks = self.blocks.borrow_mut();
        if bit { blocks[i].enable_bit(j) } // bits are zero already
''')],
'''
use bitboost::slice_store::BitBlockStore;
fn main() {
    let mut s = BitBlockStore::new(64);
    let r = s.alloc_one_bits(300);
    s.get_bitvec_mut(r).set_bit(260, false);
    let b = s.get_bitvec(r).get_bit(260);
    println!("{}", b);
    std::process::exit(if !b { 0 } else { 1 });
}
''','clearing a bit that is set in a stored bit vector','assigning false does not clear a bit')

bug('one-bits-full-blocks','C02',[('src/slice_store.rs',
'''            let mut zeros = nblocks * BitBlock::nbits() - nbits;
            let mut i = u64s.len()-1;
            loop {
                if zeros >= 64 { u64s[i] = 0; }
                else           { u64s[i] >>= zeros; }

                if zeros > 64 { zeros -= 64; i -= 1; }
                else          { break; }
            }
''','''            let keep = nbits % BitBlock::nbits();
            for (i, x) in u64s.iter_mut().enumerate() {
                if keep <= 64 * i          { *x = 0; }
                else if keep < 64 * i + 64 { *x >>= 64 * i + 64 - keep; }
            }
''')],
'''
use bitboost::slice_store::BitBlockStore;
fn main() {
    let mut s = BitBlockStore::new(64);
    let mut bad = 0;
    for &n in &[1usize, 64, 255, 256, 257, 512, 600] {
        let r = s.alloc_one_bits(n);
        let ones: u32 = s.get_bitvec(r).cast::<u64>().iter().map(|x| x.count_ones()).sum();
        if ones as usize != n { bad += 1; }
    }
    println!("bad {}", bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','a number of bits that is a multiple of 256','the last 256 bits of an all-ones bit vector are zero')

bug('seed-zero-entropy','C22',[('src/dataset.rs',
'''        let rng = SmallRng::seed_from_u64(config.random_seed);
''','''        let rng = if config.random_seed != 0 { SmallRng::seed_from_u64(config.random_seed) }
                  else { SmallRng::from_entropy() }; // no seed given
'''),('src/dataset.rs','use rand::{Rng, SeedableRng};','use rand::{FromEntropy, Rng, SeedableRng};')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.random_seed = 0; cfg.niterations = 4; cfg.max_tree_depth = 2; cfg.example_fraction = 0.5;
    let n = 64;
    let a: Vec<f32> = (0..n).map(|i| ((i * 29) % 64) as f32).collect();
    let t: Vec<f32> = (0..n).map(|i| ((i * 13) % 17) as f32).collect();
    let d = table(&cfg, &[(a, false)], &t);
    let f = || { let mut o = objective_from_name("l2").unwrap(); Booster::new(&cfg, &d, o.as_mut(), &[]).train().predict(&d) };
    let (p, q, r) = (f(), f(), f());
    std::process::exit(if p == q && q == r { 0 } else { 1 });
}
''','random_seed=0 together with bagging','two trainings with the same configuration and data give different models')

bug('parent-loss-unregularised','C14',[('src/tree/learner.rs',
'''        let ploss = self.get_loss(pgrad, pcount);
''','''        let ploss = -0.5 * pgrad * pgrad / pcount as NumT;
''')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 1; cfg.max_tree_depth = 2; cfg.reg_lambda = 1.0; cfg.discr_nbits = 8; cfg.learning_rate = 1.0;
    // second level: gain 58 with the weight in all three losses
    let a: Vec<f32> = (0..64).map(|i| (i / 32) as f32).collect();
    let b: Vec<f32> = (0..64).map(|i| ((i / 2) % 2) as f32).collect();
    let t: Vec<f32> = (0..64).map(|i| if a[i] == 0.0 { 16.0 + 8.0 * b[i] } else { -16.0 - 8.0 * b[i] }).collect();
    let d = table(&cfg, &[(a, true), (b, true)], &t);
    let mut o = objective_from_name("l2").unwrap();
    let p = Booster::new(&cfg, &d, o.as_mut(), &[]).train().predict(&d);
    println!("{} {}", p[0], p[2]);
    std::process::exit(if p[2] - p[0] > 1.0 { 0 } else { 1 });
}
''','a regularisation weight above zero','gains are too small by the regularisation of the parent')

bug('double-compression-index','C13',[('src/tree/learner.rs',
'''                child_indices.set::<u32>(k, i);
''','''                child_indices.set::<u32>(k, j as u32);
''')],
TRAIN+'''
fn main() {
    let mut cfg = Config::new();
    cfg.objective = "l2".to_owned();
    cfg.niterations = 1; cfg.max_tree_depth = 3; cfg.compression_threshold = 0.3;
    let n = 32 * 64;
    let a: Vec<f32> = (0..n).map(|i| if (i / 32) % 2 == 0 { 0.0 } else { 1.0 }).collect();
    let b: Vec<f32> = (0..n).map(|i| if (i / 32) % 8 < 2 { 0.0 } else { 1.0 }).collect();
    let c: Vec<f32> = (0..n).map(|i| (i % 3 + i / 700) as f32).collect();
    let t: Vec<f32> = (0..n).map(|i| 100.0 * a[i] + 30.0 * b[i] + c[i]).collect();
    let d = table(&cfg, &[(a, true), (b, true), (c, false)], &t);
    let g = gap(&cfg, &d);
    println!("gap {}", g);
    std::process::exit(if g < 1e-4 { 0 } else { 1 });
}
''','a node that is compressed below a node that is compressed already','the examples of a twice compressed node are mixed up')

bug('locard-stale-bag','C10',[('src/dataset.rs',
'''        Self::zero_bitvecs(&mut self.store, &self.bitvecs[feat_id]);
        Self::fill_bitvecs(&mut self.store, &self.bitvecs[feat_id], example_iter, get_cat);
''','''        if self.bitvecs[feat_id].len() > 1 { Self::zero_bitvecs(&mut self.store, &self.bitvecs[feat_id]); }
        Self::fill_bitvecs(&mut self.store, &self.bitvecs[feat_id], example_iter, get_cat);
''')],
'''
use bitboost::dataset::Dataset;
fn main() {
    let mut cfg = Config::new();
    cfg.example_fraction = 0.5;
    let v: Vec<f32> = (0..40).map(|i| (i % 2) as f32).collect();
    let d = table(&cfg, &[(v.clone(), true)], &[0.0; 40]);
    let mut ds = Dataset::new(&cfg, &d);
    let mut bad = 0;
    for _ in 0..4 {
        ds.update(&cfg, &[1.0; 40], (0.0, 1.0));
        for s in 0..ds.get_nbins(0) {
            for i in 0..20 {
                if ds.get_bitvec(0, s).get_bit(i) != (v[ds.map_index(i)] == s as f32) { bad += 1; }
            }
        }
    }
    println!("nbins {} bad {}", ds.get_nbins(0), bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','a two-valued categorical feature and a second bag','the bit vector of a boolean feature keeps the bits of earlier bags')

bug('narrow-category','C12',[('src/tree/tree.rs',
'''                    let cat_value = into_cat(value) as usize;
''','''                    let cat_value = into_cat(value) as u16 as usize;
''')],
'''
use bitboost::tree::{SplitCrit, SplitType, Tree};
fn main() {
    let n = 70_000usize;
    let sup: Vec<u32> = (0..n).map(|i| (i / 7 % 3) as u32).collect();
    let mut t = Tree::new(1, vec![sup.clone()]);
    t.split_node(0, SplitCrit { split_type: SplitType::HiCardCatLt, feature_id: 0, split_value: 1.0 });
    t.set_value(1, -1.0); t.set_value(2, 1.0);
    let v: Vec<f32> = (0..n).map(|i| i as f32).collect();
    let mut d = Data::empty(&Config::new(), 1, n);
    d.set_feature_data(0, &v, false).unwrap();
    let p = t.predict(&d);
    let bad = (0..n).filter(|&i| p[i] != if sup[i] <= 1 { -1.0 } else { 1.0 }).count();
    println!("bad {}", bad);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
''','a categorical feature with more than 65536 categories','categories above 65535 are routed as other categories')

bug('limits-from-zero','C18',[('src/data.rs',
'''                        limits.resize(record_len, (POS_INF, NEG_INF));
''','''                        limits.resize(record_len, (POS_INF, 0.0 as NumT));
''')],
'''
fn main() {
    let mut cfg = Config::new();
    cfg.csv_has_header = false;
    let d = Data::from_csv(&cfg, "-5,1\\n-3,2\\n-4,0\\n").unwrap();
    println!("{:?}", d.feat_limits(0));
    std::process::exit(if d.feat_limits(0) == (-5.0, -3.0) { 0 } else { 1 });
}
''','a column of negative numbers read from CSV','the upper limit of a column of negative numbers is zero: its bins are wasted')

bug('compressed-single','C20',[('src/tree/learner.rs',
'''                if count == 0 { return (0.0, 0); }
                let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
''','''                if count <= 1 { return (0.0, count); } // too few for a split
                let sum = unsafe { grads.sum_all_masked2_compr_unsafe(&indices, &ems, &fmask) };
''')],
TRAIN+'''
fn main() {
    let run = |thr: f32| {
        let mut cfg = Config::new();
        cfg.objective = "l2".to_owned();
        cfg.niterations = 1; cfg.max_tree_depth = 2; cfg.compression_threshold = thr; cfg.min_gain = 0.0;
        cfg.min_examples_leaf = 1; cfg.discr_nbits = 8;
        let n = 32 * 64;
        let a: Vec<f32> = (0..n).map(|i| if i / 32 < 16 { 0.0 } else { 1.0 }).collect();
        let b: Vec<f32> = (0..n).map(|i| if i == 37 || i == 2000 { 1.0 } else { 2.0 * (i % 2) as f32 }).collect();
        let c: Vec<f32> = (0..n).map(|i| (i % 3 == 0) as u32 as f32).collect();
        let t: Vec<f32> = (0..n).map(|i| 20.0 * a[i] + 90.0 * (b[i] == 1.0) as u32 as f32 + 1.0 * c[i]).collect();
        let d = table(&cfg, &[(a, true), (b, true), (c, true)], &t);
        let mut o = objective_from_name("l2").unwrap();
        Booster::new(&cfg, &d, o.as_mut(), &[]).train().predict(&d)
    };
    let (p, q) = (run(0.2), run(1.0));
    let gap = p.iter().zip(&q).map(|(a, b)| (a - b).abs()).fold(0.0, f32::max);
    println!("gap {}", gap);
    std::process::exit(if gap < 1e-4 { 0 } else { 1 });
}
''','a split of a compressed node that separates a single example','gains of such splits differ between compressed and plain storage: the trained trees differ')
