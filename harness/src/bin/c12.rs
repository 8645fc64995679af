//! C12: prediction routes every example to the leaf its feature values select.
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::tree::{AdditiveTree, SplitCrit, SplitType, Tree};
use harness::*;

const NF: usize = 4; // low-cardinality category, high-cardinality category, two numbers
const NCAT: usize = 6;

fn crit(f: usize, v: f32) -> SplitCrit {
    let split_type = match f { 0 => SplitType::LoCardCatEq, 1 => SplitType::HiCardCatLt, _ => SplitType::NumLt };
    SplitCrit { split_type, feature_id: f, split_value: v }
}
/// the documented test of a node; `sup` are the super-categories of the training categories
fn goes_left(f: usize, split: f32, x: f32, sup: &[u32]) -> bool {
    match f {
        0 => x == split,
        1 => { let c = x as usize; c < sup.len() && sup[c] as f32 <= split }
        _ => x < split,
    }
}
fn any_split(f: usize) -> f32 {
    match f { 0 => range(8) as f32, 1 => range(4) as f32, _ => f32::from_bits(u32s()) }
}
/// an example: categories up to 9 (6 were seen in training), any number at all
fn any_example() -> [f32; NF] { [range(9) as f32, range(10) as f32, f32::from_bits(u32s()), f32::from_bits(u32s())] }
fn data(cfg: &Config, xs: &[[f32; NF]]) -> Data {
    let mut d = Data::empty(cfg, NF, xs.len());
    for f in 0..NF {
        let col: Vec<f32> = xs.iter().map(|x| x[f]).collect();
        // as a prediction data set: nothing is known about the categories
        check(d.set_feature_data(f, &col, false).is_ok(), "C12.data");
    }
    d
}
fn same(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn supercats() -> Vec<Vec<u32>> {
    let mut s = vec![Vec::new(); NF];
    for _ in 0..NCAT { s[1].push(range(4) as u32); }
    s
}
/// a tree over the given internal nodes (as positions in the full binary tree), and its walk
struct Ref { splits: Vec<Option<(usize, f32)>>, values: Vec<f32> }
fn build(depth: usize, nodes: &[usize], feats: &[usize], sup: &[Vec<u32>], vals: &dyn Fn(usize) -> f32) -> (Tree, Ref) {
    let mut t = Tree::new(depth, sup.to_vec());
    let n = t.max_nnodes();
    let mut r = Ref { splits: vec![None; n], values: vec![0.0; n] };
    let mut ids = vec![0usize; n]; // position -> the tree's node id
    for i in 0..n / 2 { ids[2 * i + 1] = t.left_child(ids[i]); ids[2 * i + 2] = t.right_child(ids[i]); }
    for i in 0..n { let v = vals(i); t.set_value(ids[i], v); r.values[i] = v; }
    for (k, &i) in nodes.iter().enumerate() {
        let v = any_split(feats[k]);
        t.split_node(ids[i], crit(feats[k], v));
        r.splits[i] = Some((feats[k], v));
    }
    check(t.ninternal() == nodes.len() && t.nleafs() == nodes.len() + 1 && t.nnodes() == 2 * nodes.len() + 1, "C12.count");
    (t, r)
}
fn walk(r: &Ref, x: &[f32; NF], sup: &[u32]) -> f32 {
    let mut i = 0;
    while let Some((f, s)) = r.splits[i] {
        i = if goes_left(f, s, x[f], sup) { 2 * i + 1 } else { 2 * i + 2 };
    }
    r.values[i]
}
const SHAPES: [(usize, &[usize]); 8] = [(1, &[]), (1, &[0]), (2, &[0]), (2, &[0, 1]), (2, &[0, 2]), (2, &[0, 1, 2]), (3, &[0, 2, 5]), (3, &[0, 1, 4])];
/// every combination of split features on trees of up to three splits
#[no_mangle] #[inline(never)]
pub extern "C" fn h_tree() {
    merge_level(0);
    lut_bits(12);
    let c = case(8) as usize;
    let (depth, nodes) = SHAPES[c];
    let cfg = Config::new();
    let sup = supercats();
    let mut feats = Vec::new();
    for _ in nodes { feats.push(concretize(range(NF as u64)) as usize); }
    let (t, r) = build(depth, nodes, &feats, &sup, &|i| (i as f32) * 0.5 - 3.0);
    let x = any_example();
    let d = data(&cfg, &[x]);
    let p = t.predict(&d);
    check(p.len() == 1, "C12.len");
    check(same(p[0], walk(&r, &x, &sup[1])), "C12.leaf");
    check(same(t.predict_single(&d, 0), p[0]), "C12.single");
    cover("tree");
}
/// full trees of depth 3, features given per level
#[no_mangle] #[inline(never)]
pub extern "C" fn h_deep() {
    merge_level(0);
    lut_bits(12);
    let c = case(6) as usize;
    let cfg = Config::new();
    let sup = supercats();
    let l = [[0, 1, 2], [2, 0, 1], [1, 2, 3], [3, 3, 3], [1, 1, 1], [0, 0, 0]][c];
    let feats = [l[0], l[1], l[1], l[2], l[2], l[2], l[2]];
    let (t, r) = build(3, &[0, 1, 2, 3, 4, 5, 6], &feats, &sup, &|i| (i as f32) * 0.25 + 1.0);
    let x = any_example();
    let d = data(&cfg, &[x]);
    check(same(t.predict_single(&d, 0), walk(&r, &x, &sup[1])), "C12.leaf");
    cover("deep");
}
/// leaf values, bias and scale are arbitrary numbers
#[no_mangle] #[inline(never)]
pub extern "C" fn h_value() {
    merge_level(0);
    let cfg = Config::new();
    let sup = vec![Vec::new(); NF];
    let v: Vec<f32> = (0..3).map(|_| f32::from_bits(u32s())).collect();
    for x in &v { assume(x.is_finite()); }
    let (mut t, r) = build(1, &[0], &[2], &sup, &|i| v[i]);
    let x = any_example();
    let d = data(&cfg, &[x]);
    let leaf = walk(&r, &x, &[]);
    check(same(t.predict_single(&d, 0), leaf + 0.0), "C12.value"); // the bias is 0
    for i in 0..3 { check(same(t.node_value(i), v[i]), "C12.node_value"); }
    let b = f32::from_bits(u32s());
    t.set_bias(b);
    check(same(t.predict_single(&d, 0), leaf + b), "C12.bias");
    t.set_shrinkage(0.5);
    check(same(t.predict_single(&d, 0), 0.5 * (leaf + b)), "C12.shrinkage");
    cover("value");
}
/// an ensemble: bias plus every tree, for every example whatever else is in the batch
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ensemble() {
    merge_level(0);
    lut_bits(12);
    let ntrees = case(4) as usize;
    let cfg = Config::new();
    let sup = supercats();
    let bias = f32::from_bits(u32s());
    let mut a = AdditiveTree::new();
    a.set_bias(bias);
    let mut refs = Vec::new();
    for k in 0..ntrees {
        let f = [[2, 0], [1, 2], [0, 1]][k];
        let (t, r) = build(2, &[0, 2], &f, &sup, &|i| [0.1, -2.5, 3e7, 0.0, 0.25, 1e-3, -7.75][i] * (k as f32 + 1.0));
        a.push_tree(t);
        refs.push(r);
    }
    let (x, y) = (any_example(), [1.0, 2.0, -0.5, 4.0]);
    let mut want = bias;
    for r in &refs { want += walk(r, &x, &sup[1]); }
    let single = a.predict(&data(&cfg, &[x]));
    check(single.len() == 1 && same(single[0], want), "C12.sum");
    let batch = data(&cfg, &[y, x, y]);
    let p = a.predict(&batch);
    check(p.len() == 3 && same(p[1], want), "C12.batch");
    let mut buf = [5.0f32, -1.0, 2.0];
    a.predict_buf(&batch, &mut buf);
    check(same(buf[1], want) && same(buf[0], p[0]) && same(buf[2], p[2]), "C12.buf");
    cover("ensemble");
}
/// a feature with very many categories: the super-category looked up is that of the category
#[no_mangle] #[inline(never)]
pub extern "C" fn h_wide() {
    merge_level(0);
    lut_bits(12);
    let c = case(4) as usize;
    let n = [257usize, 70_000, 65_536, 65_537][c];
    let cfg = Config::new();
    let sup: Vec<u32> = (0..n).map(|i| ((i / 3 + i / 256 + 2 * (i / 65_536)) % 5) as u32).collect();
    let mut sups = vec![Vec::new(); NF];
    sups[1] = sup.clone();
    let v = range(5) as f32;
    let mut t = Tree::new(1, sups);
    t.split_node(0, crit(1, v));
    t.set_value(1, -1.0);
    t.set_value(2, 1.0);
    let cats = [0usize, 1, 127, 128, 254, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 69_998, 69_999,
        70_000, 131_071, 131_072, 131_073, 1_000_000, 16_777_215, 16_777_216, 20_000_000, 1 << 30, 1 << 31, (1 << 32) - 256];
    let k = range(cats.len() as u64) as usize;
    let xs: Vec<f32> = cats.iter().map(|&c| c as f32).collect();
    let lefts: Vec<u32> = cats.iter().map(|&c| if c < n { sup[c] } else { 99 }).collect();
    let d = data(&cfg, &[[0.0, xs[k], 0.0, 0.0]]);
    let want = if (lefts[k] as f32) <= v { -1.0 } else { 1.0 };
    check(same(t.predict_single(&d, 0), want), "C12.wide");
    cover("wide");
}
/// what a tree must refuse, and what it reports about itself
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() {
    quiet_panics();
    merge_level(0);
    let depth = 1 + case(3) as usize;
    let mut t = Tree::new(depth, vec![Vec::new(); NF]);
    let nint = (1usize << depth) - 1;
    check(t.max_depth() == depth && t.max_ninternal() == nint && t.max_nleafs() == nint + 1 && t.max_nnodes() == 2 * nint + 1, "C12.shape");
    let i = range_in(0, 16) as usize;
    check(t.is_max_leaf_node(i) == (i >= nint), "C12.max_leaf");
    if i < nint {
        check(t.left_child(i) != t.right_child(i) && t.parent(t.left_child(i)) == i && t.parent(t.right_child(i)) == i, "C12.family");
        let i = concretize(i as u64) as usize;
        t.split_node(i, crit(2, 0.5));
        check(panics(|| t.split_node(i, crit(3, 0.5))), "C12.split_twice");
    } else {
        let i = concretize(i as u64) as usize;
        check(panics(|| t.split_node(i, crit(2, 0.5))), "C12.split_max_leaf");
    }
    check(panics(|| t.set_value(0, f32::from_bits(0x7f80_0000 | bits(23) as u32))), "C12.infinite");
    check(panics(|| t.split_node(0, SplitCrit::no_split())), "C12.no_split");
    check(panics(|| { Tree::new(0, Vec::new()); }), "C12.depth0");
    cover("refused");
}
entries!(h_tree, h_deep, h_value, h_ensemble, h_wide, h_refused);
