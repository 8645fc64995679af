//! Drives the tree learner with an objective that records what it is asked, and rebuilds from
//! the recording which examples every node of the tree holds.
use crate::check;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::dataset::Dataset;
use bitboost::objective::Objective;
use bitboost::tree::{Tree, TreeLearner, TreeLearnerContext};

pub struct Mock {
    pub grads: Vec<f32>,
    pub preds: Vec<f32>,
    pub lim: (f32, f32),
    pub lists: Vec<Vec<usize>>,
    pub oob: Vec<(usize, f32)>,
}
impl Mock {
    pub fn new(grads: Vec<f32>, lim: (f32, f32)) -> Mock {
        let n = grads.len();
        Mock { grads, preds: vec![0.0; n], lim, lists: Vec::new(), oob: Vec::new() }
    }
}
impl Objective for Mock {
    fn name(&self) -> &'static str { "mock" }
    fn gradients(&self) -> &[f32] { &self.grads }
    fn predictions(&self) -> &[f32] { &self.preds }
    fn bounds(&self) -> (f32, f32) { self.lim }
    fn bias(&self) -> f32 { 0.0 }
    fn initialize(&mut self, _: &Config, _: &[f32]) {}
    fn update(&mut self, _: &[f32]) {}
    /// leaf k gets the value k + 1
    fn predict_leaf_value(&mut self, _: &[f32], examples: &[usize]) -> f32 {
        self.lists.push(examples.to_vec());
        let v = self.lists.len() as f32;
        for &i in examples { self.preds[i] += v; }
        v
    }
    fn update_out_of_bag_prediction(&mut self, i: usize, value: f32) { self.oob.push((i, value)); self.preds[i] += value; }
}
/// trains one tree on the data set as prepared
pub fn train(cfg: &Config, data: &Data, ds: &mut Dataset, m: &mut Mock) -> Tree {
    let sup = ds.get_supercats().clone();
    let mut ctx = TreeLearnerContext::new(cfg, data);
    TreeLearner::new(&mut ctx, ds, sup, m).train()
}
/// trees trained one after another in the same context
pub fn train_in(ctx: &mut TreeLearnerContext, ds: &mut Dataset, m: &mut Mock) -> Tree {
    let sup = ds.get_supercats().clone();
    TreeLearner::new(ctx, ds, sup, m).train()
}
/// the leaf lists partition the bag, and prediction routes every example to the leaf that lists it
pub fn routed(t: &Tree, data: &Data, ds: &Dataset, m: &Mock, id: &str) {
    let n = data.nexamples();
    let mut times = vec![0u32; n];
    let mut ok = true;
    for (k, l) in m.lists.iter().enumerate() {
        ok &= !l.is_empty();
        for &i in l {
            ok &= i < n;
            times[i] += 1;
            ok &= t.predict_single(data, i) == k as f32 + 1.0;
        }
    }
    for &(i, v) in &m.oob {
        ok &= i < n;
        times[i] += 1 << 16;
        ok &= t.predict_single(data, i) == v;
    }
    let mut bag = vec![1u32 << 16; n];
    ds.active_examples_iter(|_, j| bag[j] = 1);
    for i in 0..n {
        ok &= times[i] == bag[i];
        ok &= m.preds[i] == t.predict_single(data, i);
    }
    ok &= m.lists.len() == t.nleafs();
    check(ok, id);
}
/// membership of every node (indexed by node id; None: no such node)
pub struct Shape { pub members: Vec<Option<Vec<bool>>>, pub leaf: Vec<bool> }
pub fn shape(t: &Tree, m: &Mock) -> Shape {
    let nn = t.max_nnodes();
    let n = m.preds.len();
    let mut s = Shape { members: vec![None; nn], leaf: vec![false; nn] };
    for id in (0..nn).rev() {
        let v = t.node_value(id);
        if v >= 1.0 {
            let l = &m.lists[v as usize - 1];
            let mut b = vec![false; n];
            for &i in l { b[i] = true; }
            s.members[id] = Some(b);
            s.leaf[id] = true;
        } else if !t.is_max_leaf_node(id) {
            let (l, r) = (t.left_child(id), t.right_child(id));
            if let (Some(a), Some(c)) = (s.members[l].clone(), s.members[r].clone()) {
                s.members[id] = Some((0..n).map(|i| a[i] | c[i]).collect());
            }
        }
    }
    s
}
