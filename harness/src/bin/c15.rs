//! C15: objectives keep gradients, leaf values and running predictions consistent.
use bitboost::config::Config;
use bitboost::objective::*;
use harness::*;

const NAMES: [&str; 5] = ["l2", "l1", "huber", "binary", "hinge"];
fn config(kind: usize, lr: f32) -> Config {
    let mut c = Config::new();
    c.learning_rate = lr;
    c.discr_nbits = if kind == 4 { 2 } else { 4 };
    c.huber_alpha = 0.8;
    c
}
fn near(a: f32, b: f64, tol: f64) -> bool { let d = a as f64 - b; (d <= tol) & (d >= -tol) }
fn min(v: &[f64]) -> f64 { let mut m = v[0]; for &x in v { m = if x < m { x } else { m }; } m }
fn max(v: &[f64]) -> f64 { let mut m = v[0]; for &x in v { m = if x > m { x } else { m }; } m }
/// the k-th smallest (k = floor(n * q))
fn quantile(v: &[f64], q: f64) -> f64 {
    let k = ((v.len() as f32) * (q as f32)).floor() as usize;
    let mut r = v[0];
    for (i, &x) in v.iter().enumerate() {
        let mut below = 0;
        for (j, &y) in v.iter().enumerate() { below += ((y < x) | ((y == x) & (j < i))) as usize; }
        r = if below == k { x } else { r };
    }
    r
}
fn clip(x: f64, d: f64) -> f64 { if x > d { d } else if x < -d { -d } else { x } }

struct Case { kind: usize, obj: Box<dyn Objective>, t: Vec<f32>, lr: f64, scale: f64 }
impl Case {
    fn res(&self) -> Vec<f64> { (0..self.t.len()).map(|i| (self.t[i] - self.obj.predictions()[i]) as f64).collect() }
    fn tol(&self) -> f64 { self.scale * 1e-5 }
    fn bin(&self) -> f64 { let r = self.res(); (max(&r) - min(&r)) / 1024.0 * 1.001 + self.tol() }
    fn initialized(&self) {
        let n = self.t.len();
        let t: Vec<f64> = self.t.iter().map(|x| *x as f64).collect();
        let b = self.obj.bias();
        let pos = t.iter().fold(0.0, |a, x| a + x) / n as f64;
        let bin = (max(&t) - min(&t)) / 1024.0 * 1.001 + self.tol();
        let ok = match self.kind {
            0 => near(b, pos, self.tol()),
            1 | 2 => near(b, quantile(&t, 0.5), bin),
            3 => if pos == 0.0 { b < -5.0 } else if pos == 1.0 { b > 5.0 } else { near(b, 0.5 * (pos / (1.0 - pos)).ln(), 1e-4) },
            _ => near(b, 2.0 * pos - 1.0, 1e-5),
        };
        check(ok & b.is_finite(), "C15.bias");
        check(self.obj.predictions().len() == n, "C15.len");
        let mut ok = true;
        for p in self.obj.predictions() { ok &= p.to_bits() == b.to_bits(); }
        check(ok, "C15.start");
    }
    fn updated(&self) {
        let n = self.t.len();
        let r = self.res();
        let g = self.obj.gradients();
        check(g.len() == n, "C15.len");
        let (lo, hi) = self.obj.bounds();
        let tol = self.tol();
        let mut ok = lo <= hi;
        for i in 0..n {
            let (t, p) = (self.t[i], self.obj.predictions()[i] as f64);
            let y = 2.0 * t as f64 - 1.0;
            ok &= match self.kind {
                0 => near(g[i], -r[i], tol),
                1 => if r[i] > 0.0 { g[i] == -1.0 } else if r[i] < 0.0 { g[i] == 1.0 } else { (g[i] >= -1.0) & (g[i] <= 1.0) },
                2 => near(g[i], -clip(r[i], hi as f64), tol),
                3 => near(g[i], -2.0 * y / (1.0 + (2.0 * y * p).exp()), 1e-4),
                _ => g[i] as f64 == if y * p < 1.0 { -y } else { 0.0 },
            };
            // only these promise that the bounds contain every gradient
            if self.kind == 1 || self.kind == 2 || self.kind == 4 { ok &= (g[i] >= lo) & (g[i] <= hi); }
        }
        check(ok, "C15.gradient");
        match self.kind {
            0 => { let (a, b) = (min(&r).abs(), max(&r).abs()); let m = if a < b { a } else { b }; check(near(hi, m, tol) && near(lo, -m, tol), "C15.bounds"); }
            2 => { let q = quantile(&r, 0.8).abs(); check(near(hi, q, self.bin()) && lo == -hi, "C15.bounds"); }
            3 => check(lo == -1.25 && hi == 1.25, "C15.bounds"),
            _ => {}
        }
    }
    fn leaf(&mut self, ex: &[usize], bin: f64) {
        let before = self.obj.predictions().to_vec();
        let r = self.res();
        let re: Vec<f64> = ex.iter().map(|&i| r[i]).collect();
        let k = ex.len() as f64;
        let delta = self.obj.bounds().1 as f64;
        let g: Vec<f64> = ex.iter().map(|&i| self.obj.gradients()[i] as f64).collect();
        let v = self.obj.predict_leaf_value(&self.t, ex);
        let lr = self.lr;
        let tol = self.tol();
        let ok = match self.kind {
            0 => near(v, lr * re.iter().fold(0.0, |a, x| a + x) / k, tol),
            1 => near(v, lr * quantile(&re, 0.5), bin),
            2 => {
                let m = quantile(&re, 0.5);
                near(v, lr * (m + re.iter().fold(0.0, |a, x| a + clip(x - m, delta)) / k), bin)
            }
            3 => {
                let (mut a, mut b) = (0.0, 1.1920929e-7);
                for x in &g { a -= x; b += x.abs() * (2.0 - x.abs()); }
                let w = lr * a / b;
                near(v, w, 1e-4 * w.abs() + 1e-5)
            }
            _ => {
                let mut s = 0.0;
                for &i in ex { let (y, p) = (2.0 * self.t[i] as f64 - 1.0, before[i] as f64); let x = 2.0 - y * p; let x = if x > 0.0 { x } else { 0.0 }; s += y * x * x; }
                near(v, lr * s / k, 1e-4)
            }
        };
        check(ok, "C15.leaf");
        let mut ok = true;
        for i in 0..self.t.len() {
            let want = if ex.iter().any(|&e| e == i) { before[i] + v } else { before[i] };
            ok &= self.obj.predictions()[i].to_bits() == want.to_bits();
        }
        check(ok, "C15.predictions");
    }
}
fn target(kind: usize, form: usize, b: u32) -> f32 {
    if kind >= 3 { return bits(1) as f32; }
    let v = bits(b) as f32;
    match form { 0 => v, 1 => v * 0.25 - 1.0, 2 => v * 1000.0 + 5e5, _ => [0.0, 0.1, -3.0, 1e6][v as usize % 4] }
}
fn scale(kind: usize, form: usize) -> f64 { if kind >= 3 { 1.0 } else { [10.0, 4.0, 1e6, 1e6][form] } }
fn start(kind: usize, form: usize, t: Vec<f32>, lr: f32) -> Case {
    let mut obj = match objective_from_name(NAMES[kind]) { Some(o) => o, None => { check(false, "C15.name"); unreachable!() } };
    let cfg = config(kind, lr);
    obj.initialize(&cfg, &t);
    Case { kind, obj, t, lr: lr as f64, scale: scale(kind, form) }
}
const LISTS: [(&[usize], &[usize]); 4] = [(&[0, 1, 2, 3], &[]), (&[0, 2], &[1, 3]), (&[3], &[0, 1, 2]), (&[1, 2, 3], &[0])];
/// two rounds: gradients and bounds of the current predictions, leaf values, running predictions
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rounds() {
    lut_bits(12); merge_level(0);
    let c = case(40) as usize;
    let (kind, lists, form) = (c % 5, (c / 5) % 4, (c / 20) * 2 + (c / 5) % 2);
    let t: Vec<f32> = (0..4).map(|_| target(kind, form, 2)).collect();
    let lr = [1.0, 0.5][(c / 5) % 2];
    let mut k = start(kind, form, t, lr);
    k.initialized();
    k.obj.update(&k.t);
    k.updated();
    let bin = k.bin();
    let (a, b) = LISTS[lists];
    k.leaf(a, bin);
    if !b.is_empty() { k.leaf(b, bin); }
    k.obj.update(&k.t);
    k.updated();
    let bin = k.bin();
    k.leaf(b"\x01\x02".iter().map(|x| *x as usize).collect::<Vec<_>>().as_slice(), bin);
    // an out-of-bag example takes the value as it is
    let p = k.obj.predictions().to_vec();
    k.obj.update_out_of_bag_prediction(3, 0.375);
    let mut ok = true;
    for i in 0..4 { ok &= k.obj.predictions()[i].to_bits() == (if i == 3 { p[i] + 0.375 } else { p[i] }).to_bits(); }
    check(ok, "C15.oob");
    cover(NAMES[kind]);
}
/// quantiles of larger leaves
#[no_mangle] #[inline(never)]
pub extern "C" fn h_fine() {
    lut_bits(12); merge_level(0);
    let c = case(12) as usize;
    let (kind, form) = (c % 3, c / 3);
    let n = [2, 1, 3, 2][form];
    let b = [4, 6, 3, 2][form];
    let t: Vec<f32> = (0..n).map(|_| target(kind, form, b)).collect();
    let mut k = start(kind, form, t, 0.1);
    k.initialized();
    k.obj.update(&k.t);
    k.updated();
    let bin = k.bin();
    k.leaf(&[0], bin);
    if n > 1 { k.leaf(&[1], bin); }
    k.obj.update(&k.t);
    k.updated();
    cover("fine");
}
/// an objective initialised again behaves as a new one
#[no_mangle] #[inline(never)]
pub extern "C" fn h_again() {
    lut_bits(12); merge_level(0);
    let c = case(15) as usize;
    let (kind, form) = (c % 5, c / 5);
    let (n1, n2) = [(3, 3), (2, 4), (4, 3)][form];
    let old: Vec<f32> = (0..n1).map(|i| if i == 0 { target(kind, form, 2) } else { (i % 2) as f32 }).collect();
    let t: Vec<f32> = (0..n2).map(|_| target(kind, form, 2)).collect();
    let mut a = match objective_from_name(NAMES[kind]) { Some(o) => o, None => { check(false, "C15.name"); unreachable!() } };
    a.initialize(&config(kind, 0.25), &old);
    a.update(&old);
    a.predict_leaf_value(&old, &[0, n1 - 1]);
    let mut b = objective_from_name(NAMES[kind]).unwrap();
    let cfg = config(kind, 1.0);
    a.initialize(&cfg, &t);
    b.initialize(&cfg, &t);
    let same = |a: &dyn Objective, b: &dyn Objective| {
        check(a.predictions().len() == n2 && b.predictions().len() == n2 && a.gradients().len() == b.gradients().len(), "C15.again.len");
        let mut ok = a.bias().to_bits() == b.bias().to_bits();
        for i in 0..n2 {
            ok &= a.predictions()[i].to_bits() == b.predictions()[i].to_bits();
            ok &= a.gradients()[i].to_bits() == b.gradients()[i].to_bits();
        }
        ok &= (a.bounds().0.to_bits() == b.bounds().0.to_bits()) & (a.bounds().1.to_bits() == b.bounds().1.to_bits());
        check(ok, "C15.again.same");
    };
    for ex in [&[0usize, 2][..], &[1]] {
        a.update(&t);
        b.update(&t);
        same(&*a, &*b);
        let (x, y) = (a.predict_leaf_value(&t, ex), b.predict_leaf_value(&t, ex));
        check(x.to_bits() == y.to_bits(), "C15.again.leaf");
    }
    same(&*a, &*b);
    cover("again");
}
/// every float: the squared error gradient, whatever the predictions are
#[no_mangle] #[inline(never)]
pub extern "C" fn h_any() {
    merge_level(0);
    let kind = case(2) as usize;
    let mut obj = objective_from_name(NAMES[kind]).unwrap();
    let mut cfg = config(kind, 1.0);
    cfg.learning_rate = 1.0;
    obj.initialize(&cfg, &[0.0, 1.0]);
    let b = obj.bias();
    let t = [f32::from_bits(u32s()), f32::from_bits(u32s())];
    assume(t[0].is_finite() && t[1].is_finite() && t[0].abs() < 1e38 && t[1].abs() < 1e38);
    obj.update(&t);
    let g = obj.gradients();
    if kind == 0 {
        check(g[0] == -(t[0] - b) && g[1] == -(t[1] - b), "C15.any.l2");
        let (lo, hi) = obj.bounds();
        check(lo == -hi && hi >= 0.0, "C15.any.bounds");
        check((hi == g[0].abs() || hi == g[1].abs()) && (hi <= g[0].abs() && hi <= g[1].abs()), "C15.any.bound");
    } else {
        for i in 0..2 {
            let ok = if t[i] > b { g[i] == -1.0 } else if t[i] < b { g[i] == 1.0 } else { g[i] >= -1.0 && g[i] <= 1.0 };
            check(ok, "C15.any.l1");
        }
    }
    cover("any");
}
/// names: documented ones in any case, nothing else
#[no_mangle] #[inline(never)]
pub extern "C" fn h_names() {
    merge_level(0);
    lut_bits(8);
    let c = case(5) as usize;
    let mut b = NAMES[c].as_bytes().to_vec();
    let pos = concretize(range(b.len() as u64)) as usize;
    b[pos] = bits(7) as u8;
    let s = String::from_utf8(b.clone()).unwrap();
    let lower: Vec<u8> = b.iter().map(|x| if (*x >= b'A') & (*x <= b'Z') { x + 32 } else { *x }).collect();
    let want = NAMES.iter().position(|n| n.as_bytes() == &lower[..]);
    let got = objective_from_name(&s);
    check(got.is_some() == want.is_some(), "C15.name.known");
    if let (Some(g), Some(w)) = (got, want) { check(g.name() == ["L2", "L1", "Huber", "Binary", "Hinge"][w], "C15.name.right"); }
    cover("names");
}
entries!(h_rounds, h_fine, h_again, h_any, h_names);
