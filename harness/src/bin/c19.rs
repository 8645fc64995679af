//! C19: no failure crosses the C interface as a panic or memory error.
use bitboost::boost::Booster;
use bitboost::c_api::*;
use bitboost::config::Config;
use bitboost::data::Data;
use bitboost::metric::metrics_from_names;
use bitboost::objective::objective_from_name;
use bitboost::tree::AdditiveTree;
use harness::*;
use std::ffi::c_void;
use std::os::raw::c_char;

/// what the library itself does with the same calls
struct Shadow { config: Config, nfeatures: usize, data: Option<Data>, model: Option<AdditiveTree> }
impl Shadow {
    fn new(nfeatures: usize) -> Shadow { Shadow { config: Config::new(), nfeatures, data: None, model: None } }
    fn refresh(&mut self, n: i32) -> bool {
        if n <= 0 { return false; }
        self.data = Some(Data::empty(&self.config, self.nfeatures, n as usize));
        true
    }
    fn set(&mut self, f: i32, col: &[f32], cat: bool) -> bool {
        if f < 0 || f as usize > self.nfeatures { return false; }
        match self.data.as_mut() { Some(d) => d.set_feature_data(f as usize, col, cat).is_ok(), None => false }
    }
    fn option(&mut self, n: &str, v: &str) -> bool { self.data.is_none() && self.config.parse_record(n, v).is_ok() }
    fn train(&mut self) -> bool {
        let (data, config) = match self.data.as_ref() { Some(d) => (d, &self.config), None => return false };
        let mut model = None;
        let failed = panics(|| {
            let mut o = objective_from_name(&config.objective).unwrap();
            let ms = metrics_from_names(&config.metrics).unwrap();
            model = Some(Booster::new(config, data, o.as_mut(), &ms).train());
        });
        if failed { return false; }
        self.model = model;
        true
    }
}
struct C { p: *mut c_void, s: Shadow }
fn z(s: &[u8]) -> *const c_char { check(s[s.len() - 1] == 0, "C19.harness"); s.as_ptr() as *const c_char }
impl C {
    fn new(nf: i32) -> C {
        let p = bb_alloc(nf);
        check(!p.is_null(), "C19.alloc");
        C { p, s: Shadow::new(nf as usize) }
    }
    fn code(&self, r: i32, ok: bool, id: &str) { check(r == if ok { 0 } else { -1 }, id); }
    fn refresh(&mut self, n: i32) { let r = bb_refresh_data(self.p, n); let w = self.s.refresh(n); self.code(r, w, "C19.refresh"); }
    fn set(&mut self, f: i32, col: &[f32], cat: bool) {
        let n = self.s.data.as_ref().map_or(0, |d| d.nexamples());
        let r = bb_set_feature_data(self.p, f, col.as_ptr(), if cat { 1 } else { 0 });
        let w = self.s.set(f, &col[..n], cat);
        self.code(r, w, "C19.feature");
    }
    fn option(&mut self, n: &'static [u8], v: &'static [u8]) {
        let r = bb_set_config_field(self.p, z(n), z(v));
        let t = |b: &'static [u8]| std::str::from_utf8(&b[..b.len() - 1]).ok();
        let w = match (t(n), t(v)) { (Some(n), Some(v)) => self.s.option(n, v), _ => false };
        self.code(r, w, "C19.option");
    }
    fn train(&mut self) -> bool { let r = bb_train(self.p); let w = self.s.train(); self.code(r, w, "C19.train"); w }
    fn predict(&mut self) -> bool {
        let n = self.s.data.as_ref().map_or(0, |d| d.nexamples());
        let mut out = vec![-77.0f32; n + 1];
        let r = bb_predict(self.p, out.as_mut_ptr());
        let w = match (&self.s.data, &self.s.model) { (Some(d), Some(m)) => Some(m.predict(d)), _ => None };
        self.code(r, w.is_some(), "C19.predict");
        let mut ok = out[n] == -77.0;
        for i in 0..n { ok &= match &w { Some(w) => out[i].to_bits() == w[i].to_bits(), None => out[i] == -77.0 }; }
        check(ok, "C19.predictions");
        w.is_some()
    }
    fn free(self) { check(bb_dealloc(self.p) == 0, "C19.free"); }
}
fn step(c: &mut C, op: u64, v: [f32; 3]) {
    match op {
        0 => c.refresh(2),
        1 => c.refresh(3),
        2 => c.refresh(0),
        3 => c.set(0, &v, false),
        4 => c.set(1, &[v[1], v[0], v[2]], false),
        5 => c.set(0, &[v[0].abs(), v[1].abs(), 1.0], true),
        6 => c.set(0, &[1.0, -1.0, 0.5], true),
        7 => c.set(2, &v, false),
        8 => c.option(b"max_nbins\0", b"2\0"),
        9 => c.option(b"objective\0", b"nope\0"),
        10 => { c.train(); }
        _ => { c.predict(); }
    }
}
/// every sequence of calls after the first
fn history(k: u64, more: usize) {
    lut_bits(12); merge_level(0); quiet_panics();
    rand::set_mode(2);
    let mut c = C::new(1);
    c.option(b"niterations\0", b"1\0");
    c.option(b"max_tree_depth\0", b"1\0");
    c.option(b"random_seed\0", b"x\0");
    let v = [bits(2) as f32 - 1.0, bits(2) as f32 * 0.5, 2.0];
    step(&mut c, k % 12, v);
    step(&mut c, k / 12, v);
    for _ in 0..more { let op = concretize(range(12)); step(&mut c, op, v); }
    if c.predict() { cover("predicted"); } else { cover("refused"); }
    c.free();
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_calls() { let k = case(144); history(k, 2); }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_session() {
    lut_bits(12); merge_level(0); quiet_panics();
    rand::set_mode(2);
    let k = case(144);
    let mut c = C::new(1);
    c.option(b"niterations\0", b"1\0");
    c.option(b"max_tree_depth\0", b"2\0");
    let v = [bits(2) as f32 - 1.0, bits(2) as f32 * 0.5, 2.0];
    c.refresh(3);
    c.set(0, &v, false);
    c.set(1, &[1.0, v[1], 0.0], false);
    check(c.train(), "C19.trainable");
    step(&mut c, k % 12, v);
    step(&mut c, k / 12, [v[1], v[0], -1.0]);
    for _ in 0..1 { let op = concretize(range(12)); step(&mut c, op, [v[1], v[0], -1.0]); }
    c.predict();
    c.free();
    cover("session");
}
const OPTIONS: [(&[u8], &[&[u8]]); 20] = [
    (b"max_nbins\0", &[b"0\0", b"1\0", b"3\0", b"64\0"]), (b"discr_nbits\0", &[b"0\0", b"1\0", b"3\0", b"8\0", b"16\0"]),
    (b"max_tree_depth\0", &[b"0\0", b"1\0", b"8\0"]), (b"min_examples_leaf\0", &[b"0\0", b"2\0", b"4294967295\0"]),
    (b"niterations\0", &[b"0\0", b"3\0"]), (b"learning_rate\0", &[b"0\0", b"nan\0", b"inf\0", b"-1\0"]),
    (b"feature_fraction\0", &[b"0\0", b"0.5\0", b"2\0", b"-1\0", b"nan\0"]), (b"example_fraction\0", &[b"0\0", b"0.5\0", b"2\0", b"-1\0", b"nan\0"]),
    (b"compression_threshold\0", &[b"-1\0", b"0\0", b"2\0", b"nan\0"]), (b"reg_lambda\0", &[b"-4\0", b"1\0", b"nan\0", b"inf\0"]),
    (b"min_gain\0", &[b"-1\0", b"inf\0", b"nan\0"]), (b"sample_freq\0", &[b"0\0", b"2\0"]),
    (b"binary_gradient_bound\0", &[b"0\0", b"-1\0", b"nan\0"]), (b"huber_alpha\0", &[b"0\0", b"0.5\0", b"1\0"]),
    (b"objective\0", &[b"l1\0", b"huber\0", b"binary\0", b"hinge\0", b"\0"]), (b"metrics\0", &[b"l2,rmse\0", b"nope\0", b"\0"]),
    (b"metric_frequency\0", &[b"0\0", b"2\0"]), (b"nonsense\0", &[b"1\0"]), (b"\xff\xfe\0", &[b"1\0"]), (b"train\0", &[b"\xc3\x28\0", b"x\0"]),
];
/// every option at ordinary and extreme values, arbitrary data: a result or an error, as the library
fn options(b: u32) {
    lut_bits(12); merge_level(0); quiet_panics();
    rand::set_mode(2);
    let k = case(20 * 6) as usize;
    let (name, values) = OPTIONS[k % 20];
    let kind = k / 20;
    let mut c = C::new(2);
    c.option(b"niterations\0", b"2\0");
    c.option(b"max_tree_depth\0", b"2\0");
    c.option(b"max_nbins\0", b"2\0");
    c.option(b"objective\0", [&b"l2\0"[..], &b"binary\0"[..], &b"huber\0"[..]][kind % 3]);
    let j = concretize(range(values.len() as u64)) as usize;
    c.option(name, values[j]);
    c.refresh(4);
    let cat = kind / 3 == 1;
    let a = bits(b) as f32;
    let t = bits(1) as f32;
    c.set(0, &[a, 3.0, 0.0, bits(1) as f32], cat);
    c.set(1, &[0.0, 1.0, 1.0, 0.0], !cat);
    c.set(2, &[1.0, t, 0.0, 1.0], false);
    if c.train() { cover("trained"); } else { cover("refused"); }
    c.predict();
    c.refresh(1);
    c.predict();
    c.free();
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_options() { options(2); }
/// arguments no valid call has, handles and sizes
#[no_mangle] #[inline(never)]
pub extern "C" fn h_arguments() {
    merge_level(0); quiet_panics();
    let n = u32s() as i32;
    check(bb_get_numt_nbytes() == 4, "C19.numt");
    let p = bb_alloc(n);
    check(p.is_null() == (n <= 0), "C19.alloc");
    if !p.is_null() { check(bb_dealloc(p) == 0, "C19.free"); }
    let null = std::ptr::null_mut();
    check(bb_refresh_data(null, 1) == -1, "C19.null");
    check(bb_set_feature_data(null, 0, [1.0].as_ptr(), 0) == -1, "C19.null");
    check(bb_set_config_field(null, z(b"max_nbins\0"), z(b"2\0")) == -1, "C19.null");
    check(bb_train(null) == -1 && bb_predict(null, [0.0].as_mut_ptr()) == -1, "C19.null");
    check(bb_dealloc(null) == -1, "C19.null");
    let mut c = C::new(2);
    c.refresh(1);
    let f = u32s() as i32;
    let r = bb_set_feature_data(c.p, f, [f32::from_bits(u32s())].as_ptr(), bits(1) as i32);
    if f < 0 || f > 2 { check(r == -1, "C19.feature"); cover("outside"); } else { check(r == 0 || r == -1, "C19.feature"); cover("inside"); }
    let m = u32s() as i32;
    assume(m <= 2);
    c.refresh(if m > 0 { concretize(m as u64) as i32 } else { m });
    c.free();
}
/// two handles do not disturb each other
#[no_mangle] #[inline(never)]
pub extern "C" fn h_two() {
    lut_bits(12); merge_level(0); quiet_panics();
    rand::set_mode(2);
    let k = case(4);
    let (mut a, mut b) = (C::new(1), C::new(2));
    let v = [bits(2) as f32, 1.0, bits(2) as f32 - 1.5];
    let w = [2.0, bits(2) as f32, 0.0];
    for c in [&mut a, &mut b].iter_mut() { c.option(b"niterations\0", b"1\0"); c.option(b"max_tree_depth\0", b"1\0"); }
    if k & 1 == 1 { b.option(b"learning_rate\0", b"0.25\0"); }
    a.refresh(3); b.refresh(3);
    a.set(0, &v, false); b.set(0, &w, false); a.set(1, &w, false); b.set(1, &v, k & 2 == 2); b.set(2, &v, false);
    check(a.train() && b.train(), "C19.trainable");
    a.predict(); b.predict();
    if k & 2 == 2 { a.free(); b.predict(); b.free(); } else { b.free(); a.predict(); a.free(); }
    cover("two");
}
entries!(h_calls, h_session, h_options, h_arguments, h_two);
