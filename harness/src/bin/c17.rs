//! C17: configuration parsing stores exactly the given values or reports an error.
use bitboost::config::Config;
use harness::*;

const NAMES: [&str; 25] = ["train", "test", "objective", "metrics", "metric_frequency", "csv_has_header", "csv_delimiter",
    "categorical_features", "niterations", "learning_rate", "reg_lambda", "min_examples_leaf", "min_gain", "huber_alpha",
    "max_nbins", "discr_nbits", "max_tree_depth", "compression_threshold", "binary_gradient_bound", "random_seed",
    "feature_fraction", "example_fraction", "sample_freq", "", ""];
const N: usize = 23;
#[derive(Clone, Copy, PartialEq)]
enum K { Str, Strs, Ints, Bool, U8, U32, U64, F32 }
fn kind(k: usize) -> K {
    match k { 0..=2 => K::Str, 3 => K::Strs, 7 => K::Ints, 5 => K::Bool, 6 => K::U8, 11 => K::U32,
        4 | 8 | 14 | 15 | 16 | 19 | 22 => K::U64, _ => K::F32 }
}
#[derive(Clone)]
enum V { S(String), L(Vec<String>), I(Vec<usize>), B(bool), N(u64), F(f32) }
fn get(c: &Config, k: usize) -> V {
    match k {
        0 => V::S(c.train.clone()), 1 => V::S(c.test.clone()), 2 => V::S(c.objective.clone()), 3 => V::L(c.metrics.clone()),
        4 => V::N(c.metric_frequency as u64), 5 => V::B(c.csv_has_header), 6 => V::N(c.csv_delimiter as u64),
        7 => V::I(c.categorical_features.clone()), 8 => V::N(c.niterations as u64), 9 => V::F(c.learning_rate),
        10 => V::F(c.reg_lambda), 11 => V::N(c.min_examples_leaf as u64), 12 => V::F(c.min_gain), 13 => V::F(c.huber_alpha),
        14 => V::N(c.max_nbins as u64), 15 => V::N(c.discr_nbits as u64), 16 => V::N(c.max_tree_depth as u64),
        17 => V::F(c.compression_threshold), 18 => V::F(c.binary_gradient_bound), 19 => V::N(c.random_seed),
        20 => V::F(c.feature_fraction), 21 => V::F(c.example_fraction), _ => V::N(c.sample_freq as u64),
    }
}
fn same_str(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= a[i] == b[i]; }
    ok
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::S(x), V::S(y)) => same_str(x, y),
        (V::L(x), V::L(y)) => { if x.len() != y.len() { return false; } let mut ok = true; for i in 0..x.len() { ok &= same_str(&x[i], &y[i]); } ok }
        (V::I(x), V::I(y)) => { if x.len() != y.len() { return false; } let mut ok = true; for i in 0..x.len() { ok &= x[i] == y[i]; } ok }
        (V::B(x), V::B(y)) => *x == *y,
        (V::N(x), V::N(y)) => *x == *y,
        (V::F(x), V::F(y)) => x.to_bits() == y.to_bits(),
        _ => false,
    }
}
/// the configuration `c` is the default one with option `k` set to `v`
fn only(c: &Config, k: Option<usize>, v: &V, id: &str) {
    let d = Config::new();
    let mut ok = true;
    for j in 0..N { if Some(j) != k { ok &= same(&get(c, j), &get(&d, j)); } }
    check(ok, "C17.others");
    if let Some(k) = k { check(same(&get(c, k), v), id); }
}
fn sample(k: usize) -> (&'static str, V) {
    match kind(k) {
        K::Str => ("a=b", V::S("a=b".to_string())), K::Strs => ("l2, rmse", V::L(vec!["l2".to_string(), "rmse".to_string()])),
        K::Ints => ("3,0", V::I(vec![3, 0])), K::Bool => ("false", V::B(false)), K::F32 => ("0.375", V::F(0.375)), _ => ("77", V::N(77)),
    }
}
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn set(c: &mut Config, name: &str, value: &str) -> Option<bool> {
    let mut r = None;
    let p = panics(|| { r = Some(c.parse_record(name, value).is_ok()); });
    check(!p, "C17.panic");
    r
}
fn known(b: &[u8]) -> Option<usize> { NAMES[..N].iter().position(|n| n.as_bytes() == b) }
/// every option: one byte of its name replaced, removed or added
#[no_mangle] #[inline(never)]
pub extern "C" fn h_name() {
    merge_level(0); lut_bits(14); quiet_panics();
    let k = case(N as u64) as usize;
    let mut b = NAMES[k].as_bytes().to_vec();
    let how = concretize(range(4));
    let pos = concretize(range(b.len() as u64)) as usize;
    match how { 0 => b[pos] = bits(7) as u8, 1 => { b.remove(pos); } 3 => { b[pos] = bits(7) as u8; let q = (pos + 1) % b.len(); b[q] = bits(7) as u8; } _ => b.insert(pos, bits(7) as u8) }
    let (value, v) = sample(k);
    let mut c = Config::new();
    let ok = set(&mut c, &text(&b), value);
    let want = known(&b);
    if want == Some(k) {
        check(ok == Some(true), "C17.name.known");
        only(&c, Some(k), &v, "C17.value");
        cover("known");
    } else if want.is_none() {
        check(ok == Some(false), "C17.name.unknown");
        only(&c, None, &v, "");
        cover("unknown");
    }
}
/// integers: any text of up to 4 characters, with prefixes that reach the ends of the range
#[no_mangle] #[inline(never)]
pub extern "C" fn h_int() {
    merge_level(0); quiet_panics();
    let c = case(9 * 8) as usize;
    let k = [6, 11, 19, 8, 4, 14, 15, 16, 22][c % 9];
    let (pre, n) = [("", 1), ("", 2), ("", 3), ("2", 3), ("+", 2), ("42949672", 2), ("1844674407370955161", 1), ("184467440737095516", 3)][c / 9];
    let mut b = pre.as_bytes().to_vec();
    for _ in 0..n { b.push(bits(7) as u8); }
    let max = match k { 6 => 255u128, 11 => u32::max_value() as u128, _ => u64::max_value() as u128 };
    let mut want = 0u128;
    let mut digits = true;
    let signed = b[0] == b'+' && b.len() > 1;
    for (i, x) in b.iter().enumerate() {
        let d = x.wrapping_sub(b'0');
        if i == 0 && signed { continue; }
        digits &= d < 10;
        want = want * 10 + d as u128;
    }
    let mut cfg = Config::new();
    let ok = set(&mut cfg, NAMES[k], &text(&b));
    if ok == Some(true) {
        check(digits & (want <= max), "C17.int.accepted");
        only(&cfg, Some(k), &V::N(want as u64), "C17.int.value");
        cover("accepted");
    } else {
        check(!(digits & (want <= max)), "C17.int.refused");
        only(&cfg, None, &V::B(true), "");
        cover("refused");
    }
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bool() {
    merge_level(0); quiet_panics();
    let n = case(6) as usize;
    let b: Vec<u8> = (0..n).map(|_| bits(7) as u8).collect();
    let want = if b == b"true" { Some(true) } else if b == b"false" { Some(false) } else { None };
    let mut cfg = Config::new();
    cfg.csv_has_header = false;
    let ok = set(&mut cfg, "csv_has_header", &text(&b));
    check(ok == Some(want.is_some()), "C17.bool");
    let now = V::B(want.unwrap_or(false));
    only(&cfg, Some(5), &now, "C17.bool.value");
    cover(if want.is_some() { "true" } else { "no" });
}
/// decimal numbers over an alphabet of 16 characters
#[no_mangle] #[inline(never)]
pub extern "C" fn h_float() {
    merge_level(0); lut_bits(12); quiet_panics();
    const A: [u8; 16] = *b"0123456789.+-eE ";
    let c = case(64) as usize;
    let k = [9, 10, 12, 13, 17, 18, 20, 21][c / 8];
    let c = c % 8;
    let pre: &str = ["", "", "", "0.", "1", "-", "1e", "2.5e-"][c];
    let n = [1, 2, 3, 3, 3, 3, 2, 2][c];
    let mut b = pre.as_bytes().to_vec();
    for _ in 0..n { b.push(if c == 7 { A[concretize(range(16)) as usize] } else { pick(&A) }); }
    // grammar: sign? (digits [. digits*] | . digits) ([eE] sign? digits)?
    let mut i = 0;
    let mut neg = false;
    if b[0] == b'+' || b[0] == b'-' { neg = b[0] == b'-'; i = 1; }
    let (mut m, mut nd, mut e) = (0f64, 0, 0i32);
    while i < b.len() && b[i].is_ascii_digit() { m = m * 10.0 + (b[i] - b'0') as f64; nd += 1; i += 1; }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() { m = m * 10.0 + (b[i] - b'0') as f64; nd += 1; e -= 1; i += 1; }
    }
    let mut good = nd > 0;
    if good && i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut en = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') { en = b[i] == b'-'; i += 1; }
        let (mut x, mut xd) = (0i32, 0);
        while i < b.len() && b[i].is_ascii_digit() { x = x * 10 + (b[i] - b'0') as i32; xd += 1; i += 1; }
        good = xd > 0;
        e += if en { -x } else { x };
    }
    good &= i == b.len();
    let mut cfg = Config::new();
    let ok = set(&mut cfg, NAMES[k], &text(&b));
    check(ok == Some(good), "C17.float.accepted");
    if good && ok == Some(true) {
        let got = match get(&cfg, k) { V::F(x) => x, _ => 0.0 };
        let mut v = m;
        for _ in 0..e.abs() { v = if e < 0 { v / 10.0 } else { v * 10.0 }; }
        if neg { v = -v; }
        // the closest float: as close as its neighbours
        let d = (got as f64 - v).abs();
        let (up, down) = (f32::from_bits(got.to_bits() + 1) as f64, f32::from_bits(got.to_bits().wrapping_sub(1)) as f64);
        let tiny = v.abs() * 1e-12;
        let near = if v.abs() > 3.5e38 { got.is_infinite() } else if v == 0.0 { got == 0.0 } else if v.abs() < 1e-46 { got == 0.0 }
            else if got == 0.0 { v.abs() < 1e-45 } else if got.is_infinite() { v.abs() > 3.4e38 }
            else { d <= (up - v).abs() + tiny && d <= (down - v).abs() + tiny };
        check(near && (got.is_sign_negative() == neg), "C17.float.value");
        only(&cfg, Some(k), &V::F(got), "C17.float.stored");
        cover("accepted");
    } else {
        only(&cfg, None, &V::B(true), "");
        cover("refused");
    }
}
fn ws(x: u8) -> bool { (x >= 9) & (x <= 13) | (x == 32) }
fn trimmed(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    while !v.is_empty() && ws(v[v.len() - 1]) { v.pop(); }
    while !v.is_empty() && ws(v[0]) { v.remove(0); }
    v
}
/// whole lines: text values of any characters, spaces around name and value
#[no_mangle] #[inline(never)]
pub extern "C" fn h_line() {
    merge_level(0); quiet_panics();
    let c = case(6) as usize;
    let k = c % 3;
    let mut b = Vec::new();
    if c < 3 { b.push(pick(b" \t")); }
    b.extend_from_slice(NAMES[k].as_bytes());
    if c < 3 { b.push(pick(b" =")); b.push(bits(7) as u8); b.push(b'='); b.push(bits(7) as u8); }
    else { b.push(bits(7) as u8); b.push(bits(7) as u8); b.push(bits(7) as u8); b.push(bits(7) as u8); }
    let line = text(&b);
    let eq = b.iter().position(|x| *x == b'=');
    let name_ok = eq.map_or(false, |e| trimmed(&b[..e]) == NAMES[k].as_bytes());
    // another option could be named only by a longer line
    let res = Config::parse(vec![line.as_str()].into_iter());
    check(res.is_ok() == name_ok, "C17.line.accepted");
    if let (Ok(cfg), Some(e)) = (res, eq) {
        only(&cfg, Some(k), &V::S(text(&trimmed(&b[e + 1..]))), "C17.line.value");
        cover("line");
    }
}
/// several lines: the last one counts, one bad line refuses all
#[no_mangle] #[inline(never)]
pub extern "C" fn h_lines() {
    merge_level(0); quiet_panics();
    let a = [b'0' + range(10) as u8, b'0' + range(10) as u8];
    let bad = case(4);
    let l0 = text(&[b"niterations=", &a[..1]].concat());
    let l1 = match bad { 1 => "niterations=-1".to_string(), 2 => "nope=1".to_string(), 3 => "niterations".to_string(), _ => "reg_lambda=0.5".to_string() };
    let l2 = text(&[b" niterations = ", &a[..], b" "].concat());
    let res = Config::parse(vec![l0.as_str(), l1.as_str(), l2.as_str()].into_iter());
    check(res.is_ok() == (bad == 0), "C17.lines");
    if let Ok(c) = res {
        check(c.niterations as u64 == (a[0] - b'0') as u64 * 10 + (a[1] - b'0') as u64, "C17.lines.last");
        check(c.reg_lambda == 0.5, "C17.lines.other");
        cover("lines");
    } else { cover("bad"); }
    check(Config::parse(std::iter::empty()).is_ok(), "C17.lines.none");
}
fn split(b: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![Vec::new()];
    for &x in b { if x == b',' { r.push(Vec::new()); } else { r.last_mut().unwrap().push(x); } }
    r.iter().map(|v| trimmed(v)).collect()
}
/// lists of names and of numbers
#[no_mangle] #[inline(never)]
pub extern "C" fn h_list() {
    merge_level(0); lut_bits(12); quiet_panics();
    let c = case(10) as usize;
    let n = c % 5;
    let text_list = c / 5 == 0;
    let a: &[u8; 8] = if text_list { b"a,b l\t=r" } else { b"0,1 9\t-x" };
    let b: Vec<u8> = (0..n).map(|_| pick(a)).collect();
    let k = if text_list { 3 } else { 7 };
    let parts = split(&b);
    let mut cfg = Config::new();
    let ok = set(&mut cfg, NAMES[k], &text(&b));
    if text_list {
        check(ok == Some(true), "C17.list.accepted");
        let want = if b.is_empty() { vec![] } else { parts.iter().map(|p| text(p)).collect() };
        only(&cfg, Some(k), &V::L(want), "C17.list.value");
    } else {
        let good = b.is_empty() || parts.iter().all(|p| !p.is_empty() && p.iter().all(|x| x.is_ascii_digit()));
        check(ok == Some(good), "C17.list.accepted");
        if good {
            let want = if b.is_empty() { vec![] } else { parts.iter().map(|p| p.iter().fold(0, |s, x| s * 10 + (x - b'0') as usize)).collect() };
            only(&cfg, Some(k), &V::I(want), "C17.list.value");
        } else { only(&cfg, None, &V::B(true), ""); }
    }
    cover(if text_list { "names" } else { "numbers" });
}
entries!(h_name, h_int, h_bool, h_float, h_line, h_lines, h_list);
