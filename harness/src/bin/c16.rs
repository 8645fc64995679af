//! C16: metrics compute their documented value for every input.
use bitboost::metric::*;
use harness::*;

const NAMES: [&str; 8] = ["l2", "rmse", "binaryloss", "binary_loss", "binaryerror", "binary_error", "binaryerror01", "binary_error01"];
fn m(name: &str) -> Box<dyn Metric> { match metric_from_name(name) { Some(m) => m, None => { check(false, "C16.documented"); unreachable!() } } }
fn f32s() -> f32 { f32::from_bits(u32s()) }
fn close(a: f32, b: f64, rel: f64, abs: f64) -> bool { let d = a as f64 - b; (d <= abs) & (d >= -abs) | (d <= rel * b.abs()) & (d >= -rel * b.abs()) }
/// one example, every float
#[no_mangle] #[inline(never)]
pub extern "C" fn h_one() {
    merge_level(0);
    let (t, p) = (f32s(), f32s());
    assume(t.is_finite() && p.is_finite());
    let l2 = m("l2").eval(&[t], &[p]);
    check(l2.to_bits() == ((t - p) * (t - p)).to_bits(), "C16.l2");
    let r = m("rmse").eval(&[t], &[p]);
    check(r.to_bits() == l2.sqrt().to_bits(), "C16.rmse");
    let e = m("binary_error").eval(&[t], &[p]);
    check((e == 1.0) == ((t < 0.5) != (p < 0.0)) && (e == 0.0 || e == 1.0), "C16.binary_error");
    let e = m("binary_error01").eval(&[t], &[p]);
    check((e == 1.0) == ((t < 0.5) != (p < 0.5)) && (e == 0.0 || e == 1.0), "C16.binary_error01");
    cover("one");
}
/// perfect predictions have no error
#[no_mangle] #[inline(never)]
pub extern "C" fn h_perfect() {
    merge_level(0);
    let (t, u) = (f32s(), f32s());
    assume(t.is_finite() && u.is_finite());
    let ts = [t, u];
    check(m("l2").eval(&ts, &ts) == 0.0, "C16.perfect.l2");
    check(m("rmse").eval(&ts, &ts) == 0.0, "C16.perfect.rmse");
    check(m("binary_error01").eval(&ts, &ts) == 0.0, "C16.perfect.error01");
    cover("perfect");
}
/// the logistic loss of one example over a fine grid of predictions
#[no_mangle] #[inline(never)]
pub extern "C" fn h_loss() {
    merge_level(0);
    lut_bits(13);
    let t = case(2) as f32;
    let big = case(3);
    let k = bits(12) as f32;
    let p = match big { 0 => (k - 2048.0) / 256.0, 1 => (k - 2048.0) / 16.0, _ => (k - 2048.0) * 1e30 };
    let v = m("binary_loss").eval(&[t], &[p]);
    let y = 2.0 * t as f64 - 1.0;
    let x = -2.0 * y * p as f64;
    let want = if x > 40.0 { x } else if x < -40.0 { 0.0 } else { (1.0 + x.exp()).ln() };
    check(v >= 0.0, "C16.loss.sign");
    check(v.is_finite(), "C16.loss.finite");
    check(close(v, want, 1e-4, 1e-5), "C16.loss.value");
    cover("loss");
}
/// several examples: the mean over all of them
#[no_mangle] #[inline(never)]
pub extern "C" fn h_mean() {
    merge_level(0);
    lut_bits(13);
    let n = 1 + case(6) as usize;
    let kind = case(5) as usize;
    let b = [12, 6, 4, 3, 2, 2][n - 1];
    let mut ts = Vec::new();
    let mut ps = Vec::new();
    for i in 0..n {
        let v = bits(b) as f32;
        let t = if i % 2 == 0 { 1.0 } else { 0.0 };
        ts.push(t);
        ps.push(if n == 1 { (v - 2048.0) / 512.0 } else { (v - (1u32 << (b - 1)) as f32) * 0.75 + i as f32 * 0.125 });
    }
    let v = m(["l2", "rmse", "binaryloss", "binaryerror", "binaryerror01"][kind]).eval(&ts, &ps);
    let mut sum = 0f64;
    for i in 0..n {
        let (t, p) = (ts[i] as f64, ps[i] as f64);
        sum += match kind {
            0 | 1 => (t - p) * (t - p),
            2 => (1.0 + (-2.0 * (2.0 * t - 1.0) * p).exp()).ln(),
            3 => if (t < 0.5) == (p < 0.0) { 0.0 } else { 1.0 },
            _ => if (t < 0.5) == (p < 0.5) { 0.0 } else { 1.0 },
        };
    }
    let mut want = sum / n as f64;
    if kind == 1 { want = want.sqrt(); }
    check(close(v, want, 1e-5, 1e-6), "C16.mean");
    check(v >= 0.0 && (kind < 3 || v <= 1.0), "C16.mean.range");
    cover("mean");
}
/// names: documented ones in any case, nothing else
#[no_mangle] #[inline(never)]
pub extern "C" fn h_names() {
    merge_level(0);
    lut_bits(8);
    let c = case(NAMES.len() as u64) as usize;
    let mut b = NAMES[c].as_bytes().to_vec();
    let pos = concretize(range(b.len() as u64)) as usize;
    b[pos] = bits(7) as u8;
    let s = String::from_utf8(b.clone()).unwrap();
    let lower: Vec<u8> = b.iter().map(|x| if (*x >= b'A') & (*x <= b'Z') { x + 32 } else { *x }).collect();
    let known = NAMES.iter().any(|n| n.as_bytes() == &lower[..]);
    let got = metric_from_name(&s);
    check(got.is_some() == known, "C16.name.known");
    if let Some(g) = got {
        let want = match NAMES.iter().position(|n| n.as_bytes() == &lower[..]).unwrap() { 0 => "L2", 1 => "Rmse", 2 | 3 => "BinaryLoss", 4 | 5 => "BinaryError", _ => "BinaryError01" };
        check(g.name() == want, "C16.name.right");
        check(metrics_from_names(&["rmse".to_string(), s.clone()]).map_or(false, |v| v.len() == 2 && v[0].name() == "Rmse" && v[1].name() == want), "C16.names");
    } else {
        check(metrics_from_names(&["rmse".to_string(), s]).is_none(), "C16.names.unknown");
    }
    check(metrics_from_names(&[]).map_or(false, |v| v.is_empty()), "C16.names.none");
    for (o, w) in [("l2", "Rmse"), ("L1", "Rmse"), ("huber", "Rmse"), ("Binary", "BinaryLoss")].iter() {
        check(metric_for_objective(o).map_or(false, |x| x.name() == *w), "C16.objective");
    }
    cover("names");
}
entries!(h_one, h_perfect, h_loss, h_mean, h_names);
