//! C09: binning is order preserving; quantile lookup finds the right bin.
use bitboost::binner::Binner;
use harness::*;

const LIM: [(f32, f32); 6] = [(0.0, 1.0), (-1.0, 1.0), (0.1, 0.7), (-250.0, 1.0e6), (1.0e-3, 1.1e-3), (-3.0e37, -1.0e30)];
const NB: [usize; 6] = [1, 2, 3, 7, 10, 64];
fn f32s() -> f32 { f32::from_bits(u32s()) }

/// every float: the bin is in range and clamped outside the limits
#[no_mangle] #[inline(never)]
pub extern "C" fn h_range() {
    let c = case(36) as usize;
    let (lim, n) = (LIM[c % 6], NB[c / 6]);
    let mut v = vec![0u32; n];
    let b = Binner::new(&mut v, lim);
    let x = f32s();
    let i = b.get_bin(x);
    check(i < n, "C09.range");
    if x < lim.0 { check(i == 0, "C09.clamp_low"); }
    if x > lim.1 { check(i == n - 1, "C09.clamp_high"); }
    if x == lim.0 { check(i == 0, "C09.first"); }
    if x == lim.1 { check(i >= n - 1, "C09.last"); }
    cover("range");
}
/// values of a fine grid over (and around) the limits, or of the coarse float grid
fn some(lim: (f32, f32), grid: bool, nb: u32) -> f32 {
    let k = bits(nb) as u32;
    if grid { lim.0 + ((k as f32) / ((1u32 << nb) - 64) as f32 - 32.0 / (1u32 << nb) as f32) * (lim.1 - lim.0) } else { f32::from_bits(k << (32 - nb)) }
}
/// the bin is the one whose interval contains the value (up to rounding)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_order() {
    lut_bits(12);
    let c = case(72) as usize;
    let (lim, n, grid) = (LIM[c % 6], NB[c / 6 % 6], c / 36 == 0);
    let mut v = vec![0u32; n];
    let b = Binner::new(&mut v, lim);
    let x = some(lim, grid, 12);
    assume(!x.is_nan());
    let i = b.get_bin(x);
    check(i < n, "C09.order.range");
    let t = (x as f64 - lim.0 as f64) * n as f64 / (lim.1 as f64 - lim.0 as f64);
    if x >= lim.0 && x <= lim.1 {
        check(t >= i as f64 - 1e-2 && t <= (i + 1) as f64 + 1e-2, "C09.order.interval");
    } else { check(i == if x < lim.0 { 0 } else { n - 1 }, "C09.order.clamp"); }
    observe(i as u64);
    cover(if grid { "grid" } else { "coarse" });
}
/// all pairs of floats
#[no_mangle] #[inline(never)]
pub extern "C" fn h_monotone() {
    let c = case(12) as usize;
    let (lim, n) = (LIM[c % 6], NB[2 + c / 6 * 2]);
    let mut v = vec![0u32; n];
    let b = Binner::new(&mut v, lim);
    let x = f32::from_bits((bits(16) as u32) << 16);
    let y = f32::from_bits((bits(16) as u32) << 16);
    assume(x <= y);
    check(b.get_bin(x) <= b.get_bin(y), "C09.monotone");
    cover("monotone");
}
/// representatives: inside the limits, increasing, at the lower edge of their bin up to rounding
#[no_mangle] #[inline(never)]
pub extern "C" fn h_repr() {
    let c = case(36) as usize;
    let (lim, n) = (LIM[c % 6], NB[c / 6]);
    let mut v = vec![0u32; n];
    let b = Binner::new(&mut v, lim);
    let i = range(n as u64 + 3) as usize;
    let r = b.bin_representative(i);
    let k = i.min(n - 1);
    check(r >= lim.0 && r <= lim.1, "C09.repr.limits");
    check(k == 0 || r > b.bin_representative(k - 1), "C09.repr.increasing");
    let t = (r as f64 - lim.0 as f64) * n as f64 / (lim.1 as f64 - lim.0 as f64);
    check((t - k as f64).abs() < 1e-2, "C09.repr.edge");
    let j = b.get_bin(r);
    check(j == k || j + 1 == k, "C09.repr.bin");
    cover("repr");
}
/// one insertion changes exactly the value's bin; the total is preserved
#[no_mangle] #[inline(never)]
pub extern "C" fn h_insert() {
    lut_bits(12);
    let c = case(30) as usize;
    let (lim, n) = (LIM[c % 6], NB[c / 6]);
    let mut v: Vec<u32> = (0..n).map(|_| u32s() >> 2).collect();
    let old = v.clone();
    let d = u32s() >> 2;
    let mut b = Binner::new(&mut v, lim);
    let x = some(lim, true, 12);
    let k = concretize(b.get_bin(x) as u64) as usize;
    b.insert(x, d, |bin: &mut u32, d| *bin += d);
    for i in 0..n { check(b.bin_value(i) == old[i] + if i == k { d } else { 0 }, "C09.insert"); }
    check(b.bins_mut().len() == n, "C09.insert.len");
    cover("insert");
}
/// rank lookup for arbitrary counts
#[no_mangle] #[inline(never)]
pub extern "C" fn h_rank() {
    let n = 1 + case(5) as usize;
    let mut v: Vec<u32> = (0..n).map(|_| bits(16) as u32).collect();
    let counts = v.clone();
    let mut total = 0u32; for x in &counts { total += *x; }
    let b = Binner::new(&mut v, (0.0, 1.0));
    let r = u32s();
    assume(r <= total);
    let k = b.bin_with_rank(r, |x| *x);
    check(k < n, "C09.rank.range");
    let mut before = 0u32; let mut upto = 0u32;
    for i in 0..n { if i < k { before += counts[i]; } if i <= k { upto += counts[i]; } }
    check(before <= r, "C09.rank.before");
    if r < total { check(r < upto, "C09.rank.after"); } else { check(k == n - 1, "C09.rank.end"); }
    cover("rank");
}
/// several increasing ranks in one pass find the same bins as separate lookups
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ranks() {
    let n = 2 + case(3) as usize;
    let mut v: Vec<u32> = (0..n).map(|_| bits(8) as u32).collect();
    let counts = v.clone();
    let mut total = 0u32; for x in &counts { total += *x; }
    let b = Binner::new(&mut v, (-1.0, 1.0));
    let rs = [bits(12) as u32, bits(12) as u32, bits(12) as u32];
    assume(rs[0] <= rs[1] && rs[1] <= rs[2] && rs[2] <= total);
    let mut it = b.rank_iter(rs.iter().cloned(), |x| *x);
    for r in rs.iter() {
        let k = it.next().unwrap();
        check(k < n, "C09.ranks.range");
        let mut before = 0u32; let mut upto = 0u32;
        for i in 0..n { if i < k { before += counts[i]; } if i <= k { upto += counts[i]; } }
        check(before <= *r && (*r < upto || (*r == total && k == n - 1)), "C09.ranks");
        let (p, a) = it.accum();
        check(p == before && a == upto, "C09.ranks.accum");
    }
    check(it.next().is_none(), "C09.ranks.end");
    cover("ranks");
}
/// limits that are not an interval are refused
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() {
    quiet_panics();
    let lim = (f32s(), f32s());
    let n = concretize(range(2)) as usize;
    let mut v = vec![0u32; n];
    let bad = !lim.0.is_finite() || !lim.1.is_finite() || !(lim.0 < lim.1) || n == 0;
    check(panics(|| { Binner::new(&mut v, lim); }) == bad, "C09.refused");
    cover("refused");
}
entries!(h_range, h_order, h_monotone, h_repr, h_insert, h_rank, h_ranks, h_refused);
