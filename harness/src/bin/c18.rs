//! C18: loaded data keeps every value and derives feature limits that contain it.
use bitboost::config::Config;
use bitboost::data::{Data, FeatType};
use harness::*;

fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn load(cfg: &Config, s: &str) -> Option<Result<Data, String>> {
    let mut r = None;
    let p = panics(|| { r = Some(Data::from_csv(cfg, s)); });
    check(!p, "C18.panic");
    r
}
/// every derived fact of column `f` follows from its values
fn column(d: &Data, f: usize, want: &[f32], cat: bool, max_nbins: usize) {
    let got = d.get_feature(f);
    check(got.len() == want.len(), "C18.len");
    let mut ok = true;
    let (lo, hi) = d.feat_limits(f);
    let (mut alo, mut ahi) = (false, false);
    let mut card = 0usize;
    for i in 0..want.len() {
        ok &= got[i].to_bits() == want[i].to_bits();
        alo |= want[i] == lo; ahi |= want[i] == hi;
        ok &= (want[i] >= lo) & (want[i] <= hi);
        let c = want[i] as u32 as usize + 1;
        card = if c > card { c } else { card };
    }
    check(ok, "C18.values");
    check(alo & ahi, "C18.limits");
    if cat {
        check(d.feat_card(f) == card, "C18.card");
        let hi = card > max_nbins;
        check(d.feat_type(f) == if hi { FeatType::HiCardCat } else { FeatType::LoCardCat }, "C18.type");
        let nb = if hi { max_nbins } else if card == 1 { 0 } else if card == 2 { 1 } else { card };
        check(d.max_nbins(f) == nb, "C18.nbins");
    } else {
        check(d.feat_type(f) == FeatType::Numerical, "C18.type");
        check(d.max_nbins(f) == max_nbins, "C18.nbins");
        check(d.feat_card(f) == 0, "C18.card");
    }
}
fn config(max_nbins: usize, cats: &[usize]) -> Config {
    let mut c = Config::new();
    c.max_nbins = max_nbins;
    c.categorical_features = cats.to_vec();
    c.csv_has_header = false;
    c
}
const CATS: [&[usize]; 6] = [&[], &[0], &[1], &[0, 1], &[1, 0, 7], &[2]];
/// well-formed tables with arbitrary cells
#[no_mangle] #[inline(never)]
pub extern "C" fn h_table() {
    merge_level(0); lut_bits(13); quiet_panics();
    let c = case(6 * 4 * 2) as usize;
    let cats = CATS[c % 6];
    let max_nbins = [1, 2, 4, 16][c / 6 % 4];
    let mut cfg = config(max_nbins, cats);
    let header = c / 24 == 1;
    if header { cfg.csv_has_header = true; cfg.csv_delimiter = b';'; }
    let sep = cfg.csv_delimiter;
    let mut b = Vec::new();
    if header { b.extend_from_slice(b"x;long name;t\n"); }
    let mut cols = vec![vec![], vec![], vec![]];
    for r in 0..4 {
        for f in 0..3 {
            if f > 0 { b.push(sep); }
            let v = match (r, f) {
                (0, 0) | (1, 0) | (2, 1) | (3, 1) => { let d = pick(b"01234567"); b.push(d); (d - b'0') as f32 }
                (3, 0) => { b.extend_from_slice(b"2"); 2.0 }
                (_, 2) if !cats.contains(&2) => { b.extend_from_slice(b"-1.5"); -1.5 }
                (0, 1) if !cats.contains(&1) => { b.extend_from_slice(b"1e2"); 100.0 }
                (0, 1) => { b.extend_from_slice(b"40"); 40.0 }
                _ => { b.extend_from_slice(b"1.0"); 1.0 }
            };
            cols[f].push(v);
        }
        if r < 3 || c % 2 == 0 { b.push(b'\n'); }
        if r == 1 { b.push(b'\n'); }
    }
    let d = match load(&cfg, &text(&b)) { Some(Ok(d)) => d, _ => { check(false, "C18.table.refused"); return; } };
    check(d.nfeatures() == 2 && d.nexamples() == 4 && d.target_id() == 2, "C18.shape");
    for f in 0..3 { column(&d, f, &cols[f], cats.contains(&f), max_nbins); }
    let mut ok = true;
    for i in 0..4 { ok &= d.get_target()[i].to_bits() == cols[2][i].to_bits(); }
    check(ok, "C18.target");
    let names = if header { ["x", "long name", "t"] } else { ["", "", ""] };
    for f in 0..3 { check(d.feat_name(f) == names[f], "C18.names"); }
    cover(if header { "header" } else { "table" });
}
/// one cell: digits* [. digits*], optional sign
fn number(s: &[u8]) -> Option<f32> {
    let (neg, s) = match s.first() { Some(b'-') => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    let (mut m, mut n, mut e, mut dot) = (0f32, 0, 1f32, false);
    for &x in s {
        if x == b'.' && !dot { dot = true; }
        else if x.is_ascii_digit() { m = m * 10.0 + (x - b'0') as f32; n += 1; if dot { e *= 10.0; } }
        else { return None; }
    }
    if n == 0 { return None; }
    let v = m / e;
    Some(if neg { -v } else { v })
}
/// any text of a few characters: parsed as an independent reading of it says, or refused
#[no_mangle] #[inline(never)]
pub extern "C" fn h_text() {
    merge_level(0); lut_bits(12); quiet_panics();
    let c = case(10 * 3) as usize;
    let (pre, n, post): (&str, usize, &str) = [("", 0, ""), ("", 1, ""), ("", 2, ""), ("", 4, ""), ("1,2\n", 4, ""), ("1,2\n", 3, "0,1\n"), ("3", 4, "2"),
        ("1,2,0\n4,", 4, ""), ("5,5\n", 2, "5,5"), ("\n\n1", 3, "\n\n")][c % 10];
    let cats: &[usize] = [&[][..], &[0][..], &[0, 1, 2][..]][c / 10];
    let mut b = pre.as_bytes().to_vec();
    for _ in 0..n { b.push(pick(b"1,\n.-7a ")); }
    b.extend_from_slice(post.as_bytes());
    let mut rows: Vec<Vec<f32>> = Vec::new();
    let mut good = true;
    for line in b.split(|x| *x == b'\n') {
        if line.is_empty() { continue; }
        let mut row = Vec::new();
        for (f, cell) in line.split(|x| *x == b',').enumerate() {
            match number(cell) {
                Some(v) => { if cats.contains(&f) && (v < 0.0 || v != v.floor()) { good = false; } row.push(v) }
                None => good = false,
            }
        }
        if !rows.is_empty() && good && rows[0].len() != row.len() { good = false; }
        rows.push(row);
    }
    good &= !rows.is_empty();
    let r = load(&config(2, cats), &text(&b));
    let r = match r { Some(r) => r, None => return };
    check(r.is_ok() == good, "C18.text.accepted");
    if let Ok(d) = r {
        if !good { return; }
        check(d.nexamples() == rows.len() && d.nfeatures() + 1 == rows[0].len(), "C18.shape");
        for f in 0..rows[0].len() {
            let col: Vec<f32> = rows.iter().map(|r| r[f]).collect();
            column(&d, f, &col, cats.contains(&f), 2);
        }
        cover("accepted");
    } else { cover("refused"); }
}
fn f32s() -> f32 { f32::from_bits(u32s()) }
/// raw columns: any finite floats, numerical or categorical, replacing an earlier column
#[no_mangle] #[inline(never)]
pub extern "C" fn h_column() {
    merge_level(0); quiet_panics();
    let c = case(8) as usize;
    let max_nbins = [1, 4][c % 2];
    let earlier = c / 2;
    let cfg = config(max_nbins, &[]);
    let mut d = Data::empty(&cfg, 2, 2);
    let old: [f32; 2] = match earlier { 0 => [0.0, 0.0], 1 => [-8.0, 1e9], 2 => [7.0, 3.0], _ => [1.0, 0.0] };
    let old_cat = earlier >= 2;
    if earlier > 0 { check(d.set_feature_data(1, &old, old_cat).is_ok(), "C18.column.set"); }
    let v = [f32s(), f32s()];
    assume(v[0].is_finite() && v[1].is_finite());
    let before = d.feat_limits(1);
    check(d.set_feature_data(1, &v, false).is_ok(), "C18.column.refused");
    let _ = before;
    column(&d, 1, &v, false, max_nbins);
    column(&d, 0, &[0.0, 0.0], false, max_nbins);
    column(&d, 2, &[0.0, 0.0], false, max_nbins);
    cover("column");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_categories() {
    merge_level(0); quiet_panics();
    let c = case(8) as usize;
    let max_nbins = [1, 4][c % 2];
    let earlier = c / 2;
    let cfg = config(max_nbins, &[]);
    let mut d = Data::empty(&cfg, 2, 2);
    let old: [f32; 2] = match earlier { 0 => [0.0, 0.0], 1 => [-8.0, 1e9], 2 => [7.0, 3.0], _ => [1.0, 0.0] };
    let old_cat = earlier >= 2;
    if earlier > 0 { check(d.set_feature_data(1, &old, old_cat).is_ok(), "C18.column.set"); }
    let v = [f32s(), [0.0, 2.0, 5.0][c % 3]];
    let ok = d.set_feature_data(1, &v, true).is_ok();
    let good = v[0] >= 0.0 && v[0] < 4294967296.0 && v[0].trunc() == v[0];
    check(ok == good, "C18.category.accepted");
    if good { column(&d, 1, &v, true, max_nbins); cover("accepted"); }
    else { column(&d, 1, &old, old_cat, max_nbins); cover("refused"); }
    column(&d, 0, &[0.0, 0.0], false, max_nbins);
}
/// the target column and columns set one after another do not disturb each other
#[no_mangle] #[inline(never)]
pub extern "C" fn h_columns() {
    merge_level(0); lut_bits(12); quiet_panics();
    let c = case(12) as usize;
    let cfg = config([2, 3][c % 2], &[]);
    let order = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][c / 2 % 3];
    let mut d = Data::empty(&cfg, 2, 4);
    let mut cols = vec![vec![0.0; 4]; 3];
    let cat = [c / 6 == 0, c / 6 == 1, false];
    for (k, &f) in order.iter().enumerate() {
        for i in 0..4 { cols[f][i] = if (i + k) % 2 == 0 { bits(2) as f32 } else { [3.0, 0.0, 1.0][k] }; }
        check(d.set_feature_data(f, &cols[f], cat[f]).is_ok(), "C18.columns.set");
    }
    for f in 0..3 { column(&d, f, &cols[f], cat[f], cfg.max_nbins); }
    check(d.nfeatures() == 2 && d.nexamples() == 4 && d.target_id() == 2, "C18.shape");
    let mut ok = true;
    for i in 0..4 { ok &= d.get_target()[i] == cols[2][i]; }
    check(ok, "C18.target");
    cover("columns");
}
entries!(h_table, h_text, h_column, h_categories, h_columns);
