//! C03: quantised codes survive storage at every bit width.
use bitboost::bitblock::*;
use bitboost::slice_store as ss;
use bitboost::slice_store::{BitBlockStore, BitSliceLayout};
use bitboost::bitslice as bs;
use harness::*;

const SB: usize = 2; // blocks of 256 examples per slice

macro_rules! widths { ($w:expr, $f:ident $(, $a:expr)*) => { match $w { 0 => $f::<ss::BitSliceLayout1>($($a),*), 1 => $f::<ss::BitSliceLayout2>($($a),*), 2 => $f::<ss::BitSliceLayout4>($($a),*), _ => $f::<ss::BitSliceLayout8>($($a),*) } } }
macro_rules! widths2 { ($w:expr, $f:ident $(, $a:expr)*) => { match $w { 0 => $f::<bs::BitsliceLayout1>($($a),*), 1 => $f::<bs::BitsliceLayout2>($($a),*), 2 => $f::<bs::BitsliceLayout4>($($a),*), _ => $f::<bs::BitsliceLayout8>($($a),*) } } }
fn mask(w: usize) -> u8 { if w == 8 { 255 } else { (1u8 << w) - 1 } }

fn stored<L: BitSliceLayout>() {
    let w = L::width();
    let mut st = BitBlockStore::new(64);
    let a = st.alloc_zero_bitslice::<L>(100);
    let r = st.alloc_zero_bitslice::<L>(SB * 256);
    let b = st.alloc_one_bits(300);
    for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = u64s(); }
    let i = range(SB as u64 * 256) as usize;
    let j = range(SB as u64 * 256) as usize;
    let v = u8s() & mask(w);
    let old = st.get_bitslice::<L>(r).get_value(j);
    st.get_bitslice_mut::<L>(r).set_value(i, v);
    let s = st.get_bitslice::<L>(r);
    let now = s.get_value(j);
    check(now == (if i == j { v } else { old }), "C03.stored");
    check(now <= mask(w), "C03.stored.range");
    let mut d = 0; for x in st.get_bitvec(a).cast::<u64>() { d |= *x; }
    check(d == 0 && st.get_bitvec(b).get_bit(299) && !st.get_bitvec(b).get_bit(300), "C03.stored.neighbour");
    observe(now as u64);
    cover("stored");
}
/// one write into a slice of arbitrary content: only that example's code changes
#[no_mangle] #[inline(never)]
pub extern "C" fn h_stored() { let c = case(4); widths!(c, stored); }

fn lay<L: BitSliceLayout>() { // every lane of get_value is the documented bit of the superblock
    let w = L::width();
    let mut st = BitBlockStore::new(32);
    let r = st.alloc_zero_bitslice::<L>(SB * 256);
    for x in st.get_bitvec_mut(r).cast_mut::<u64>() { *x = u64s(); }
    let j = range(SB as u64 * 256) as usize;
    let v = st.get_bitslice::<L>(r).get_value(j);
    // width w: superblocks of 8 words of 32 bits, 8/w consecutive words per lane
    let word = j / 32; let per = 8 / w;
    let mut e = 0u8;
    for k in 0..w { if st.get_bitvec(r).get_bit(((word / per) * 8 + k * per + word % per) * 32 + j % 32) { e |= 1 << k; } }
    check(v == e, "C03.layout");
    cover("layout");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_layout() { let c = case(4); widths!(c, lay); }

fn other<L: bs::BitsliceLayout>() {
    let w = L::width();
    let mut bl = BitBlocks::zero_blocks(SB * w);
    for x in bl.cast_mut::<u64>() { *x = u64s(); }
    let i = range(SB as u64 * 256) as usize;
    let j = range(SB as u64 * 256) as usize;
    let v = u8s() & mask(w);
    let mut s = bs::BitsliceWithLayout::<_, L>::for_bitblocks(bl);
    let old = s.get_value(j);
    // the code is spread over the lanes of its block
    let lane = range(w as u64) as usize;
    let blk = s.get_block(j / 32, lane);
    check(bit(old as u64, lane) == ((blk >> (j % 32)) & 1 == 1), "C03.lanes");
    check(unsafe { s.get_block_unchecked(j / 32, lane) } == blk, "C03.lanes_unchecked");
    s.set_value(i, v);
    let now = s.get_value(j);
    check(now == (if i == j { v } else { old }), "C03.bitslice");
    // the mutable lane accessors address the same word
    let x = u32s();
    if flag() { *s.get_block_mut(j / 32, lane) = x; } else { unsafe { *s.get_block_unchecked_mut(j / 32, lane) = x; } }
    check(s.get_block(j / 32, lane) == x, "C03.lane_mut");
    let k = range(SB as u64 * 256) as usize;
    let _ = k;
    observe(now as u64);
    cover("bitslice");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bitslice() { let c = case(4); widths2!(c, other); }

fn refused<L: BitSliceLayout>() {
    let mut st = BitBlockStore::new(32);
    let r = st.alloc_zero_bitslice::<L>(SB * 256);
    let i = SB * 256 + range(1 << 34) as usize;
    if flag() { let s = st.get_bitslice::<L>(r); check(panics(|| { s.get_value(i); }), "C03.refused.get"); }
    else { let mut s = st.get_bitslice_mut::<L>(r); check(panics(|| { s.set_value(i, 1); }), "C03.refused.set"); }
    cover("refused");
}
fn refused2<L: bs::BitsliceLayout>() {
    let mut s = bs::Bitslice::new();
    let mut s = s.with_layout_mut::<L>();
    s.resize(SB * 256 - 3);
    let i = SB * 256 + range(1 << 34) as usize;
    if flag() { check(panics(|| { s.get_value(i); }), "C03.refused.get2"); }
    else { check(panics(|| { s.set_value(i, 1); }), "C03.refused.set2"); }
    cover("refused");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refused() { quiet_panics(); let c = case(8); if c < 4 { widths!(c, refused) } else { widths2!(c - 4, refused2) } }

fn copy<L: BitSliceLayout>() {
    let w = L::width();
    let mut st = BitBlockStore::new(64);
    let a = st.alloc_zero_bitslice::<L>(SB * 256);
    let b = st.alloc_zero_bitslice::<L>(SB * 256);
    for x in st.get_bitvec_mut(a).cast_mut::<u64>() { *x = u64s(); }
    for x in st.get_bitvec_mut(b).cast_mut::<u64>() { *x = u64s(); }
    let (from, to) = (range(SB as u64 * 8) as usize, range(SB as u64 * 8) as usize);
    let j = range(SB as u64 * 256) as usize;
    let old_b = st.get_bitslice::<L>(b).get_value(j);
    let src = st.get_bitslice::<L>(a).get_value(from * 32 + j % 32);
    let same = st.get_bitslice::<L>(a).get_value(j);
    { let (x, mut y) = st.get_two_bitslices_mut::<L>(a, b); y.copy_block_from::<u32, _>(&x, from, to); }
    let now = st.get_bitslice::<L>(b).get_value(j);
    check(now == (if j / 32 == to { src } else { old_b }), "C03.copy");
    check(st.get_bitslice::<L>(a).get_value(j) == same, "C03.copy.source");
    let _ = w;
    observe(now as u64);
    cover("copy");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_copy() { let c = case(4); widths!(c, copy); }

const BOUNDS: [(f32, f32); 6] = [(0.0, 1.0), (-2.5, 3.25), (-1.0, 1.0), (-0.1, 0.7), (1.0e-3, 1.0e20), (-1.0e-30, 0.0)];
/// any 32-bit float, or (how 1) any whose lower 16 bits are zero
fn val(how: u64) -> f32 { f32::from_bits(if how == 1 { (bits(16) as u32) << 16 } else { u32s() }) }
fn quant<L: BitSliceLayout>(c: usize, how: u64) {
    let (lo, hi) = BOUNDS[c];
    let top = mask(L::width());
    let mut st = BitBlockStore::new(16);
    let r = st.alloc_zero_bitslice::<L>(64);
    let mut s = st.get_bitslice_mut::<L>(r);
    let v = val(how);
    let q = s.set_scaled_value(17, v, (lo, hi));
    check(q <= top, "C03.quant.range");
    check(s.get_value(17) == q, "C03.quant.stored");
    if v >= hi { check(q == top, "C03.quant.high"); }
    if v <= lo { check(q == 0, "C03.quant.low"); }
    if how > 0 {
        let u = val(how);
        assume(u <= v);
        let p = s.set_scaled_value(17, u, (lo, hi));
        check(p <= q, "C03.quant.monotone");
    }
    observe(q as u64);
    cover("quant");
}
fn quant2<L: bs::BitsliceLayout>(c: usize, how: u64) {
    let (lo, hi) = BOUNDS[c];
    let top = mask(L::width());
    let mut s = bs::Bitslice::new();
    let mut s = s.with_layout_mut::<L>();
    s.resize(64);
    let v = val(how);
    let q = s.set_scaled_value(17, v, (lo, hi));
    check(q <= top, "C03.quant2.range");
    check(s.get_value(17) == q, "C03.quant2.stored");
    if v >= hi { check(q == top, "C03.quant2.high"); }
    if v <= lo { check(q == 0, "C03.quant2.low"); }
    if how > 0 {
        let u = val(how);
        assume(u <= v);
        let p = s.set_scaled_value(17, u, (lo, hi));
        check(p <= q, "C03.quant2.monotone");
    }
    observe(q as u64);
    cover("quant");
}
fn quants(c: usize, how: u64) { let (c, b) = (c % 8, c / 8); if c < 4 { widths!(c % 4, quant, b, how) } else { widths2!(c % 4, quant2, b, how) } }
/// quantising every 32-bit float
#[no_mangle] #[inline(never)]
pub extern "C" fn h_quant() { quants(case(16) as usize, 0) }
/// order preservation over all pairs of 16-bit floats
#[no_mangle] #[inline(never)]
pub extern "C" fn h_monotone() { quants(case(16) as usize, 1) }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_quant_all() { quants(16 + case(32) as usize, 0) }
#[no_mangle] #[inline(never)]
pub extern "C" fn h_monotone_all() { quants(case(48) as usize, 2) }

/// the representative of a code quantises back to the code, and representatives are the
/// equally spaced values between the bounds
#[no_mangle] #[inline(never)]
pub extern "C" fn h_roundtrip() {
    fn f<L: BitSliceLayout>(c: usize) {
        let (lo, hi) = BOUNDS[c];
        let top = mask(L::width());
        let mut st = BitBlockStore::new(16);
        let r = st.alloc_zero_bitslice::<L>(64);
        let mut s = st.get_bitslice_mut::<L>(r);
        let q = u8s() & top;
        s.set_value(40, q);
        let v = s.get_scaled_value(40, (lo, hi));
        let e = (q as f32 / top as f32) * (hi - lo) + lo;
        check(v == e, "C03.scaled");
        let p = s.set_scaled_value(41, v, (lo, hi));
        check(p == q, "C03.roundtrip");
        observe_f(v); observe(p as u64);
        cover("roundtrip");
    }
    let c = case(24) as usize;
    widths!(c % 4, f, c / 4);
}
entries!(h_stored, h_layout, h_bitslice, h_refused, h_copy, h_quant, h_monotone, h_quant_all, h_monotone_all, h_roundtrip);
