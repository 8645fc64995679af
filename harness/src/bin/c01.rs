//! C01: a bit operation reads and changes exactly the addressed bit.
use bitboost::bitblock::*;
use bitboost::bitset::Bitset;
use bitboost::slice_store::BitBlockStore;
use harness::*;

fn any(n: usize) -> Vec<u64> { (0..n).map(|_| u64s()).collect() }
fn rd(w: &[u64], i: usize) -> bool { (w[i / 64] >> (i % 64)) & 1 == 1 }
/// w with bit i set to b
fn wr(w: &[u64], i: usize, b: bool) -> Vec<u64> {
    let mut r = w.to_vec();
    for k in 0..r.len() {
        let m = if i / 64 == k { 1u64 << (i % 64) } else { 0 };
        r[k] = if b { r[k] | m } else { r[k] & !m };
    }
    r
}
fn same(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// little-endian views of the same bits
fn views(w: &[u64], u8s_: &[u8], u16s: &[u16], u32s_: &[u32], u128s: &[u128]) -> bool {
    let mut d = 0u64;
    if u8s_.len() != 8 * w.len() || u16s.len() != 4 * w.len() || u32s_.len() != 2 * w.len() || 2 * u128s.len() != w.len() { return false; }
    for i in 0..u8s_.len() { d |= (w[i / 8] >> (8 * (i % 8))) as u8 as u64 ^ u8s_[i] as u64; }
    for i in 0..u16s.len() { d |= (w[i / 4] >> (16 * (i % 4))) as u16 as u64 ^ u16s[i] as u64; }
    for i in 0..u32s_.len() { d |= (w[i / 2] >> (32 * (i % 2))) as u32 as u64 ^ u32s_[i] as u64; }
    for i in 0..u128s.len() { d |= w[2 * i] ^ u128s[i] as u64; d |= w[2 * i + 1] ^ (u128s[i] >> 64) as u64; }
    d == 0
}

/// one operation at an arbitrary position of an arbitrary 256-bit block
#[no_mangle] #[inline(never)]
pub extern "C" fn h_block() {
    let w = any(4);
    let mut bb = BitBlock::from_4u64(w[0], w[1], w[2], w[3]);
    check(same(bb.cast::<u64>(), &w), "C01.block.from_4u64");
    check(views(&w, bb.cast(), bb.cast(), bb.cast(), bb.cast()), "C01.block.views");
    let mut pop = 0;
    for x in &w { pop += x.count_ones(); }
    check(bb.count_ones() == pop, "C01.block.count_ones");
    check(bb.is_zero() == (w[0] | w[1] | w[2] | w[3] == 0), "C01.block.is_zero");
    let i = range(256) as usize;
    check(bb.get_bit(i) == rd(&w, i), "C01.block.get_bit");
    let (w2, id) = match case(4) {
        0 => { bb.enable_bit(i); (wr(&w, i, true), "C01.block.enable_bit") }
        1 => { bb.disable_bit(i); (wr(&w, i, false), "C01.block.disable_bit") }
        2 => { bb.set_bit(i, true); (wr(&w, i, true), "C01.block.set_bit1") }
        _ => { bb.set_bit(i, false); (wr(&w, i, false), "C01.block.set_bit0") }
    };
    check(same(bb.cast::<u64>(), &w2), id);
    let k = range(256) as usize;
    check(bb.get_bit(k) == rd(&w2, k), "C01.block.get_after");
    observe(bb.cast::<u64>()[0]);
    observe(bb.get_bit(k) as u64);
    cover("block");
}

/// writes through a wider or narrower view are seen through every other view
#[no_mangle] #[inline(never)]
pub extern "C" fn h_block_views() {
    let w = any(4);
    let mut bb = BitBlock::from_4u64(w[0], w[1], w[2], w[3]);
    let v = u64s();
    let mut e = w.clone();
    match case(4) {
        0 => { let i = range(32) as usize; bb.cast_mut::<u8>()[i] = v as u8; let s = 8 * (i % 8); for k in 0..4 { if k == i / 8 { e[k] = (e[k] & !(0xffu64 << s)) | ((v & 0xff) << s); } } }
        1 => { let i = range(16) as usize; bb.cast_mut::<u16>()[i] = v as u16; let s = 16 * (i % 4); for k in 0..4 { if k == i / 4 { e[k] = (e[k] & !(0xffffu64 << s)) | ((v & 0xffff) << s); } } }
        2 => { let i = range(8) as usize; bb.cast_mut::<u32>()[i] = v as u32; let s = 32 * (i % 2); for k in 0..4 { if k == i / 2 { e[k] = (e[k] & !(0xffff_ffffu64 << s)) | ((v & 0xffff_ffff) << s); } } }
        _ => { let i = range(4) as usize; bb.cast_mut::<u64>()[i] = v; for k in 0..4 { if k == i { e[k] = v; } } }
    }
    check(same(bb.cast::<u64>(), &e), "C01.block.write_view");
    check(views(&e, bb.cast(), bb.cast(), bb.cast(), bb.cast()), "C01.block.views_after");
    for i in 0..256 { check(bb.get_bit(i) == rd(&e, i), "C01.block.get_after_view"); }
    cover("views");
}

/// the generic helpers on u8/u32/u64
#[no_mangle] #[inline(never)]
pub extern "C" fn h_words() {
    let v = u64s();
    let b = flag();
    let k = case(3);
    let n = [8u64, 32, 64][k as usize];
    let p = range(n) as u8;
    let m = 1u64 << p;
    let full = if n == 64 { u64::max_value() } else { (1u64 << n) - 1 };
    let (g, e, d, s) = match k {
        0 => { let x = v as u8; (get_bit(x, p), enable_bit(x, p) as u64, disable_bit(x, p) as u64, set_bit(x, p, b) as u64) }
        1 => { let x = v as u32; (get_bit(x, p), enable_bit(x, p) as u64, disable_bit(x, p) as u64, set_bit(x, p, b) as u64) }
        _ => (get_bit(v, p), enable_bit(v, p), disable_bit(v, p), set_bit(v, p, b)),
    };
    let x = v & full;
    check(g == (x & m != 0), "C01.word.get");
    check(e == x | m, "C01.word.enable");
    check(d == x & !m, "C01.word.disable");
    check(s == if b { x | m } else { x & !m }, "C01.word.set");
    let i = range(1 << 40) as usize;
    check(get_blockpos::<u8>(i) == i >> 3 && get_bitpos::<u8>(i) as usize == i & 7, "C01.pos.u8");
    check(get_blockpos::<u32>(i) == i >> 5 && get_bitpos::<u32>(i) as usize == i & 31, "C01.pos.u32");
    check(get_blockpos::<u64>(i) == i >> 6 && get_bitpos::<u64>(i) as usize == i & 63, "C01.pos.u64");
    cover("words");
}

const SIZES: [usize; 6] = [1, 255, 256, 257, 512, 700];

/// bit sets: arbitrary contents, one arbitrary operation at an arbitrary position (so: any sequence of them)
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bitset() {
    let c = case(12) as usize;
    let n = SIZES[c % 6];
    let nb = (n + 255) / 256;
    let mut w = any(4 * nb);
    let mut bs = if c < 6 { Bitset::zeros(n) } else { Bitset::ones(n) };
    check(bs.len() == nb, "C01.bitset.nblocks");
    for k in 0..w.len() { bs.cast_mut::<u64>()[k] = w[k]; }
    {
        let i = range(n as u64) as usize;
        let b = flag();
        match range(3) {
            0 => { bs.set_bit(i, b); w = wr(&w, i, b); check(same(bs.cast::<u64>(), &w), "C01.bitset.set_bit"); }
            1 => { bs.enable_bit(i); w = wr(&w, i, true); check(same(bs.cast::<u64>(), &w), "C01.bitset.enable_bit"); }
            _ => { bs.disable_bit(i); w = wr(&w, i, false); check(same(bs.cast::<u64>(), &w), "C01.bitset.disable_bit"); }
        }
    }
    let k = range(256 * nb as u64) as usize;
    check(bs.get_bit(k) == rd(&w, k), "C01.bitset.get_bit");
    let j = range(8 * nb as u64) as usize;
    check(*bs.get::<u32>(j) == (w[j / 2] >> (32 * (j % 2))) as u32, "C01.bitset.get_u32");
    let v = u32s();
    bs.set::<u32>(j, v);
    check(*bs.get::<u32>(j) == v, "C01.bitset.set_u32");
    check(*bs.get::<u32>(j ^ 1) == (w[j / 2] >> (32 * ((j ^ 1) % 2))) as u32, "C01.bitset.set_u32_other");
    observe(bs.get_bit(k) as u64);
    cover("bitset");
}

/// out-of-range positions are refused and nothing changes
#[no_mangle] #[inline(never)]
pub extern "C" fn h_refuse() {
    quiet_panics();
    let nb = 1 + range(2) as usize;
    let w = any(4 * nb);
    let i = 256 * nb + range(1 << 34) as usize;
    match case(3) {
        0 => {
            let mut bs = Bitset::zeros(256 * nb);
            for k in 0..w.len() { bs.cast_mut::<u64>()[k] = w[k]; }
            let p = match range(5) {
                0 => panics(|| { bs.get_bit(i); }),
                1 => panics(|| bs.set_bit(i, true)),
                2 => panics(|| bs.enable_bit(i)),
                3 => panics(|| bs.disable_bit(i)),
                _ => panics(|| bs.set::<u32>(i / 32, 7)),
            };
            check(p, "C01.refuse.bitset");
            check(same(bs.cast::<u64>(), &w), "C01.refuse.bitset_unchanged");
        }
        1 => {
            let mut st = BitBlockStore::new(8);
            let before = st.alloc_one_bits(256);
            let r = st.alloc_zero_bits(256 * nb);
            let after = st.alloc_one_bits(256);
            for k in 0..w.len() { st.get_bitvec_mut(r).cast_mut::<u64>()[k] = w[k]; }
            let p = match range(4) {
                0 => panics(|| { st.get_bitvec(r).get_bit(i); }),
                1 => panics(|| st.get_bitvec_mut(r).set_bit(i, true)),
                2 => panics(|| st.get_bitvec_mut(r).enable_bit(i)),
                _ => panics(|| st.get_bitvec_mut(r).set::<u32>(i / 32, 7)),
            };
            check(p, "C01.refuse.bitvec");
            check(same(st.get_bitvec(r).cast::<u64>(), &w), "C01.refuse.bitvec_unchanged");
            for &o in &[before, after] { for k in 0..4 { check(st.get_bitvec(o).cast::<u64>()[k] == u64::max_value(), "C01.refuse.neighbour"); } }
        }
        _ => {
            let mut bb = BitBlock::from_4u64(w[0], w[1], w[2], w[3]);
            let i = 256 + range(1 << 34) as usize;
            let p = match range(4) {
                0 => panics(|| { bb.get_bit(i); }),
                1 => panics(|| bb.set_bit(i, true)),
                2 => panics(|| bb.enable_bit(i)),
                _ => panics(|| bb.disable_bit(i)),
            };
            check(p, "C01.refuse.block");
            check(same(bb.cast::<u64>(), &w[0..4]), "C01.refuse.block_unchanged");
        }
    }
    cover("refuse");
}

/// block-backed bit vectors inside a store: the operation touches this vector only
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bitvec() {
    let n = SIZES[case(6) as usize];
    let nb = (n + 255) / 256;
    let mut w = any(4 * nb);
    let mut st = BitBlockStore::new(2);
    let before = st.alloc_one_bits(512);
    let r = st.alloc_zero_bits(n);
    let after = st.alloc_one_bits(256);
    for k in 0..w.len() { st.get_bitvec_mut(r).cast_mut::<u64>()[k] = w[k]; }
    let i = range(n as u64) as usize;
    let b = flag();
    if flag() { st.get_bitvec_mut(r).set_bit(i, b); w = wr(&w, i, b); }
    else { st.get_bitvec_mut(r).enable_bit(i); w = wr(&w, i, true); }
    let v = st.get_bitvec(r);
    check(same(v.cast::<u64>(), &w), "C01.bitvec.write");
    check(views(&w, v.cast(), v.cast(), v.cast(), v.cast()), "C01.bitvec.views");
    let k = range(256 * nb as u64) as usize;
    check(v.get_bit(k) == rd(&w, k), "C01.bitvec.get_bit");
    let j = range(8 * nb as u64) as usize;
    check(*v.get::<u32>(j) == (w[j / 2] >> (32 * (j % 2))) as u32, "C01.bitvec.get_u32");
    for q in 0..8 { check(st.get_bitvec(before).cast::<u64>()[q] == u64::max_value(), "C01.bitvec.neighbour"); }
    for q in 0..4 { check(st.get_bitvec(after).cast::<u64>()[q] == u64::max_value(), "C01.bitvec.neighbour"); }
    observe(w[0]);
    cover("bitvec");
}
entries!(h_block, h_block_views, h_words, h_bitset, h_refuse, h_bitvec);
