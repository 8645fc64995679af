//! C02: constructing bit containers sets exactly the requested bits and pads with zeros.
use bitboost::bitblock::*;
use bitboost::bitset::Bitset;
use bitboost::slice_store::*;
use bitboost::bitslice::*;
use harness::*;

fn any(n: usize) -> Vec<u64> { (0..n).map(|_| u64s()).collect() }
/// words of the bit string with exactly the first n bits set
fn ones_word(n: usize, k: usize) -> u64 {
    if n >= 64 * (k + 1) { u64::max_value() } else if n <= 64 * k { 0 } else { (1u64 << (n - 64 * k)) - 1 }
}
/// the first n bits of src
fn masked(src: &[u64], n: usize, k: usize) -> u64 { if k < src.len() { src[k] & ones_word(n, k) } else { 0 } }
fn eq_words(a: &[u64], f: impl Fn(usize) -> u64) -> bool { let mut d = 0; for k in 0..a.len() { d |= a[k] ^ f(k); } d == 0 }
fn need(n: usize) -> usize { let mut r = 0; while 256 * r < n { r += 1; } r }

/// a store whose next allocation of up to 3 blocks reuses dirty memory
fn dirty_store(w: &[u64]) -> (BitBlockStore, SliceRange) {
    let mut st = BitBlockStore::new(4);
    let keep = st.alloc_one_bits(256);
    let r = st.alloc_zero_blocks(3);
    for k in 0..12 { st.get_bitvec_mut(r).cast_mut::<u64>()[k] = w[k]; }
    st.free_blocks(r);
    (st, keep)
}

/// all-ones and all-zeros containers of every length
#[no_mangle] #[inline(never)]
pub extern "C" fn h_fill() {
    let n = 1 + range(768) as usize;
    let nb = if n <= 256 { 1 } else if n <= 512 { 2 } else { 3 };
    match case(7) {
        0 => { let b = BitBlocks::one_bits(n); check(b.len() == nb && eq_words(b.cast(), |k| ones_word(n, k)), "C02.blocks.one_bits"); }
        1 => { let b = BitBlocks::zero_bits(n); check(b.len() == nb && eq_words(b.cast(), |_| 0), "C02.blocks.zero_bits"); }
        2 => { let b = Bitset::ones(n); check(b.len() == nb && eq_words(b.cast(), |k| ones_word(n, k)), "C02.bitset.ones"); }
        3 => { let b = Bitset::zeros(n); check(b.len() == nb && eq_words(b.cast(), |_| 0), "C02.bitset.zeros"); }
        4 => {
            let w = any(12);
            let (mut st, keep) = dirty_store(&w);
            let r = st.alloc_one_bits(n);
            check((r.1 - r.0) as usize == nb && eq_words(st.get_bitvec(r).cast(), |k| ones_word(n, k)), "C02.store.one_bits");
            check(eq_words(st.get_bitvec(keep).cast(), |_| u64::max_value()), "C02.store.neighbour");
        }
        5 => {
            let w = any(12);
            let (mut st, keep) = dirty_store(&w);
            let r = st.alloc_zero_bits(n);
            check((r.1 - r.0) as usize == nb && eq_words(st.get_bitvec(r).cast(), |_| 0), "C02.store.zero_bits");
            check(eq_words(st.get_bitvec(keep).cast(), |_| u64::max_value()), "C02.store.neighbour");
        }
        _ => {
            // fresh memory, growing the store
            let mut st = BitBlockStore::new(1);
            let keep = st.alloc_one_bits(256);
            let r = st.alloc_one_bits(n);
            check((r.1 - r.0) as usize == nb && eq_words(st.get_bitvec(r).cast(), |k| ones_word(n, k)), "C02.store.one_bits_grow");
            check(eq_words(st.get_bitvec(keep).cast(), |_| u64::max_value()), "C02.store.neighbour");
        }
    }
    let m = range(1 << 40) as usize;
    check(BitBlock::blocks_required_for(m) == (m + 255) >> 8, "C02.blocks_required");
    observe(n as u64);
    cover("fill");
}

/// population count of freshly built all-ones containers
#[no_mangle] #[inline(never)]
pub extern "C" fn h_count() {
    let n = 1 + range(512) as usize;
    let b = match case(2) { 0 => BitBlocks::one_bits(n), _ => { let mut st = BitBlockStore::new(4); let r = st.alloc_one_bits(n); let v = st.get_bitvec(r); let mut o = BitBlocks::zero_blocks(v.len()); for k in 0..v.len() { o[k] = v[k].clone(); } o } };
    let mut c = 0;
    for x in b.iter() { c += x.count_ones() as usize; }
    for x in b.cast::<u64>() { observe(*x); } observe(b.len() as u64); observe(c as u64);
    check(c == n, "C02.count_ones");
    cover("count");
}

const LENS: [usize; 12] = [0, 1, 2, 63, 64, 65, 127, 200, 255, 256, 257, 300];
/// from boolean iterators
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bools() {
    let c = case(36) as usize;
    let n = LENS[c % 12];
    let w = any(5);
    let bit = |i: usize| (w[i / 64] >> (i % 64)) & 1 == 1;
    let src: Vec<bool> = (0..n).map(bit).collect();
    match c / 12 {
        0 => {
            let mut it = src.iter().cloned();
            let (done, bb) = BitBlock::from_bool_iter(&mut it);
            let used = if n < 256 { n } else { 256 };
            check(done == (n < 256), "C02.block.bools_done");
            check(it.len() == n - used, "C02.block.bools_consumed");
            check(eq_words(bb.cast(), |k| masked(&w, used, k)), "C02.block.bools");
        }
        1 => { if n > 0 {
            let b = BitBlocks::from_bool_iter(n, src.into_iter());
            check(b.len() == need(n) && eq_words(b.cast(), |k| masked(&w, n, k)), "C02.blocks.bools");
        } }
        _ => { if n > 0 {
            let d = any(12);
            let (mut st, keep) = dirty_store(&d);
            let r = st.alloc_from_bits_iter(n, src.into_iter());
            check((r.1 - r.0) as usize == need(n) && eq_words(st.get_bitvec(r).cast(), |k| masked(&w, n, k)), "C02.store.bools");
            check(eq_words(st.get_bitvec(keep).cast(), |_| u64::max_value()), "C02.store.neighbour");
        } }
    }
    cover("bools");
}

fn ints<T: num::Integer + Copy>(n: usize, bytes: usize, how: usize, conv: fn(u64) -> T) {
    let w = any(10);
    let per = 8 / bytes;
    let sh = |i: usize| (8 * bytes * (i % per)) as u32;
    let src: Vec<T> = (0..n).map(|i| conv(w[i / per] >> sh(i))).collect();
    let bits = 8 * bytes * n;
    match how {
        0 => {
            let cap = 32 / bytes;
            let mut it = src.iter().cloned();
            let (done, bb) = BitBlock::from_iter(&mut it);
            let used = if n < cap { n } else { cap };
            check(done == (n < cap), "C02.block.ints_done");
            check(it.len() == n - used, "C02.block.ints_consumed");
            check(eq_words(bb.cast(), |k| masked(&w, 8 * bytes * used, k)), "C02.block.ints");
            let bs = BitBlock::from_slice(&src);
            check(eq_words(bs.cast(), |k| masked(&w, 8 * bytes * used, k)), "C02.block.slice");
            if n > 0 {
                let b1: BitBlock = BitBlock::from(src[0]);
                check(eq_words(b1.cast(), |k| masked(&w, 8 * bytes, k)), "C02.block.from");
            }
        }
        1 => { if n > 0 {
            let b = BitBlocks::from_iter(n, src.into_iter());
            check(b.len() == need(bits) && eq_words(b.cast(), |k| masked(&w, bits, k)), "C02.blocks.ints");
        } }
        _ => { if n > 0 {
            let d = any(12);
            let (mut st, keep) = dirty_store(&d);
            let r = st.alloc_from_iter(n, src.into_iter());
            check((r.1 - r.0) as usize == need(bits) && eq_words(st.get_bitvec(r).cast(), |k| masked(&w, bits, k)), "C02.store.ints");
            check(eq_words(st.get_bitvec(keep).cast(), |_| u64::max_value()), "C02.store.neighbour");
        } }
    }
}
/// from integer iterators and slices of every width
#[no_mangle] #[inline(never)]
pub extern "C" fn h_ints() {
    const NB: [usize; 8] = [0, 1, 3, 4, 5, 8, 9, 10];
    let c = case(96) as usize;
    let (k, ty, how) = (c % 8, (c / 8) % 4, c / 32);
    match ty {
        0 => ints::<u8>([0, 1, 31, 32, 33, 40, 63, 64][k], 1, how, |x| x as u8),
        1 => ints::<u16>([0, 1, 15, 16, 17, 20, 31, 33][k], 2, how, |x| x as u16),
        2 => ints::<u32>([0, 1, 7, 8, 9, 10, 16, 17][k], 4, how, |x| x as u32),
        _ => ints::<u64>(NB[k], 8, how, |x| x),
    }
    cover("ints");
}

/// bit slices start as zeros and resizing keeps what was there
#[no_mangle] #[inline(never)]
pub extern "C" fn h_slices() {
    let c = case(12 + 12 + 3) as usize;
    let width = [1usize, 2, 4, 8][c % 4];
    if c < 12 {
        let k = c / 4;
        let n = 256 * k + 1 + range(256) as usize;
        let nb = (k + 1) * width;
        let mut st = BitBlockStore::new(2);
        let d = u64s();
        let x = st.alloc_zero_blocks(3 * width);
        for k in 0..12 * width { st.get_bitvec_mut(x).cast_mut::<u64>()[k] = d; }
        st.free_blocks(x);
        let r = match width { 1 => st.alloc_zero_bitslice::<BitSliceLayout1>(n), 2 => st.alloc_zero_bitslice::<BitSliceLayout2>(n), 4 => st.alloc_zero_bitslice::<BitSliceLayout4>(n), _ => st.alloc_zero_bitslice::<BitSliceLayout8>(n) };
        check((r.1 - r.0) as usize == nb && eq_words(st.get_bitvec(r).cast(), |_| 0), "C02.store.bitslice");
    } else if c < 24 {
        let k = (c - 12) / 4;
        let n = 256 * k + 1 + range(256) as usize;
        let mut s = Bitslice::new();
        match width { 1 => s.with_layout_mut::<BitsliceLayout1>().resize(n), 2 => s.with_layout_mut::<BitsliceLayout2>().resize(n), 4 => s.with_layout_mut::<BitsliceLayout4>().resize(n), _ => s.with_layout_mut::<BitsliceLayout8>().resize(n) };
        check(s.nblocks() == (k + 1) * width && eq_words(s.as_bitblocks().cast(), |_| 0), "C02.bitslice.resize");
    } else {
        let mut b = BitBlocks::zero_blocks(2);
        let w = any(8);
        for k in 0..8 { b.cast_mut::<u64>()[k] = w[k]; }
        let to = c - 23;
        b.resize(to);
        check(b.len() == to && eq_words(b.cast(), |k| if k < 8 { w[k] } else { 0 }), "C02.blocks.resize");
    }
    let b = BitBlocks::one_blocks(2);
    check(b.len() == 2 && eq_words(b.cast(), |_| u64::max_value()), "C02.blocks.one_blocks");
    let b = BitBlock::ones();
    check(eq_words(b.cast(), |_| u64::max_value()) && eq_words(BitBlock::zeros().cast(), |_| 0) && eq_words(BitBlock::default().cast(), |_| 0), "C02.block.const");
    let e = BitBlocks::empty();
    check(e.is_empty() && e.len() == 0, "C02.blocks.empty");
    cover("slices");
}
entries!(h_fill, h_count, h_bools, h_ints, h_slices);
