//! C07: slice storage never lets two live slices overlap or lose their content.
use bitboost::slice_store::*;
use harness::*;

const MAXL: usize = 12;
#[derive(Clone, Copy)]
struct Live { r: SliceRange, len: usize, c: [u32; MAXL] }
struct World { st: SliceStore<u32>, live: [Option<Live>; 6], align: usize, ends: bool }

impl World {
    fn choose(&self, n: u64) -> usize { concretize(range(n)) as usize }
    fn slots(&self) -> usize { self.live.iter().flatten().count() }
    fn nth(&self, mut k: usize) -> usize { for i in 0..6 { if self.live[i].is_some() { if k == 0 { return i; } k -= 1; } } 0 }
    fn alloc(&mut self, len: usize) {
        let v = u32s();
        let dflt = len % 2 == 1;
        let r = if dflt { self.st.alloc_slice_default(len as u32) } else { self.st.alloc_slice(len as u32, v) };
        let mut c = [0u32; MAXL];
        if !dflt { for x in c.iter_mut() { *x = v; } }
        check((r.1 - r.0) as usize == len, "C07.len");
        check(self.st.get_slice(r).as_ptr() as usize % self.align == 0, "C07.align");
        for l in self.live.iter().flatten() { check(l.r.1 <= r.0 || r.1 <= l.r.0, "C07.disjoint"); }
        for i in 0..6 { if self.live[i].is_none() { self.live[i] = Some(Live { r, len, c }); break; } }
    }
    fn step(&mut self, lens: &[usize]) {
        let n = self.slots();
        let kinds = if n == 0 { lens.len() } else if n == 1 { lens.len() + 3 } else { lens.len() + 4 };
        let k = self.choose(kinds as u64);
        if k < lens.len() { self.alloc(lens[k]); cover("alloc"); return; }
        match k - lens.len() {
            0 => { let i = self.nth(self.choose(n as u64)); self.st.free_slice(self.live[i].unwrap().r); self.live[i] = None; cover("free"); }
            1 => {
                let i = self.nth(self.choose(n as u64));
                let (len, r) = { let l = self.live[i].unwrap(); (l.len, l.r) };
                let p = if self.ends { self.choose(2) * (len - 1) } else { range(len as u64) as usize };
                let v = u32s();
                self.st.get_slice_mut(r)[p] = v;
                self.live[i].as_mut().unwrap().c[p] = v;
                cover("write");
            }
            2 => { self.st.reset(); self.live = [None; 6]; cover("reset"); }
            _ => {
                let a = self.choose(n as u64);
                let b = self.choose(n as u64 - 1);
                let (i, j) = (self.nth(a), self.nth(if b < a { b } else { b + 1 }));
                let (x, y) = (self.live[i].unwrap(), self.live[j].unwrap());
                let (v, w) = (u32s(), u32s());
                let (s, t) = self.st.get_two_slices_mut(x.r, y.r);
                check(s.len() == x.len && t.len() == y.len, "C07.two.len");
                s[x.len - 1] = v; t[0] = w;
                self.live[i].as_mut().unwrap().c[x.len - 1] = v;
                self.live[j].as_mut().unwrap().c[0] = w;
                cover("two");
            }
        }
    }
    fn verify(&self) {
        for l in self.live.iter().flatten() {
            let s = self.st.get_slice(l.r);
            check(s.len() == l.len, "C07.len_kept");
            let mut ok = true;
            for i in 0..l.len { ok &= s[i] == l.c[i]; }
            check(ok, "C07.content");
        }
    }
}
fn world(kind: usize, ends: bool) -> World {
    let (st, align) = match kind { 0 => (SliceStore::new(4), 4), 1 => (SliceStore::aligned(8, 32), 32), _ => (SliceStore::aligned(1, 16), 16) };
    World { st, live: [None; 6], align, ends }
}
fn history(ends: bool, kind: usize, pre: &[usize], free: &[usize], steps: usize, lens: &[usize]) {
    let mut w = world(kind, ends);
    for l in pre { w.alloc(*l); }
    for f in free { w.st.free_slice(w.live[*f].unwrap().r); w.live[*f] = None; }
    w.verify();
    for _ in 0..steps { w.step(lens); w.verify(); }
    cover("history");
}
/// every history of 4 operations from a new store
#[no_mangle] #[inline(never)]
pub extern "C" fn h_history() { history(false, case(3) as usize, &[], &[], 5, &[1, 3, 6]) }
/// every history of 3 operations from a store with live and freed slices
#[no_mangle] #[inline(never)]
pub extern "C" fn h_reuse() {
    let c = case(12) as usize;
    let (pre, free): (&[usize], &[usize]) = [(&[3usize, 5][..], &[0usize][..]), (&[5, 2, 4], &[0, 2]), (&[2, 2, 2], &[1]), (&[6, 1, 5], &[2, 0, 1])][c / 3];
    history(false, c % 3, pre, free, 4, &[2, 5, 8])
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_long() { history(true, case(3) as usize, &[3], &[], 6, &[2, 9]) }

/// borrowing two slices: any two ranges; only disjoint ones inside the store are handed out
#[no_mangle] #[inline(never)]
pub extern "C" fn h_two() {
    quiet_panics();
    let mut st: SliceStore<u32> = SliceStore::new(16);
    let all = st.alloc_slice(16, 7);
    let base = st.get_slice(all).as_ptr() as usize;
    let r1 = (u32s(), u32s()); let r2 = (u32s(), u32s());
    assume(r1.0 < r1.1 && r2.0 < r2.1);
    let disjoint = r1.1 <= r2.0 || r2.1 <= r1.0;
    let inside = r1.1 <= 16 && r2.1 <= 16;
    let mut got = (0usize, 0usize, 0usize, 0usize);
    let g = &mut got as *mut (usize, usize, usize, usize);
    let p = panics(|| { let (a, b) = st.get_two_slices_mut(r1, r2); unsafe { *g = (a.as_ptr() as usize, a.len(), b.as_ptr() as usize, b.len()) } });
    if disjoint && inside {
        check(!p, "C07.two.given");
        check(got.0 == base + 4 * r1.0 as usize && got.1 == (r1.1 - r1.0) as usize, "C07.two.first");
        check(got.2 == base + 4 * r2.0 as usize && got.3 == (r2.1 - r2.0) as usize, "C07.two.second");
        cover("given");
    } else {
        check(p, "C07.two.refused");
        cover("refused");
    }
    // one slice outside the store is refused as well
    check(panics(|| { st.get_slice(r1); }) == (r1.1 > 16), "C07.one");
    check(panics(|| { st.get_slice_mut(r1); }) == (r1.1 > 16), "C07.one_mut");
}

/// block stores: bit vectors and slices keep their content over allocation, reuse and growth
#[no_mangle] #[inline(never)]
pub extern "C" fn h_blocks() {
    let c = case(18) as usize;
    let mut st = BitBlockStore::new(2);
    let (na, nb) = ([1usize, 2, 3][c % 3], [1usize, 2, 4][c / 3 % 3]);
    let a = st.alloc_zero_blocks(na); let b = st.alloc_one_blocks(nb);
    let mut sa = [0u64; 12]; let mut sb = [!0u64; 16];
    for (k, x) in st.get_bitvec_mut(a).cast_mut::<u64>().iter_mut().enumerate() { check(*x == 0, "C07.blocks.zero"); *x = u64s(); sa[k] = *x; }
    if c / 9 == 0 { st.free_blocks(b); }
    let d = if c % 2 == 0 { st.alloc_zero_bits(256 * nb - 5) } else { st.alloc_one_bits(256 * nb - 256 + 3) };
    { let (mut x, y) = st.get_two_bitvecs_mut(a, d); x.cast_mut::<u64>()[1] = 5; sa[1] = 5; check(y.len() == nb, "C07.blocks.len"); }
    let e = st.alloc_zero_blocks(6);
    if c / 9 == 1 {
        { let (mut x, mut y) = st.get_two_bitvecs_mut(e, b); x.cast_mut::<u64>()[0] = 1; y.cast_mut::<u64>()[4 * nb - 1] = 77; sb[4 * nb - 1] = 77; }
        for (k, x) in st.get_bitvec(b).cast::<u64>().iter().enumerate() { check(*x == sb[k], "C07.blocks.kept_b"); }
    } else { st.get_bitvec_mut(e).cast_mut::<u64>()[0] = 1; }
    for (k, x) in st.get_bitvec(a).cast::<u64>().iter().enumerate() { check(*x == sa[k], "C07.blocks.kept_a"); }
    for (k, x) in st.get_bitvec(e).cast::<u64>().iter().enumerate() { check(*x == (k == 0) as u64, "C07.blocks.kept_e"); }
    let ones = if c % 2 == 0 { 0 } else { 256 * nb - 256 + 3 };
    for (k, x) in st.get_bitvec(d).cast::<u64>().iter().enumerate() {
        let want = if 64 * k + 64 <= ones { !0 } else if 64 * k < ones { (1u64 << (ones - 64 * k)) - 1 } else { 0 };
        check(*x == want, "C07.blocks.kept_d");
    }
    for r in [a, d, e] { check(st.get_bitvec(r).cast::<u64>().as_ptr() as usize % 32 == 0, "C07.blocks.align"); }
    cover("blocks");
}
entries!(h_history, h_reuse, h_long, h_two, h_blocks);
