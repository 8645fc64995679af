//! Stand-in for `rand` 0.6: every draw is an arbitrary value of its contract (a fresh symbolic
//! input of the solver), so a check covers every sequence of draws a real generator could make.
extern "C" { fn sym_range(n: u64) -> u64; fn sym_bits(n: u32) -> u64; fn sym_concretize(x: u64) -> u64; fn sym_case(n: u64) -> u64; }

/// 0: symbolic draws; 1: each draw is enumerated (path per value); 2: draws are the offset 0;
/// 3: draw number k of a generator depends on its seed and k only: arbitrary, but the same each
/// time; 4: as 3, and enumerated; 5: the first offset for odd seeds, the last for even ones
pub static mut MODE: u32 = 0;
/// number of draws made so far
pub static mut NDRAWS: u32 = 0;
pub fn set_mode(m: u32) { unsafe { MODE = m } }

/// which generator draws: its seed and how many draws it made before
#[derive(Clone, Copy)]
pub struct Who(pub u64, pub u64);
static mut TAPE: Vec<(u64, u64, u64, u64)> = Vec::new();
static mut ENTROPY: u64 = 0;
/// a seed no other generator has
pub fn entropy() -> u64 { unsafe { ENTROPY += 1; ENTROPY << 40 } }
#[allow(static_mut_refs)]
fn taped<F: FnOnce() -> u64>(w: Who, n: u64, f: F) -> u64 {
    unsafe {
        for t in TAPE.iter() { if t.0 == w.0 && t.1 == w.1 && t.2 == n { return t.3; } }
        let v = f();
        TAPE.push((w.0, w.1, n, v));
        v
    }
}
pub fn draw_below(w: Who, n: u64) -> u64 {
    assert!(n > 0, "empty range");
    unsafe {
        NDRAWS += 1;
        if n == 1 { return 0; }
        match MODE {
            0 => sym_range(n),
            1 => { let v = sym_case(n); sym_concretize(v) }
            3 => taped(w, n, || sym_range(n)),
            4 => taped(w, n, || { let v = sym_case(n); sym_concretize(v) }),
            5 => if w.0 & 1 == 1 { 0 } else { n - 1 },
            _ => 0,
        }
    }
}
fn draw_bits(w: Who, n: u32) -> u64 {
    unsafe {
        NDRAWS += 1;
        match MODE { 2 => 0, 3 | 4 => taped(w, 1 << 63 | n as u64, || sym_bits(n)), 5 => if w.0 & 1 == 1 { 0 } else { !0 >> (64 - n) }, _ => sym_bits(n) }
    }
}

pub trait SampleUniform: Copy + PartialOrd { fn between(w: Who, lo: Self, hi: Self) -> Self; }
macro_rules! ints { ($($t:ty),*) => {$(
    impl SampleUniform for $t {
        fn between(w: Who, lo: $t, hi: $t) -> $t {
            assert!(lo < hi, "cannot sample empty range");
            (lo as i128 + draw_below(w, (hi as i128 - lo as i128) as u64) as i128) as $t
        }
    }
    impl Standard for $t { fn any(w: Who) -> $t { draw_bits(w, (std::mem::size_of::<$t>() * 8) as u32) as $t } }
)*} }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
impl SampleUniform for f32 { fn between(w: Who, lo: f32, hi: f32) -> f32 { assert!(lo < hi); lo + (draw_below(w, 1 << 23) as f32 / (1u32 << 23) as f32) * (hi - lo) } }
impl SampleUniform for f64 { fn between(w: Who, lo: f64, hi: f64) -> f64 { assert!(lo < hi); lo + (draw_below(w, 1 << 52) as f64 / (1u64 << 52) as f64) * (hi - lo) } }
pub trait Standard { fn any(w: Who) -> Self; }
impl Standard for bool { fn any(w: Who) -> bool { draw_bits(w, 1) == 1 } }
impl Standard for f32 { fn any(w: Who) -> f32 { f32::between(w, 0.0, 1.0) } }
impl Standard for f64 { fn any(w: Who) -> f64 { f64::between(w, 0.0, 1.0) } }

pub trait RngCore {
    fn who(&mut self) -> Who;
    fn next_u32(&mut self) -> u32 { draw_bits(self.who(), 32) as u32 }
    fn next_u64(&mut self) -> u64 { draw_bits(self.who(), 64) }
}
pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T where Self: Sized { T::any(self.who()) }
    fn gen_range<T: SampleUniform>(&mut self, lo: T, hi: T) -> T where Self: Sized { T::between(self.who(), lo, hi) }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
    fn gen_bool(&mut self, p: f64) -> bool where Self: Sized {
        if p <= 0.0 { false } else if p >= 1.0 { true } else { draw_bits(self.who(), 1) == 1 }
    }
    fn gen_ratio(&mut self, a: u32, b: u32) -> bool where Self: Sized { (draw_below(self.who(), b as u64) as u32) < a }
    fn shuffle<T>(&mut self, v: &mut [T]) where Self: Sized { seq::SliceRandom::shuffle(v, self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait SeedableRng: Sized {
    type Seed: Default;
    fn from_seed(_: Self::Seed) -> Self;
    fn seed_from_u64(_: u64) -> Self;
    fn from_rng<R: RngCore>(mut r: R) -> Result<Self, ()> { Ok(Self::seed_from_u64(r.next_u64())) }
}
pub trait FromEntropy: SeedableRng { fn from_entropy() -> Self { Self::seed_from_u64(entropy()) } }
impl<R: SeedableRng> FromEntropy for R {}
pub mod rngs {
    macro_rules! rng { ($($n:ident),*) => {$(
        #[derive(Clone, Debug)] pub struct $n { seed: u64, made: u64 }
        impl super::RngCore for $n { fn who(&mut self) -> super::Who { self.made += 1; super::Who(self.seed, self.made - 1) } }
        impl super::SeedableRng for $n {
            type Seed = [u8; 16];
            fn from_seed(s: [u8; 16]) -> Self { let mut k = 0u64; for (i, b) in s.iter().enumerate() { k ^= (*b as u64) << (8 * (i % 8)); } $n { seed: k, made: 0 } }
            fn seed_from_u64(seed: u64) -> Self { $n { seed, made: 0 } }
        }
    )*} }
    rng!(SmallRng, StdRng, ThreadRng);
}
pub fn thread_rng() -> rngs::ThreadRng { SeedableRng::seed_from_u64(entropy()) }
pub fn random<T: Standard>() -> T { T::any(Who(entropy(), 0)) }
pub mod seq {
    use super::*;
    pub trait SliceRandom {
        type Item;
        fn choose<R: Rng + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R);
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, rng: &mut R, amount: usize) -> (&mut [Self::Item], &mut [Self::Item]);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&T> {
            if self.is_empty() { None } else { Some(&self[draw_below(r.who(), self.len() as u64) as usize]) }
        }
        fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R) {
            for i in (1..self.len()).rev() { let j = draw_below(r.who(), i as u64 + 1) as usize; self.swap(i, j); }
        }
        fn partial_shuffle<R: Rng + ?Sized>(&mut self, r: &mut R, amount: usize) -> (&mut [T], &mut [T]) {
            let len = self.len();
            let end = if amount >= len { 0 } else { len - amount };
            for i in (end..len).rev() { let j = draw_below(r.who(), i as u64 + 1) as usize; self.swap(i, j); }
            let p = self.split_at_mut(end);
            (p.1, p.0)
        }
    }
    impl<T> SliceChoose<T> for [T] {
        fn choose_multiple<R: Rng + ?Sized>(&self, r: &mut R, amount: usize) -> std::vec::IntoIter<&T> {
            let v: Vec<&T> = index::sample(r, self.len(), amount.min(self.len())).into_iter().map(|i| &self[i]).collect();
            v.into_iter()
        }
        fn choose_mut<R: Rng + ?Sized>(&mut self, r: &mut R) -> Option<&mut T> {
            if self.is_empty() { None } else { let i = draw_below(r.who(), self.len() as u64) as usize; Some(&mut self[i]) }
        }
    }
    pub trait SliceChoose<T> {
        fn choose_multiple<R: Rng + ?Sized>(&self, rng: &mut R, amount: usize) -> std::vec::IntoIter<&T>;
        fn choose_mut<R: Rng + ?Sized>(&mut self, rng: &mut R) -> Option<&mut T>;
    }
    pub mod index {
        use super::*;
        pub struct IndexVec(Vec<usize>);
        impl IndexVec {
            pub fn len(&self) -> usize { self.0.len() }
            pub fn index(&self, i: usize) -> usize { self.0[i] }
            pub fn into_vec(self) -> Vec<usize> { self.0 }
            pub fn into_iter(self) -> std::vec::IntoIter<usize> { self.0.into_iter() }
            pub fn iter<'a>(&'a self) -> impl Iterator<Item = usize> + 'a { self.0.iter().cloned() }
        }
        /// distinct indices in an arbitrary order
        pub fn sample<R: Rng + ?Sized>(r: &mut R, length: usize, amount: usize) -> IndexVec {
            assert!(amount <= length);
            let mut v: Vec<usize> = (0..length).collect();
            for i in 0..amount { let j = i + draw_below(r.who(), (length - i) as u64) as usize; v.swap(i, j); }
            v.truncate(amount);
            IndexVec(v)
        }
    }
}
pub mod distributions {
    pub use crate::Standard;
    use crate::{Rng, SampleUniform};
    pub trait Distribution<T> { fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T; }
    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<T>(T, T);
    impl<T: SampleUniform> Uniform<T> { pub fn new(lo: T, hi: T) -> Self { Uniform(lo, hi) } }
    impl<T: SampleUniform> From<std::ops::Range<T>> for Uniform<T> { fn from(r: std::ops::Range<T>) -> Self { Uniform(r.start, r.end) } }
    impl<T: SampleUniform> Distribution<T> for Uniform<T> { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> T { T::between(r.who(), self.0, self.1) } }
}
pub mod prelude { pub use crate::{Rng, RngCore, SeedableRng, FromEntropy, thread_rng, random, rngs::*, seq::{SliceRandom, SliceChoose}, distributions::Distribution}; }
