//! Stand-in for `rayon`: a parallel iterator is a list of per-item jobs. By default they run in
//! order; with `set_mode(1)` every job order is explored (the order is a solver input), with
//! `set_mode(2)` the jobs' computations and their sinks run in two independent arbitrary orders.
use std::sync::Arc;
extern "C" { fn sym_range(n: u64) -> u64; fn sym_concretize(x: u64) -> u64; }

pub static mut MODE: u32 = 0;
/// number of job batches that were executed in an arbitrary order
pub static mut NBATCH: u32 = 0;
pub fn set_mode(m: u32) { unsafe { MODE = m } }
fn mode() -> u32 { unsafe { MODE } }
fn order(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if mode() == 0 || n < 2 { return v; }
    unsafe { NBATCH += 1; }
    for i in 0..n - 1 {
        let j = i + unsafe { sym_concretize(sym_range((n - i) as u64)) } as usize;
        v.swap(i, j);
    }
    v
}

type Job<'a, T> = Box<dyn FnOnce() -> T + 'a>;
pub struct Par<'a, T> { jobs: Vec<Job<'a, T>> }

impl<'a, T: 'a> Par<'a, T> {
    fn of<I: Iterator<Item = T>>(it: I) -> Self { Par { jobs: it.map(|x| Box::new(move || x) as Job<'a, T>).collect() } }
    /// run all jobs in an arbitrary order, results by position
    fn run(self) -> Vec<T> {
        let n = self.jobs.len();
        let mut jobs: Vec<Option<Job<'a, T>>> = self.jobs.into_iter().map(Some).collect();
        let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
        for i in order(n) { out[i] = Some((jobs[i].take().unwrap())()); }
        out.into_iter().map(|x| x.unwrap()).collect()
    }
    pub fn map<R: 'a, F: Fn(T) -> R + 'a>(self, f: F) -> Par<'a, R> {
        let f = Arc::new(f);
        Par { jobs: self.jobs.into_iter().map(|j| { let f = f.clone(); Box::new(move || f(j())) as Job<'a, R> }).collect() }
    }
    pub fn map_with<S: Clone + 'a, R: 'a, F: Fn(&mut S, T) -> R + 'a>(self, s: S, f: F) -> Par<'a, R> {
        self.map(move |x| { let mut s = s.clone(); f(&mut s, x) })
    }
    pub fn map_init<S, I: Fn() -> S + 'a, R: 'a, F: Fn(&mut S, T) -> R + 'a>(self, init: I, f: F) -> Par<'a, R> {
        self.map(move |x| { let mut s = init(); f(&mut s, x) })
    }
    pub fn inspect<F: Fn(&T) + 'a>(self, f: F) -> Par<'a, T> { self.map(move |x| { f(&x); x }) }
    pub fn flat_map<P: IntoParallelIterator<'a>, F: Fn(T) -> P + 'a>(self, f: F) -> Par<'a, P::Item> where P: 'a {
        let parts = self.map(f).run();
        let mut jobs = Vec::new();
        for p in parts { jobs.extend(p.into_par_iter().jobs); }
        Par { jobs }
    }
    pub fn flat_map_iter<P: IntoIterator, F: Fn(T) -> P + 'a>(self, f: F) -> Par<'a, P::Item> where P: 'a, P::Item: 'a {
        let parts = self.map(f).run();
        Par::of(parts.into_iter().flat_map(|p| p.into_iter()).collect::<Vec<_>>().into_iter())
    }
    pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> { Par::of(self.run().into_iter().filter(|x| f(x)).collect::<Vec<_>>().into_iter()) }
    pub fn filter_map<R: 'a, F: Fn(T) -> Option<R> + 'a>(self, f: F) -> Par<'a, R> { Par::of(self.map(f).run().into_iter().filter_map(|x| x).collect::<Vec<_>>().into_iter()) }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par { jobs: self.jobs.into_iter().enumerate().map(|(i, j)| Box::new(move || (i, j())) as Job<'a, (usize, T)>).collect() }
    }
    pub fn zip<P: IntoParallelIterator<'a>>(self, o: P) -> Par<'a, (T, P::Item)> where P::Item: 'a {
        let o = o.into_par_iter();
        Par { jobs: self.jobs.into_iter().zip(o.jobs).map(|(a, b)| Box::new(move || (a(), b())) as Job<'a, (T, P::Item)>).collect() }
    }
    pub fn chain<P: IntoParallelIterator<'a, Item = T>>(mut self, o: P) -> Par<'a, T> { self.jobs.extend(o.into_par_iter().jobs); self }
    pub fn with_min_len(self, _: usize) -> Self { self }
    pub fn with_max_len(self, _: usize) -> Self { self }
    pub fn rev(mut self) -> Self { self.jobs.reverse(); self }
    pub fn for_each<F: Fn(T)>(self, f: F) {
        if mode() == 2 {
            let n = self.jobs.len();
            let mut vals: Vec<Option<T>> = self.run().into_iter().map(Some).collect();
            for i in order(n) { f(vals[i].take().unwrap()); }
            return;
        }
        let n = self.jobs.len();
        let mut jobs: Vec<Option<Job<'a, T>>> = self.jobs.into_iter().map(Some).collect();
        for i in order(n) { f((jobs[i].take().unwrap())()); }
    }
    pub fn for_each_with<S: Clone, F: Fn(&mut S, T)>(self, s: S, f: F) { self.for_each(|x| { let mut s = s.clone(); f(&mut s, x) }) }
    pub fn collect<C: std::iter::FromIterator<T>>(self) -> C { self.run().into_iter().collect() }
    pub fn collect_into_vec(self, v: &mut Vec<T>) { *v = self.run(); }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB) where T: Into<(A, B)> { self.run().into_iter().map(|x| x.into()).unzip() }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S { self.run().into_iter().sum() }
    pub fn product<S: std::iter::Product<T>>(self) -> S { self.run().into_iter().product() }
    pub fn count(self) -> usize { self.run().len() }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> bool { self.run().into_iter().any(f) }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> bool { self.run().into_iter().all(f) }
    pub fn min(self) -> Option<T> where T: Ord { self.run().into_iter().min() }
    pub fn max(self) -> Option<T> where T: Ord { self.run().into_iter().max() }
    /// tree reduction with arbitrary split positions
    pub fn reduce<ID: Fn() -> T, OP: Fn(T, T) -> T>(self, id: ID, op: OP) -> T { self.run().into_iter().fold(id(), |a, b| op(a, b)) }
    pub fn reduce_with<OP: Fn(T, T) -> T>(self, op: OP) -> Option<T> {
        let mut it = self.run().into_iter();
        let first = it.next()?;
        Some(it.fold(first, |a, b| op(a, b)))
    }
    /// every item its own fold (the finest split)
    pub fn fold<S: 'a, ID: Fn() -> S + 'a, F: Fn(S, T) -> S + 'a>(self, id: ID, f: F) -> Par<'a, S> { self.map(move |x| f(id(), x)) }
}
impl<'a, 'b: 'a, T: Clone + 'b> Par<'a, &'b T> {
    pub fn cloned(self) -> Par<'a, T> { self.map(|x| x.clone()) }
    pub fn copied(self) -> Par<'a, T> { self.map(|x| x.clone()) }
}

pub trait IntoParallelIterator<'a> { type Item: 'a; fn into_par_iter(self) -> Par<'a, Self::Item>; }
impl<'a, T: 'a> IntoParallelIterator<'a> for Par<'a, T> { type Item = T; fn into_par_iter(self) -> Par<'a, T> { self } }
impl<'a, T: 'a> IntoParallelIterator<'a> for Vec<T> { type Item = T; fn into_par_iter(self) -> Par<'a, T> { Par::of(self.into_iter()) } }
impl<'a, T: 'a> IntoParallelIterator<'a> for &'a [T] { type Item = &'a T; fn into_par_iter(self) -> Par<'a, &'a T> { Par::of(self.iter()) } }
impl<'a, T: 'a> IntoParallelIterator<'a> for &'a Vec<T> { type Item = &'a T; fn into_par_iter(self) -> Par<'a, &'a T> { Par::of(self.iter()) } }
impl<'a, T: 'a> IntoParallelIterator<'a> for &'a mut [T] { type Item = &'a mut T; fn into_par_iter(self) -> Par<'a, &'a mut T> { Par::of(self.iter_mut()) } }
impl<'a, T: 'a> IntoParallelIterator<'a> for &'a mut Vec<T> { type Item = &'a mut T; fn into_par_iter(self) -> Par<'a, &'a mut T> { Par::of(self.iter_mut()) } }
impl<'a, T: 'a> IntoParallelIterator<'a> for std::ops::Range<T> where std::ops::Range<T>: Iterator<Item = T> { type Item = T; fn into_par_iter(self) -> Par<'a, T> { Par::of(self) } }

pub trait ParSlice<T> { fn par_iter<'a>(&'a self) -> Par<'a, &'a T>; fn par_iter_mut<'a>(&'a mut self) -> Par<'a, &'a mut T>;
    fn par_chunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>; fn par_chunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]>; }
impl<T> ParSlice<T> for [T] {
    fn par_iter<'a>(&'a self) -> Par<'a, &'a T> { Par::of(self.iter()) }
    fn par_iter_mut<'a>(&'a mut self) -> Par<'a, &'a mut T> { Par::of(self.iter_mut()) }
    fn par_chunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> { Par::of(self.chunks(n)) }
    fn par_chunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]> { Par::of(self.chunks_mut(n)) }
}
pub trait ParallelBridge: Iterator + Sized { fn par_bridge<'a>(self) -> Par<'a, Self::Item> where Self::Item: 'a { Par::of(self) } }
impl<I: Iterator> ParallelBridge for I {}

pub mod iter {
    pub use crate::{IntoParallelIterator, Par, ParallelBridge, ParSlice as IntoParallelRefIterator};
    /// infinite in rayon: only useful zipped with something finite
    pub struct Repeat<T>(T);
    pub fn repeat<T: Clone + Send>(x: T) -> Repeat<T> { Repeat(x) }
    impl<T: Clone> Repeat<T> {
        pub fn take<'a>(self, n: usize) -> Par<'a, T> where T: 'a { Par::of(std::iter::repeat(self.0).take(n)) }
        pub fn zip<'a, P: IntoParallelIterator<'a>>(self, o: P) -> Par<'a, (T, P::Item)> where T: 'a, P::Item: 'a {
            let x = self.0;
            let o = o.into_par_iter();
            let n = o.jobs.len();
            Par::of(std::iter::repeat(x).take(n)).zip(o)
        }
    }
    pub fn repeatn<'a, T: Clone + 'a>(x: T, n: usize) -> Par<'a, T> { Par::of(std::iter::repeat(x).take(n)) }
    pub fn once<'a, T: 'a>(x: T) -> Par<'a, T> { Par::of(std::iter::once(x)) }
    pub fn empty<'a, T: 'a>() -> Par<'a, T> { Par::of(std::iter::empty()) }
}
pub mod slice { pub use crate::ParSlice as ParallelSlice; }
pub mod prelude { pub use crate::{IntoParallelIterator, ParSlice, ParallelBridge}; }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA, B: FnOnce() -> RB {
    if order(2)[0] == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub fn current_num_threads() -> usize { 4 }
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> { pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) { self.0.borrow_mut().push(Box::new(f)); } }
/// the spawned jobs run in any order after the body
pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R {
    let s = Scope(std::cell::RefCell::new(Vec::new()));
    let r = f(&s);
    loop {
        let jobs: Vec<_> = s.0.borrow_mut().drain(..).collect();
        if jobs.is_empty() { return r; }
        let mut jobs: Vec<Option<Box<dyn FnOnce(&Scope<'s>) + 's>>> = jobs.into_iter().map(Some).collect();
        for i in order(jobs.len()) { (jobs[i].take().unwrap())(&s); }
    }
}
