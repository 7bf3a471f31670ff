#![allow(dead_code)]
pub use crate::sym::*;
pub use rustyalgebra::algebra::Algebra;
pub use rustyalgebra::basis::*;
pub use rustyalgebra::coefficients::CoefficientField;
pub use rustyalgebra::free_tensor::{DenseTensor, FreeTensor, TensorBasis, TensorKey};
pub use rustyalgebra::vector::implementation::SimpleSparseVector;
pub use rustyalgebra::vector::*;
pub use std::borrow::{Borrow, BorrowMut};

macro_rules! scenarios {
    ($($name:ident $body:block)*) => {
        $(pub fn $name() $body)*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

pub type V<const N: u32, const D: u32 = 0> = SimpleDenseVector<'static, TensorBasis<N>, Sc<D>>;

pub fn zero<const D: u32>() -> Sc<D> { Sc(0) }
pub fn one<const D: u32>() -> Sc<D> { Sc(1) }
pub fn int<const D: u32>(i: i16) -> Sc<D> { Sc::from(i) }

/// A dense vector of n arbitrary coefficients, and the coefficients.
pub fn dense<const N: u32, const D: u32>(n: usize) -> (V<N, D>, Vec<Sc<D>>) {
    let c = vars::<D>(n);
    (V::<N, D>::from(c.clone()), c)
}

pub fn at<const D: u32>(v: &[Sc<D>], i: usize) -> Sc<D> { v.get(i).cloned().unwrap_or(Sc(0)) }

pub fn coefs<const N: u32, const D: u32>(v: &V<N, D>) -> Vec<Sc<D>> { DenseVector::as_slice(v).to_vec() }

/// Coefficientwise equal, missing ones counting as zero.
pub fn equal<const D: u32>(got: &[Sc<D>], want: &[Sc<D>], what: &str) {
    for i in 0..got.len().max(want.len()) { same(&at(got, i), &at(want, i), || format!("{}: coefficient {}", what, i)); }
}

/// Equal coefficient for coefficient, and in number.
pub fn identical<const D: u32>(got: &[Sc<D>], want: &[Sc<D>], what: &str) {
    must(got.len() == want.len(), || format!("{}: {} coefficients, expected {}", what, got.len(), want.len()));
    equal(got, want, what);
}

/// All words over 1..=n of at most d letters, in index order.
pub fn words(n: u32, d: usize) -> Vec<Vec<u32>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..d {
        let mut next = vec![];
        for w in &last { for l in 1..=n { let mut x = w.clone(); x.push(l); next.push(x); } }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
/// Number of words of at most d letters.
pub fn dim(n: u32, d: usize) -> usize { words(n, d).len() }
pub fn index(n: u32, w: &[u32]) -> usize { w.iter().fold(0, |a, &l| a * n as usize + l as usize) }
pub fn tk<const N: u32>(w: &[u32]) -> TensorKey<N> { TensorKey::from_letters(w) }

/// The truncated concatenation product, by the definition.
pub fn product<const D: u32>(n: u32, a: &[Sc<D>], b: &[Sc<D>], d: usize) -> Vec<Sc<D>> {
    words(n, d).iter().map(|w| {
        let mut s = Sc(0);
        for cut in 0..=w.len() {
            let (i, j) = (index(n, &w[..cut]), index(n, &w[cut..]));
            if i < a.len() && j < b.len() { s = s.add(&a[i].mul(&b[j])); }
        }
        s
    }).collect()
}

pub fn map<const D: u32>(a: &[Sc<D>], f: impl Fn(&Sc<D>) -> Sc<D>) -> Vec<Sc<D>> { a.iter().map(f).collect() }
pub fn zip<const D: u32>(a: &[Sc<D>], b: &[Sc<D>], f: impl Fn(&Sc<D>, &Sc<D>) -> Sc<D>) -> Vec<Sc<D>> {
    (0..a.len().max(b.len())).map(|i| f(&at(a, i), &at(b, i))).collect()
}
pub fn plus<const D: u32>(a: &[Sc<D>], b: &[Sc<D>]) -> Vec<Sc<D>> { zip(a, b, |x, y| x.add(y)) }
pub fn minus<const D: u32>(a: &[Sc<D>], b: &[Sc<D>]) -> Vec<Sc<D>> { zip(a, b, |x, y| x.sub(y)) }

// Sparse vectors over keys of which only equality is known.
#[derive(Debug)]
pub struct KeyBasis;
impl Basis for KeyBasis { type KeyType = Key; }
pub type S = SimpleSparseVector<'static, KeyBasis, Sym, Key>;

/// What a sparse vector should hold.
#[derive(Clone)]
pub struct Map(pub Vec<(Key, Sym)>);
impl Map {
    pub fn new() -> Map { Map(vec![]) }
    pub fn get(&self, k: &Key) -> Option<Sym> { self.0.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone()) }
    pub fn or0(&self, k: &Key) -> Sym { self.get(k).unwrap_or(Sc(0)) }
    pub fn set(&mut self, k: &Key, v: Sym) {
        for e in self.0.iter_mut() { if e.0 == *k { e.1 = v; return; } }
        self.0.push((k.clone(), v));
    }
    pub fn del(&mut self, k: &Key) { if let Some(i) = self.0.iter().position(|(x, _)| x == k) { self.0.remove(i); } }
    pub fn keys(&self) -> Vec<Key> { self.0.iter().map(|(k, _)| k.clone()).collect() }
}

/// A sparse vector with n arbitrary pairs; equal keys have their values summed.
pub fn sparse(n: usize, nz: bool) -> (S, Map, Vec<Key>) {
    let pairs: Vec<(Key, Sym)> = (0..n).map(|_| (key(), if nz { nonzero() } else { var() })).collect();
    let mut m = Map::new();
    for (k, v) in &pairs { let s = match m.get(k) { Some(x) => x.add(v), None => v.clone() }; m.set(k, s); }
    let keys = pairs.iter().map(|(k, _)| k.clone()).collect();
    (S::from_iterator(pairs), m, keys)
}

/// A sparse vector with n different keys, built by insertion.
pub fn sparse_distinct(n: usize, nz: bool) -> (S, Map, Vec<Key>) {
    let mut m = Map::new();
    let mut s = S::new();
    let mut keys = vec![];
    for _ in 0..n {
        let (k, v) = (key(), if nz { nonzero() } else { var() });
        s.insert_single(&k, v.clone());
        m.set(&k, v);
        keys.push(k);
    }
    (s, m, keys)
}

/// A sparse vector with these coefficients at keys of which everything is known.
pub fn sparse_numbered(first: usize, c: &[Sym]) -> (S, Map, Vec<Key>) {
    let mut m = Map::new();
    let mut s = S::new();
    let mut keys = vec![];
    for (i, v) in c.iter().enumerate() {
        let k = numbered(first + i);
        s.insert_single(&k, v.clone());
        m.0.push((k.clone(), v.clone()));
        keys.push(k);
    }
    (s, m, keys)
}

pub fn holds(s: &S, m: &Map, probe: &[Key], what: &str) {
    for k in probe.iter().cloned().chain(m.keys()) {
        let got = s.get(&k).cloned();
        let want = m.get(&k);
        must(got.is_some() == want.is_some(), || format!("{}: presence of key {:?}: got {}, want {}", what, k, got.is_some(), want.is_some()));
        if let (Some(g), Some(w)) = (got, want) { same(&g, &w, || format!("{}: value at {:?}", what, k)); }
    }
    let mut n = 0;
    for (k, v) in s {
        n += 1;
        match m.get(k) {
            None => must(false, || format!("{}: iteration gives a key that should not be there", what)),
            Some(w) => same(v, &w, || format!("{}: value at {:?} by iteration", what, k)),
        }
    }
    must(n == m.0.len(), || format!("{}: iteration gives {} pairs, expected {}", what, n, m.0.len()));
}

/// The same coefficients, absent keys counting as zero.
pub fn holds_values(s: &S, want: impl Fn(&Key) -> Sym, probe: &[Key], what: &str) {
    for k in probe { same(&s.get(k).cloned().unwrap_or(Sc(0)), &want(k), || format!("{}: coefficient of {:?}", what, k)); }
    for (k, v) in s {
        if probe.iter().any(|p| p == k) { continue; }
        same(v, &zero(), || format!("{}: coefficient of another key {:?}", what, k));
    }
}

// The series, for tensors truncated at degree D.
impl<'v, const N: u32, const D: u32> FreeTensor<'v, Sc<D>, N> for SimpleDenseVector<'v, TensorBasis<N>, Sc<D>> {
    const MAX_DEGREE: u32 = D;
}

/// The sum of c[k] x^k over k, truncated at d.
pub fn series<const D: u32>(n: u32, x: &[Sc<D>], c: &[Sc<D>], d: usize) -> Vec<Sc<D>> {
    let mut pow = vec![one::<D>()];
    let mut sum = vec![];
    for (k, ck) in c.iter().enumerate() {
        if k > 0 { pow = product(n, &pow, x, d); }
        sum = plus(&sum, &map(&pow, |p| p.mul(ck)));
    }
    sum
}
pub fn exp_coefs<const D: u32>() -> Vec<Sc<D>> {
    let mut f = one::<D>();
    (0..=D as i16).map(|k| { if k > 0 { f = f.div(&int(k)); } f.clone() }).collect()
}
pub fn log_coefs<const D: u32>() -> Vec<Sc<D>> {
    (0..=D as i16).map(|k| if k == 0 { zero() } else { int::<D>(if k % 2 == 1 { 1 } else { -1 }).div(&int(k)) }).collect()
}
/// A tensor with the given constant term and n coefficients in all.
pub fn with_constant<const N: u32, const D: u32>(c0: Sc<D>, n: usize) -> (V<N, D>, Vec<Sc<D>>) {
    let mut c = vars::<D>(n);
    c[0] = c0;
    (V::<N, D>::from(c.clone()), c)
}
