//! Products of tensors of every shape, under Kani's pointer, bounds and allocation checks.
//! The coefficients are bytes as a Boolean ring (sum: xor, product: and), so the values of the
//! product are decided along with the accesses.
use crate::nd;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::coefficients::*;
use rustyalgebra::basis::*;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use rustyalgebra::vector::*;
use std::borrow::{Borrow, BorrowMut};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct R(u8);
impl From<i8> for R { fn from(x: i8) -> R { R(x as u8) } }
impl From<i16> for R { fn from(x: i16) -> R { R(x as u8) } }
impl FromDegreeType for R { fn from_degree(d: &u32) -> R { R(*d as u8) } }
impl CoefficientBase for R {}
impl Commutative for R {}
impl CoefficientField for R {
    type RationalType = R;
    const ZERO: R = R(0);
    const ONE: R = R(255);
    const MONE: R = R(255);
    fn uminus(&self) -> R { R(self.0) }
    fn inv(x: impl Borrow<R>) -> R { R(x.borrow().0) }
    fn add(&self, o: &R) -> R { R(self.0 ^ o.0) }
    fn sub(&self, o: &R) -> R { R(self.0 ^ o.0) }
    fn mul(&self, o: &R) -> R { R(self.0 & o.0) }
    fn div(&self, o: &R) -> R { R(self.0 & o.0) }
    fn add_inplace(&mut self, o: &R) -> &mut R { self.0 ^= o.0; self }
    fn sub_inplace(&mut self, o: &R) -> &mut R { self.0 ^= o.0; self }
    fn mul_inplace(&mut self, o: &R) -> &mut R { self.0 &= o.0; self }
    fn div_inplace(&mut self, o: &R) -> &mut R { self.0 &= o.0; self }
}
/// Room behind every tensor, with a pattern that must neither be read nor written.
const CAP: usize = 40;
const fn guard(i: usize) -> R { R(0x80 | (i as u8).wrapping_mul(29)) }
const EMPTY: [R; CAP] = { let mut a = [R(0); CAP]; let mut i = 0; while i < CAP { a[i] = guard(i); i += 1; } a };

/// A resizeable dense vector, for which the library implements the products.
#[derive(PartialEq)]
pub struct V<const N: u32> { data: [R; CAP], len: usize }
impl<const N: u32> V<N> {
    fn intact(&self) {
        if self.len < CAP {
            let i = nd::urange(self.len, CAP - 1);
            assert!(self.data[i].0 == EMPTY[i].0);
        }
    }
}
impl<'v, const N: u32> Vector<'v> for V<N> {
    type BasisType = TensorBasis<N>;
    type KeyType = TensorKey<N>;
    type ScalarType = R;
    type RationalType = R;
    fn new() -> Self { V { data: EMPTY, len: 0 } }
    fn from_key(k: impl Into<TensorKey<N>>) -> Self { Self::from_key_scalar(k, R::ONE) }
    fn from_key_scalar(k: impl Into<TensorKey<N>>, s: impl Into<R>) -> Self {
        let mut v = Self::new();
        v.insert_single(&k.into(), s);
        v
    }
    fn from_iterator(it: impl IntoIterator<Item = (TensorKey<N>, R)>) -> Self {
        let mut v = Self::new();
        for (k, s) in it { v.add_at(&k, s); }
        v
    }
    fn swap(&mut self, mut other: impl BorrowMut<Self>) { std::mem::swap(self, other.borrow_mut()); }
    fn to_owned(&self) -> Self { V { data: self.data, len: self.len } }
    fn clear(&mut self) { self.data = EMPTY; self.len = 0; }
    fn get(&self, k: impl Borrow<TensorKey<N>>) -> Option<&R> { DenseVector::as_slice(self).get(TensorBasis::<N>::key_to_index(k.borrow())) }
    fn get_mut(&mut self, k: impl Borrow<TensorKey<N>>) -> Option<&mut R> { DenseVector::as_mut_slice(self).get_mut(TensorBasis::<N>::key_to_index(k.borrow())) }
    fn insert_single(&mut self, k: &TensorKey<N>, s: impl Into<R>) {
        let i = TensorBasis::<N>::key_to_index(k);
        if i >= self.len { self.resize(TensorBasis::<N>::vector_dimension_for_key(k)); }
        self.data[i] = s.into();
    }
    fn insert(&mut self, it: impl IntoIterator<Item = (TensorKey<N>, R)>) { for (k, s) in it { self.insert_single(&k, s); } }
    fn erase(&mut self, k: impl Borrow<TensorKey<N>>) { if let Some(v) = self.get_mut(k) { *v = R::ZERO; } }
    fn uminus_inplace(&mut self) -> &mut Self { self }
    fn add_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self {
        let o = o.borrow();
        if o.len > self.len { self.resize(o.len); }
        let mut i = 0;
        while i < o.len { self.data[i].0 ^= o.data[i].0; i += 1; }
        self
    }
    fn sub_inplace(&mut self, o: impl Borrow<Self>) -> &mut Self { self.add_inplace(o) }
    fn scalar_lmultiply_inplace(&mut self, s: impl Into<R>) -> &mut Self {
        let s = s.into();
        let mut i = 0;
        while i < self.len { self.data[i].0 &= s.0; i += 1; }
        self
    }
    fn scalar_rdivide_inplace(&mut self, s: impl Into<R>) -> &mut Self { self.scalar_lmultiply_inplace(s) }
}
impl<const N: u32> V<N> {
    fn add_at(&mut self, k: &TensorKey<N>, s: R) {
        let i = TensorBasis::<N>::key_to_index(k);
        if i >= self.len { self.resize(TensorBasis::<N>::vector_dimension_for_key(k)); }
        self.data[i].0 ^= s.0;
    }
}
impl<'v, const N: u32> DenseVector<'v> for V<N> {
    fn as_slice(&self) -> &[R] { &self.data[..self.len] }
    fn as_mut_slice(&mut self) -> &mut [R] { &mut self.data[..self.len] }
}
impl<'v, const N: u32> ResizeableDenseVector<'v> for V<N> {
    fn resize(&mut self, n: usize) {
        assert!(n <= CAP);
        let mut i = self.len;
        while i < n { self.data[i] = R::ZERO; i += 1; }
        while i > n { i -= 1; self.data[i] = guard(i); }
        self.len = n;
    }
}
impl<'v, const N: u32> VectorWithDegree<'v> for V<N> {
    fn degree(&self) -> u32 { if self.len == 0 { 0 } else { <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(self.len - 1) } }
}

const MAX: usize = 32;
/// n arbitrary coefficients; the rest is zero.
fn coefs(n: usize) -> [u8; MAX] {
    let mut a = [0u8; MAX];
    let mut i = 0;
    while i < n { a[i] = nd::u8(); i += 1; }
    a
}
fn tensor<const N: u32>(a: &[u8; MAX], n: usize) -> V<N> {
    let mut v = V::<N>::new();
    v.len = n;
    let mut i = 0;
    while i < n { v.data[i] = R(a[i]); i += 1; }
    v
}
const fn pow(n: usize, e: usize) -> usize { let mut r = 1; let mut i = 0; while i < e { r *= n; i += 1; } r }
const fn start(n: usize, d: usize) -> usize { let mut r = 0; let mut i = 0; while i < d { r += pow(n, i); i += 1; } r }
/// For each index, its degree and the ways to split its word: pairs of indices.
const fn splits(n: usize) -> [(usize, [(usize, usize); 8]); CAP] {
    let mut t = [(0, [(0, 0); 8]); CAP];
    let mut i = 0;
    while i < CAP {
        let mut deg = 0;
        while start(n, deg + 1) <= i && deg < 7 { deg += 1; }
        t[i].0 = deg;
        let w = i - start(n, deg);
        let mut cut = 0;
        while cut <= deg {
            t[i].1[cut] = (start(n, cut) + w / pow(n, deg - cut), start(n, deg - cut) + w % pow(n, deg - cut));
            cut += 1;
        }
        i += 1;
    }
    t
}
struct Split<const N: u32>;
impl<const N: u32> Split<N> { const T: [(usize, [(usize, usize); 8]); CAP] = splits(N as usize); }

/// The coefficient at one index of the product truncated at d.
fn product<const N: u32>(a: &[u8; MAX], n: usize, b: &[u8; MAX], m: usize, i: usize, d: usize) -> u8 {
    let (deg, pairs) = &Split::<N>::T[i];
    if *deg > d { return 0; }
    let mut s = 0;
    let mut cut = 0;
    while cut <= *deg {
        let (x, y) = pairs[cut];
        if x < n && y < m { s ^= a[x] & b[y]; }
        cut += 1;
    }
    s
}
fn unchanged<const N: u32>(r: &V<N>, c: &[u8; MAX], n: usize) {
    assert!(r.len == n);
    r.intact();
    if n > 0 {
        let i = nd::urange(0, n - 1);
        assert!(r.data[i].0 == c[i]);
    }
}
/// Exactly the coefficients base + product.
fn check<const N: u32>(r: &V<N>, base: &[u8; MAX], k: usize, a: &[u8; MAX], n: usize, b: &[u8; MAX], m: usize, d: usize, upto: usize) {
    r.intact();
    let mut i = 0;
    while i < upto || i < r.len {
        let want = product::<N>(a, n, b, m, i, d) ^ if i < k { base[i] } else { 0 };
        let got = if i < r.len { r.data[i].0 } else { 0 };
        assert!(got == want);
        i += 1;
    }
}
const NONE: [u8; MAX] = [0; MAX];

fn multiply<const N: u32>(n: usize, m: usize, d: usize, upto: usize) {
    let (ca, cb) = (coefs(n), coefs(m));
    let (a, b) = (tensor::<N>(&ca, n), tensor::<N>(&cb, m));
    let r = a.multiply(&b, Some(d as u32));
    check::<N>(&r, &NONE, 0, &ca, n, &cb, m, d, upto);
    unchanged(&a, &ca, n);
    unchanged(&b, &cb, m);
}
fn inplace<const N: u32>(n: usize, m: usize, d: usize, upto: usize) {
    let (ca, cb) = (coefs(n), coefs(m));
    let (mut a, b) = (tensor::<N>(&ca, n), tensor::<N>(&cb, m));
    a.multiply_inplace(&b, Some(d as u32));
    check::<N>(&a, &NONE, 0, &ca, n, &cb, m, d, upto);
    unchanged(&b, &cb, m);
}
fn update<const N: u32>(k: usize, n: usize, m: usize, d: usize, upto: usize, sub: bool) {
    let (ct, ca, cb) = (coefs(k), coefs(n), coefs(m));
    let (mut t, a, b) = (tensor::<N>(&ct, k), tensor::<N>(&ca, n), tensor::<N>(&cb, m));
    if sub { t.sub_mul(&a, &b, Some(d as u32)); } else { t.add_mul(&a, &b, Some(d as u32)); }
    check::<N>(&t, &ct, k, &ca, n, &cb, m, d, upto);
    unchanged(&a, &ca, n);
    unchanged(&b, &cb, m);
}
// letters, [coefficients of the target,] of the left and right operand, truncation degree
harnesses! {
    c15q_mul_1_0_2_3 [42] { multiply::<1>(0, 2, 3, 4) }
    c15q_mul_1_3_2_9 [42] { multiply::<1>(3, 2, 9, 6) }
    c15q_mul_1_4_4_3 [42] { multiply::<1>(4, 4, 3, 6) }
    c15q_mul_2_0_0_2 [42] { multiply::<2>(0, 0, 2, 3) }
    c15q_mul_2_0_5_2 [42] { multiply::<2>(0, 5, 2, 9) }
    c15q_mul_2_5_0_2 [42] { multiply::<2>(5, 0, 2, 9) }
    c15q_mul_2_1_4_3 [42] { multiply::<2>(1, 4, 3, 9) }
    c15q_mul_2_4_1_2 [42] { multiply::<2>(4, 1, 2, 9) }
    c15q_mul_2_2_2_2 [42] { multiply::<2>(2, 2, 2, 9) }
    c15q_mul_2_2_3_1 [42] { multiply::<2>(2, 3, 1, 5) }
    c15q_mul_2_3_3_0 [42] { multiply::<2>(3, 3, 0, 3) }
    c15q_mul_2_3_3_2 [42] { multiply::<2>(3, 3, 2, 9) }
    c15q_mul_2_3_3_4 [42] { multiply::<2>(3, 3, 4, 9) }
    c15q_mul_2_4_4_4 [42] { multiply::<2>(4, 4, 4, 33) }
    c15q_mul_2_5_6_3 [42] { multiply::<2>(5, 6, 3, 17) }
    c15q_mul_2_6_5_2 [42] { multiply::<2>(6, 5, 2, 9) }
    c15q_mul_2_7_2_3 [42] { multiply::<2>(7, 2, 3, 17) }
    c15q_mul_2_2_7_3 [42] { multiply::<2>(2, 7, 3, 17) }
    c15q_mul_2_7_7_2 [42] { multiply::<2>(7, 7, 2, 9) }
    c15q_mul_2_7_4_1 [42] { multiply::<2>(7, 4, 1, 5) }
    c15q_mul_3_2_3_2 [42] { multiply::<3>(2, 3, 2, 15) }
    c15q_mul_3_3_2_1 [42] { multiply::<3>(3, 2, 1, 6) }
    c15q_mul_3_4_4_2 [42] { multiply::<3>(4, 4, 2, 15) }
    c15q_mul_3_5_2_3 [42] { multiply::<3>(5, 2, 3, 40) }
    c15q_mul_3_2_6_2 [42] { multiply::<3>(2, 6, 2, 15) }
    c15q_mul_3_6_6_1 [42] { multiply::<3>(6, 6, 1, 6) }
    c15q_mul_5_3_4_2 [42] { multiply::<5>(3, 4, 2, 33) }
    c15q_mul_5_6_2_2 [42] { multiply::<5>(6, 2, 2, 33) }
    c15q_inplace_1_3_2_4 [42] { inplace::<1>(3, 2, 4, 6) }
    c15q_inplace_2_0_3_2 [42] { inplace::<2>(0, 3, 2, 5) }
    c15q_inplace_2_3_0_2 [42] { inplace::<2>(3, 0, 2, 5) }
    c15q_inplace_2_2_2_3 [42] { inplace::<2>(2, 2, 3, 9) }
    c15q_inplace_2_5_4_2 [42] { inplace::<2>(5, 4, 2, 9) }
    c15q_inplace_2_7_3_1 [42] { inplace::<2>(7, 3, 1, 9) }
    c15q_inplace_2_1_6_2 [42] { inplace::<2>(1, 6, 2, 9) }
    c15q_inplace_2_6_5_3 [42] { inplace::<2>(6, 5, 3, 17) }
    c15q_inplace_3_3_3_2 [42] { inplace::<3>(3, 3, 2, 15) }
    c15q_inplace_3_5_2_2 [42] { inplace::<3>(5, 2, 2, 15) }
    c15q_inplace_3_4_6_1 [42] { inplace::<3>(4, 6, 1, 6) }
    c15q_add_1_2_3_3_2 [42] { update::<1>(2, 3, 3, 2, 5, false) }
    c15q_sub_2_0_2_3_2 [42] { update::<2>(0, 2, 3, 2, 9, true) }
    c15q_add_2_2_2_2_2 [42] { update::<2>(2, 2, 2, 2, 9, false) }
    c15q_add_2_5_3_2_2 [42] { update::<2>(5, 3, 2, 2, 9, false) }
    c15q_sub_2_9_4_3_1 [42] { update::<2>(9, 4, 3, 1, 11, true) }
    c15q_add_2_4_0_5_2 [42] { update::<2>(4, 0, 5, 2, 9, false) }
    c15q_add_2_7_5_4_2 [42] { update::<2>(7, 5, 4, 2, 9, false) }
    c15q_sub_2_16_2_2_1 [42] { update::<2>(16, 2, 2, 1, 18, true) }
    c15q_add_2_1_7_2_3 [42] { update::<2>(1, 7, 2, 3, 17, false) }
    c15q_add_3_2_3_2_2 [42] { update::<3>(2, 3, 2, 2, 15, false) }
    c15q_sub_3_6_4_2_2 [42] { update::<3>(6, 4, 2, 2, 15, true) }
    c15q_add_3_20_3_5_1 [42] { update::<3>(20, 3, 5, 1, 22, false) }
}
refusals! {}
