use crate::nd;
use crate::words::*;
use rustyalgebra::basis::*;
use rustyalgebra::free_tensor::TensorBasis;

/// start[d] = number of words shorter than d, for d up to `upto`.
fn starts<const N: u32>(upto: usize) -> [usize; CAP + 2] {
    let mut s = [0usize; CAP + 2];
    let mut p = 1usize;
    let mut d = 1;
    while d <= upto {
        s[d] = s[d - 1] + p;
        if d < upto { p *= N as usize; }
        d += 1;
    }
    s
}

fn word_degrees<const N: u32>(cap: usize) {
    let w = word::<N>(bounded::<N>(cap));
    assert!(TensorBasis::<N>::degree(&w.key::<N>()) as usize == w.n);
}

fn start<const N: u32>(upto: usize) {
    let s = starts::<N>(upto);
    let d = nd::urange(0, upto);
    let mut j = 0;
    while j <= upto {
        if d == j { assert!(<TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(j as u32) == s[j]); }
        j += 1;
    }
}

/// Every index of a word of at most `upto` letters.
fn index_degrees<const N: u32>(upto: usize) {
    let s = starts::<N>(upto + 1);
    let i = nd::urange(0, s[upto + 1] - 1);
    let d = <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i);
    let mut want = 0;
    let mut j = 1;
    while j <= upto { if i >= s[j] { want = j; } j += 1; }
    assert!(d as usize == want);
}

fn key_dimension<const N: u32>(upto: usize) {
    let s = starts::<N>(upto + 1);
    let mut w = word::<N>(upto);
    let n = w.n;
    let mut j = 0;
    while j <= upto {
        if n == j {
            w.n = j;
            assert!(TensorBasis::<N>::vector_dimension_for_key(&w.key::<N>()) == s[j + 1]);
        }
        j += 1;
    }
}

fn index_dimension<const N: u32>(upto: usize) {
    let s = starts::<N>(upto + 1);
    let i = nd::urange(0, s[upto + 1] - 1);
    let dim = TensorBasis::<N>::vector_dimension_for_index(i);
    let mut want = s[1];
    let mut j = 1;
    while j <= upto { if i >= s[j] { want = s[j + 1]; } j += 1; }
    assert!(dim == want && dim > i);
}

fn both<const N: u32>(cap: usize) {
    let w = word::<N>(cap);
    let k = w.key::<N>();
    let i = TensorBasis::<N>::key_to_index(&k);
    assert!(<TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i) == TensorBasis::<N>::degree(&k));
    assert!(TensorBasis::<N>::vector_dimension_for_index(i) == TensorBasis::<N>::vector_dimension_for_key(&k));
    assert!(TensorBasis::<N>::vector_dimension_for_key(&k) > i);
}

fn max_degree<const N: u32>() {
    assert!(TensorBasis::<N>::max_degree() as usize == depth::<N>());
    nd::assume(true);
}

harnesses! {
    c07q_word_2 [34] { word_degrees::<2>(64) }
    c07q_word_3 [34] { word_degrees::<3>(64) }
    c07q_word_10 [24] { word_degrees::<10>(64) }
    c07q_word_1024 [16] { word_degrees::<1024>(64) }
    c07q_start_1 [64] { start::<1>(59) }
    c07q_start_2 [64] { start::<2>(31) }
    c07q_start_3 [64] { start::<3>(31) }
    c07q_start_5 [64] { start::<5>(21) }
    c07q_start_10 [64] { start::<10>(16) }
    c07q_start_255 [64] { start::<255>(7) }
    c07q_start_1024 [64] { start::<1024>(6) }
    c07q_start_70000 [64] { start::<70000>(3) }
    c07q_ideg_1 [64] { index_degrees::<1>(58) }
    c07q_ideg_2 [64] { index_degrees::<2>(30) }
    c07q_ideg_3 [64] { index_degrees::<3>(30) }
    c07q_ideg_5 [64] { index_degrees::<5>(20) }
    c07q_ideg_10 [64] { index_degrees::<10>(15) }
    c07q_ideg_1024 [64] { index_degrees::<1024>(5) }
    c07q_kdim_1 [64] { key_dimension::<1>(20) }
    c07q_kdim_2 [64] { key_dimension::<2>(12) }
    c07q_kdim_3 [64] { key_dimension::<3>(12) }
    c07q_kdim_10 [64] { key_dimension::<10>(10) }
    c07q_kdim_1024 [64] { key_dimension::<1024>(5) }
    c07t_kdim_3_deep [64] { key_dimension::<3>(30) }
    c07q_idim_1 [64] { index_dimension::<1>(12) }
    c07q_idim_2 [64] { index_dimension::<2>(6) }
    c07q_idim_3 [64] { index_dimension::<3>(5) }
    c07q_idim_10 [64] { index_dimension::<10>(3) }
    c07t_idim_3_deep [64] { index_dimension::<3>(12) }
    c07t_idim_2_deep [64] { index_dimension::<2>(20) }
    c07q_both_2 [12] { both::<2>(5) }
    c07q_both_3 [12] { both::<3>(4) }
    c07q_both_1 [12] { both::<1>(5) }
    c07q_max_3 [12] { max_degree::<3>() }
}
refusals! {}
