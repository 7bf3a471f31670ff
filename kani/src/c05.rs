use crate::nd;
use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::TensorBasis;
use std::cmp::Ordering;

fn sign(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

fn words<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let (u, v) = (word::<N>(max), word::<N>(max));
    let (a, b) = (u.key::<N>(), v.key::<N>());
    assert!(sign(TensorBasis::<N>::compare(&a, &b)) == u.order(&v));
}

/// Against the indices the code itself computes.
fn indices<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let (u, v) = (word::<N>(max), word::<N>(max));
    let (a, b) = (u.key::<N>(), v.key::<N>());
    let (i, j) = (TensorBasis::<N>::key_to_index(&a), TensorBasis::<N>::key_to_index(&b));
    assert!(TensorBasis::<N>::compare(&a, &b) == i.cmp(&j));
    assert!((TensorBasis::<N>::compare(&a, &b) == Ordering::Equal) == (a == b));
}

fn laws<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let (u, v, w) = (word::<N>(max), word::<N>(max), word::<N>(max));
    let (a, b, c) = (u.key::<N>(), v.key::<N>(), w.key::<N>());
    let ab = TensorBasis::<N>::compare(&a, &b);
    assert!(ab == TensorBasis::<N>::compare(&b, &a).reverse());
    if ab != Ordering::Greater && TensorBasis::<N>::compare(&b, &c) != Ordering::Greater {
        assert!(TensorBasis::<N>::compare(&a, &c) != Ordering::Greater);
    }
    nd::assume(true);
}

harnesses! {
    c05q_words_2 [34] { words::<2>(64) }
    c05q_words_3 [34] { words::<3>(64) }
    c05q_words_4 [24] { words::<4>(64) }
    c05q_words_5 [24] { words::<5>(64) }
    c05q_words_10 [19] { words::<10>(64) }
    c05q_words_26 [19] { words::<26>(64) }
    c05q_words_1024 [16] { words::<1024>(64) }
    c05q_words_70000 [24] { words::<70000>(64) }
    c05t_words_1 [64] { words::<1>(64) }
    c05q_index_2 [12] { indices::<2>(8) }
    c05q_index_3 [8] { indices::<3>(6) }
    c05q_index_10 [8] { indices::<10>(4) }
    c05q_laws_3 [12] { laws::<3>(10) }
    c05q_laws_10 [19] { laws::<10>(10) }
    c05t_laws_2 [34] { laws::<2>(64) }
}
refusals! {}
