use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

type Keys<const N: u32> = <TensorBasis<N> as OrderedBasis>::KeyIterator;

fn is_word<const N: u32>(got: Option<TensorKey<N>>, want: &Word) {
    match got {
        Some(k) => {
            assert!(want.spelled_by(&k));
        }
        None => assert!(false),
    }
}

/// From an arbitrary word: that word, then the next ones; the end right after the last.
fn steps<const N: u32>(w: Word, n: usize) {
    let mut w = w;
    let mut it = Keys::<N>::starting_from(w.key::<N>());
    let mut ended = false;
    let mut i = 0;
    while i < n {
        if ended {
            assert!(it.next().is_none());
        } else {
            is_word::<N>(it.next(), &w);
            if w.n == depth::<N>() && w.is_last_of_length::<N>() { ended = true; } else {
                w = w.successor::<N>();
                if w.max > depth::<N>() { w.max = depth::<N>(); }
            }
        }
        i += 1;
    }
}

/// Around the last word of a given length: the last `m` letters are arbitrary after a run of Ns.
fn around<const N: u32>(d: usize, m: usize, n: usize) {
    let d = bounded::<N>(d);
    let mut l = [1u32; CAP];
    let mut i = 0;
    while i < d { l[i] = if i < d - m { N } else { crate::nd::range(1, N) }; i += 1; }
    let mut w = Word { l, n: d, max: d };
    let mut it = Keys::<N>::starting_from(w.key::<N>());
    let mut ended = false;
    let mut i = 0;
    while i < n {
        if ended {
            assert!(it.next().is_none());
        } else {
            is_word::<N>(it.next(), &w);
            if w.n == depth::<N>() && w.is_last_of_length::<N>() { ended = true; } else {
                w = w.successor::<N>();
                if w.max > depth::<N>() { w.max = depth::<N>(); }
            }
        }
        i += 1;
    }
}

/// From the start of the basis, an arbitrary number of steps up to `n`.
fn first<const N: u32>(n: usize) {
    let stop = crate::nd::urange(0, n - 1);
    let mut w = Word { l: [1; CAP], n: 0, max: 0 };
    let mut it = TensorBasis::<N>::iter_keys();
    let mut i = 0;
    while i < n {
        let k = it.next();
        if i == stop { is_word::<N>(k, &w); }
        w = w.successor::<N>();
        i += 1;
    }
}

harnesses! {
    c06q_steps_2_8_len [33] { steps::<2>(word_of::<2>(8), 2) }
    c06q_steps_2_12_len [33] { steps::<2>(word_of::<2>(12), 2) }
    c06q_steps_2_16_len [33] { steps::<2>(word_of::<2>(16), 2) }
    c06q_steps_2_17_len [33] { steps::<2>(word_of::<2>(17), 2) }
    c06q_steps_2_29_len [33] { steps::<2>(word_of::<2>(29), 2) }
    c06q_steps_3_8_len [33] { steps::<3>(word_of::<3>(8), 2) }
    c06q_steps_3_16_len [33] { steps::<3>(word_of::<3>(16), 2) }
    c06q_steps_3_29_len [33] { steps::<3>(word_of::<3>(29), 2) }
    c06q_steps_5_8_len [33] { steps::<5>(word_of::<5>(8), 2) }
    c06q_steps_5_16_len [33] { steps::<5>(word_of::<5>(16), 2) }
    c06q_steps_10_8_len [33] { steps::<10>(word_of::<10>(8), 2) }
    c06q_steps_10_14_len [33] { steps::<10>(word_of::<10>(14), 2) }
    c06q_steps_26_5_len [33] { steps::<26>(word_of::<26>(5), 2) }
    c06q_steps_4_16_len [33] { steps::<4>(word_of::<4>(16), 2) }
    c06q_steps_2 [10] { steps::<2>(word::<2>(5), 3) }
    c06q_steps_3 [10] { steps::<3>(word::<3>(4), 3) }
    c06q_steps_5 [10] { steps::<5>(word::<5>(4), 2) }
    c06q_steps_10 [10] { steps::<10>(word::<10>(4), 2) }
    c06q_steps_1024 [14] { steps::<1024>(word_of::<1024>(64), 3) }
    c06q_steps_1024_4 [14] { steps::<1024>(word_of::<1024>(4), 2) }
    c06q_steps_255 [14] { steps::<255>(word_of::<255>(64), 2) }
    c06q_steps_10_15 [18] { steps::<10>(word_of::<10>(64), 2) }
    c06t_steps_5_20 [23] { steps::<5>(word_of::<5>(64), 2) }
    c06q_steps_3_30 [33] { steps::<3>(word_of::<3>(64), 2) }
    c06q_steps_2_30 [33] { steps::<2>(word_of::<2>(64), 2) }
    c06q_steps_3_17 [33] { steps::<3>(word_of::<3>(17), 2) }
    c06t_steps_2 [12] { steps::<2>(word::<2>(8), 3) }
    c06t_steps_3 [12] { steps::<3>(word::<3>(7), 3) }
    c06t_steps_10 [12] { steps::<10>(word::<10>(6), 3) }
    c06t_steps_10_deep [19] { steps::<10>(word::<10>(64), 3) }
    c06q_end_2 [33] { around::<2>(64, 1, 3) }
    c06q_end_3 [33] { around::<3>(64, 1, 3) }
    c06q_end_5 [23] { around::<5>(64, 1, 3) }
    c06q_roll_3 [33] { around::<3>(17, 1, 3) }
    c06q_first_2 [20] { first::<2>(16) }
    c06q_first_3 [20] { first::<3>(16) }
    c06q_first_1 [20] { first::<1>(16) }
}
refusals! {}
