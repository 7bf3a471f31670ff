use crate::nd;
use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

/// The index of a word is the number of words before it.
fn to_index<const N: u32>(w: Word) {
    assert!(TensorBasis::<N>::key_to_index(&w.key::<N>()) == w.index::<N>());
}

/// Every index whose word has at most `cap` letters gives the word with that index, and back.
fn from_index<const N: u32>(cap: usize) {
    let w = word::<N>(bounded::<N>(cap));
    let i = w.index::<N>();
    let k = TensorBasis::<N>::index_to_key(i);
    assert!(k == w.key::<N>());
    assert!(TensorBasis::<N>::key_to_index(&k) == i);
}

/// Words of `d` letters, the last `m` of them arbitrary after a given prefix.
fn window<const N: u32>(d: usize, m: usize, prefix: impl Fn(usize) -> u32) {
    let mut l = [1u32; CAP];
    let mut i = 0;
    while i < d {
        l[i] = if i < d - m { prefix(i) } else { nd::range(1, N) };
        i += 1;
    }
    let w = Word { l, n: d, max: d };
    let i = w.index::<N>();
    let k = w.key::<N>();
    assert!(TensorBasis::<N>::key_to_index(&k) == i);
    assert!(TensorBasis::<N>::index_to_key(i) == k);
}

harnesses! {
    c04q_to_1_1_len [64] { to_index::<1>(word_of::<1>(1)) }
    c04q_to_1_31_len [64] { to_index::<1>(word_of::<1>(31)) }
    c04q_to_1_32_len [64] { to_index::<1>(word_of::<1>(32)) }
    c04q_to_1_33_len [64] { to_index::<1>(word_of::<1>(33)) }
    c04q_to_1_40_len [64] { to_index::<1>(word_of::<1>(40)) }
    c04q_to_2_12_len [34] { to_index::<2>(word_of::<2>(12)) }
    c04q_to_2_16_len [34] { to_index::<2>(word_of::<2>(16)) }
    c04q_to_2_17_len [34] { to_index::<2>(word_of::<2>(17)) }
    c04q_to_2_21_len [34] { to_index::<2>(word_of::<2>(21)) }
    c04q_to_2_24_len [34] { to_index::<2>(word_of::<2>(24)) }
    c04q_to_2_29_len [34] { to_index::<2>(word_of::<2>(29)) }
    c04q_to_3_9_len [34] { to_index::<3>(word_of::<3>(9)) }
    c04q_to_3_12_len [34] { to_index::<3>(word_of::<3>(12)) }
    c04q_to_3_16_len [34] { to_index::<3>(word_of::<3>(16)) }
    c04q_to_3_17_len [34] { to_index::<3>(word_of::<3>(17)) }
    c04q_to_3_20_len [34] { to_index::<3>(word_of::<3>(20)) }
    c04q_to_3_29_len [34] { to_index::<3>(word_of::<3>(29)) }
    c04q_to_5_8_len [34] { to_index::<5>(word_of::<5>(8)) }
    c04q_to_5_10_len [34] { to_index::<5>(word_of::<5>(10)) }
    c04q_to_5_16_len [34] { to_index::<5>(word_of::<5>(16)) }
    c04q_to_5_17_len [34] { to_index::<5>(word_of::<5>(17)) }
    c04q_to_5_19_len [34] { to_index::<5>(word_of::<5>(19)) }
    c04q_to_10_7_len [34] { to_index::<10>(word_of::<10>(7)) }
    c04q_to_10_8_len [34] { to_index::<10>(word_of::<10>(8)) }
    c04q_to_10_10_len [34] { to_index::<10>(word_of::<10>(10)) }
    c04q_to_10_14_len [34] { to_index::<10>(word_of::<10>(14)) }
    c04q_to_255_4_len [34] { to_index::<255>(word_of::<255>(4)) }
    c04q_to_255_5_len [34] { to_index::<255>(word_of::<255>(5)) }
    c04t_to_255_6_len [34] { to_index::<255>(word_of::<255>(6)) }
    c04q_to_2 [12] { to_index::<2>(word::<2>(8)) }
    c04q_to_3 [12] { to_index::<3>(word::<3>(6)) }
    c04q_to_5 [12] { to_index::<5>(word::<5>(5)) }
    c04q_to_10 [12] { to_index::<10>(word::<10>(4)) }
    c04q_to_1024 [16] { to_index::<1024>(word::<1024>(64)) }
    c04q_to_1 [64] { to_index::<1>(word_of::<1>(64)) }
    c04q_to_2_30 [34] { to_index::<2>(word_of::<2>(64)) }
    c04q_to_3_30 [34] { to_index::<3>(word_of::<3>(64)) }
    c04q_to_5_20 [34] { to_index::<5>(word_of::<5>(64)) }
    c04q_to_10_15 [34] { to_index::<10>(word_of::<10>(64)) }
    c04t_to_255_7 [34] { to_index::<255>(word_of::<255>(64)) }
    c04t_to_1 [64] { to_index::<1>(word::<1>(64)) }
    c04t_to_2_deep [34] { to_index::<2>(word::<2>(64)) }
    c04t_to_3_20 [34] { to_index::<3>(word::<3>(20)) }
    c04t_to_5_14 [34] { to_index::<5>(word::<5>(14)) }
    c04t_to_10_10 [34] { to_index::<10>(word::<10>(10)) }
    c04q_from_2 [10] { from_index::<2>(8) }
    c04q_from_3 [8] { from_index::<3>(6) }
    c04q_from_5 [8] { from_index::<5>(4) }
    c04q_from_10 [8] { from_index::<10>(3) }
    c04q_from_1024 [12] { from_index::<1024>(2) }
    c04q_from_4 [8] { from_index::<4>(5) }
    c04t_from_1 [64] { from_index::<1>(64) }
    c04t_from_3_12 [14] { from_index::<3>(12) }
    c04t_from_10_6 [14] { from_index::<10>(6) }
    c04t_from_2_deep [34] { from_index::<2>(64) }
    c04t_from_4_deep [34] { from_index::<4>(64) }
    c04t_from_1024_deep [16] { from_index::<1024>(64) }
    c04q_from_1 [12] { from_index::<1>(10) }
    c04q_win_2_hi [34] { window::<2>(30, 3, |_| 2) }
    c04q_win_3_lo [34] { window::<3>(30, 2, |_| 1) }
    c04q_win_3_hi [34] { window::<3>(30, 2, |_| 3) }
    c04q_win_3_mix [34] { window::<3>(25, 2, |i| 1 + (i as u32) % 3) }
    c04q_win_10_hi [20] { window::<10>(15, 2, |_| 10) }
    c04q_win_10_mix [20] { window::<10>(13, 2, |i| 1 + (7 * i as u32) % 10) }
    c04q_win_5_hi [24] { window::<5>(20, 2, |_| 5) }
}
refusals! {}
