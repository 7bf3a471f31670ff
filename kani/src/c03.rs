use crate::nd;
use crate::words::*;
use rustyalgebra::free_tensor::TensorKey;

/// All pairs (u, v) that fit together.
fn join<const N: u32>(u: Word, v: Word) {
    let max = depth::<N>();
    nd::assume(u.n + v.n <= max);
    let (a, b) = (u.key::<N>(), v.key::<N>());
    let (a0, b0) = (a.clone(), b.clone());
    let c = a.concatenate(&b);
    assert!(spells_join(&u, &v, &c));
    assert!(a == a0 && b == b0);
}

/// The concatenation is the very key made from the joined letters.
fn canonical<const N: u32>(cap: usize) {
    let w = word::<N>(bounded::<N>(cap));
    let cut = nd::urange(0, w.n);
    let a = TensorKey::<N>::from_letters(&w.l[..cut]);
    let b = TensorKey::<N>::from_letters(&w.l[cut..w.n]);
    assert!(a.concatenate(&b) == w.key::<N>());
}

fn three<const N: u32>(u: Word, v: Word, w: Word) {
    let max = depth::<N>();
    nd::assume(u.n + v.n + w.n <= max);
    let (a, b, c) = (u.key::<N>(), v.key::<N>(), w.key::<N>());
    assert!(a.concatenate(&b).concatenate(&c) == a.concatenate(&b.concatenate(&c)));
}

fn unit<const N: u32>(w: Word) {
    let k = w.key::<N>();
    let e = TensorKey::<N>::new();
    assert!(e.concatenate(&k) == k && k.concatenate(&e) == k);
    assert!(w.spelled_by(&e.concatenate(&k)) && w.spelled_by(&k.concatenate(&e)));
}

harnesses! {
    c03q_join_2_16_14_len [34] { join::<2>(word_of::<2>(16), word_of::<2>(14)) }
    c03q_join_2_10_20_len [34] { join::<2>(word_of::<2>(10), word_of::<2>(20)) }
    c03q_join_2_4_12_len [34] { join::<2>(word_of::<2>(4), word_of::<2>(12)) }
    c03q_join_3_4_25_len [34] { join::<3>(word_of::<3>(4), word_of::<3>(25)) }
    c03q_join_3_10_10_len [34] { join::<3>(word_of::<3>(10), word_of::<3>(10)) }
    c03q_join_3_20_9_len [34] { join::<3>(word_of::<3>(20), word_of::<3>(9)) }
    c03q_join_4_16_4_len [34] { join::<4>(word_of::<4>(16), word_of::<4>(4)) }
    c03q_join_5_2_17_len [34] { join::<5>(word_of::<5>(2), word_of::<5>(17)) }
    c03q_join_5_19_1_len [34] { join::<5>(word_of::<5>(19), word_of::<5>(1)) }
    c03q_join_10_5_10_len [34] { join::<10>(word_of::<10>(5), word_of::<10>(10)) }
    c03q_join_10_14_1_len [34] { join::<10>(word_of::<10>(14), word_of::<10>(1)) }
    c03q_join_2 [14] { join::<2>(word::<2>(8), word::<2>(8)) }
    c03q_join_2_deep [34] { join::<2>(word::<2>(1), word_of::<2>(29)) }
    c03q_join_3 [14] { join::<3>(word::<3>(8), word::<3>(8)) }
    c03q_join_3_15 [34] { join::<3>(word_of::<3>(15), word_of::<3>(15)) }
    c03q_join_3_29 [34] { join::<3>(word_of::<3>(29), word_of::<3>(1)) }
    c03q_join_3_30 [34] { join::<3>(word_of::<3>(64), word_of::<3>(0)) }
    c03q_join_4 [24] { join::<4>(word::<4>(8), word_of::<4>(12)) }
    c03q_join_5 [24] { join::<5>(word::<5>(10), word::<5>(10)) }
    c03q_join_10 [19] { join::<10>(word::<10>(64), word::<10>(64)) }
    c03q_join_26 [16] { join::<26>(word::<26>(64), word::<26>(64)) }
    c03q_join_255 [16] { join::<255>(word::<255>(64), word::<255>(64)) }
    c03q_join_1024 [16] { join::<1024>(word::<1024>(64), word::<1024>(64)) }
    c03q_join_70000 [24] { join::<70000>(word::<70000>(64), word::<70000>(64)) }
    c03q_join_1 [64] { join::<1>(word_of::<1>(29), word_of::<1>(30)) }
    c03t_join_1 [64] { join::<1>(word::<1>(64), word::<1>(64)) }
    c03t_join_2_full [34] { join::<2>(word::<2>(64), word::<2>(64)) }
    c03t_join_3_full [34] { join::<3>(word::<3>(64), word::<3>(64)) }
    c03t_join_4_full [24] { join::<4>(word::<4>(64), word::<4>(64)) }
    c03t_join_5_full [24] { join::<5>(word::<5>(64), word::<5>(64)) }
    c03t_join_7 [24] { join::<7>(word::<7>(64), word::<7>(64)) }
    c03t_join_100 [24] { join::<100>(word::<100>(64), word::<100>(64)) }
    c03t_join_big [32] { join::<1000000>(word::<1000000>(64), word::<1000000>(64)) }
    c03q_canon_2 [14] { canonical::<2>(6) }
    c03q_canon_3 [14] { canonical::<3>(6) }
    c03q_canon_10 [19] { canonical::<10>(4) }
    c03q_canon_1024 [16] { canonical::<1024>(64) }
    c03q_three_3 [10] { three::<3>(word::<3>(6), word::<3>(6), word::<3>(6)) }
    c03q_three_10 [10] { three::<10>(word::<10>(6), word::<10>(6), word::<10>(6)) }
    c03q_three_1024 [16] { three::<1024>(word::<1024>(64), word::<1024>(64), word::<1024>(64)) }
    c03t_three_3_full [34] { three::<3>(word::<3>(64), word::<3>(64), word::<3>(64)) }
    c03t_three_2_full [34] { three::<2>(word::<2>(64), word::<2>(64), word::<2>(64)) }
    c03q_unit_2 [34] { unit::<2>(word_of::<2>(64)) }
    c03q_unit_3 [14] { unit::<3>(word::<3>(12)) }
    c03q_unit_5 [24] { unit::<5>(word_of::<5>(64)) }
    c03q_unit_10 [19] { unit::<10>(word::<10>(64)) }
    c03q_unit_1024 [16] { unit::<1024>(word::<1024>(64)) }
    c03t_unit_2 [34] { unit::<2>(word::<2>(64)) }
    c03t_unit_3 [34] { unit::<3>(word::<3>(64)) }
}
refusals! {}
