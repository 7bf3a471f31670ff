use crate::nd;
use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

fn letters<const N: u32>(u: Word, v: Word) {
    let (a, b) = (u.key::<N>(), v.key::<N>());
    assert!((a == b) == u.same(&v));
    assert!((a != b) == !u.same(&v));
    let c = a.clone();
    assert!((c == b) == u.same(&v));
}

/// The key of `w`, made in one of several ways.
fn made<const N: u32>(w: &Word, way: u32) -> TensorKey<N> {
    if way == 0 {
        let cut = nd::urange(0, w.n);
        TensorKey::<N>::from_letters(&w.l[..cut]).concatenate(&TensorKey::<N>::from_letters(&w.l[cut..w.n]))
    } else if way == 1 {
        let mut k = TensorKey::<N>::new();
        let mut i = w.max;
        while i > 0 {
            i -= 1;
            if i < w.n { k.push_front(w.l[i]); }
        }
        k
    } else {
        w.key::<N>().clone()
    }
}

fn ways<const N: u32>(u: Word, v: Word) {
    let way = nd::range(0, 2);
    let a = made::<N>(&u, way);
    let b = v.key::<N>();
    assert!((a == b) == u.same(&v));
    assert!((b == a) == u.same(&v));
}

fn by_index<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let (u, v) = (word::<N>(max), word::<N>(max));
    let a = TensorBasis::<N>::index_to_key(u.index::<N>());
    let b = v.key::<N>();
    assert!((a == b) == u.same(&v));
}

fn by_iteration<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let (u, v) = (word::<N>(max - 1), word::<N>(max));
    let mut it = <TensorBasis<N> as OrderedBasis>::KeyIterator::starting_from(u.key::<N>());
    it.next();
    let a = it.next().unwrap();
    let b = v.key::<N>();
    let s = u.successor::<N>();
    let mut s2 = s;
    s2.max = max;
    assert!((a == b) == s2.same(&v));
}

fn letter<const N: u32>(cap: usize) {
    let l = nd::range(1, N);
    let v = word::<N>(bounded::<N>(cap));
    assert!((TensorKey::<N>::from_letter(l) == v.key::<N>()) == (v.n == 1 && v.l[0] == l));
    assert!((TensorKey::<N>::new() == v.key::<N>()) == (v.n == 0));
}

harnesses! {
    c02q_letters_2_16_16_len [34] { letters::<2>(word_of::<2>(16), word_of::<2>(16)) }
    c02q_letters_2_17_16_len [34] { letters::<2>(word_of::<2>(17), word_of::<2>(16)) }
    c02q_letters_2_24_12_len [34] { letters::<2>(word_of::<2>(24), word_of::<2>(12)) }
    c02q_letters_2_29_13_len [34] { letters::<2>(word_of::<2>(29), word_of::<2>(13)) }
    c02q_letters_3_16_16_len [34] { letters::<3>(word_of::<3>(16), word_of::<3>(16)) }
    c02q_letters_3_12_28_len [34] { letters::<3>(word_of::<3>(12), word_of::<3>(28)) }
    c02q_letters_3_16_15_len [34] { letters::<3>(word_of::<3>(16), word_of::<3>(15)) }
    c02q_letters_5_16_16_len [34] { letters::<5>(word_of::<5>(16), word_of::<5>(16)) }
    c02q_letters_5_17_12_len [34] { letters::<5>(word_of::<5>(17), word_of::<5>(12)) }
    c02q_letters_4_20_20_len [34] { letters::<4>(word_of::<4>(20), word_of::<4>(20)) }
    c02q_letters_255_7_7_len [34] { letters::<255>(word_of::<255>(7), word_of::<255>(7)) }
    c02q_letters_70000_3_3_len [34] { letters::<70000>(word_of::<70000>(3), word_of::<70000>(3)) }
    c02q_letters_70000_3_2_len [34] { letters::<70000>(word_of::<70000>(3), word_of::<70000>(2)) }
    c02q_letters_1_any [64] { letters::<1>(word::<1>(64), word::<1>(64)) }
    c02q_letters_2 [14] { letters::<2>(word::<2>(10), word::<2>(10)) }
    c02q_letters_3 [14] { letters::<3>(word::<3>(10), word::<3>(10)) }
    c02q_letters_5 [14] { letters::<5>(word::<5>(8), word::<5>(8)) }
    c02q_letters_10 [19] { letters::<10>(word::<10>(64), word::<10>(64)) }
    c02q_letters_1024 [16] { letters::<1024>(word::<1024>(64), word::<1024>(64)) }
    c02q_letters_1 [64] { letters::<1>(word_of::<1>(64), word_of::<1>(58)) }
    c02q_letters_2_30 [34] { letters::<2>(word_of::<2>(64), word_of::<2>(64)) }
    c02q_letters_3_30_29 [34] { letters::<3>(word_of::<3>(64), word_of::<3>(29)) }
    c02q_letters_3_30 [34] { letters::<3>(word_of::<3>(64), word_of::<3>(64)) }
    c02q_letters_5_20 [34] { letters::<5>(word_of::<5>(64), word_of::<5>(64)) }
    c02t_letters_2_deep [34] { letters::<2>(word::<2>(64), word::<2>(64)) }
    c02t_letters_3_deep [34] { letters::<3>(word::<3>(64), word::<3>(64)) }
    c02t_letters_5_deep [34] { letters::<5>(word::<5>(64), word::<5>(64)) }
    c02q_ways_2 [10] { ways::<2>(word::<2>(6), word::<2>(6)) }
    c02q_ways_3 [10] { ways::<3>(word::<3>(6), word::<3>(6)) }
    c02q_ways_10 [10] { ways::<10>(word::<10>(4), word::<10>(4)) }
    c02q_ways_1024 [16] { ways::<1024>(word::<1024>(64), word::<1024>(64)) }
    c02q_ways_5_20 [34] { ways::<5>(word_of::<5>(64), word_of::<5>(64)) }
    c02q_ways_3_30 [34] { ways::<3>(word_of::<3>(64), word_of::<3>(64)) }
    c02t_ways_3_12 [14] { ways::<3>(word::<3>(12), word::<3>(12)) }
    c02t_ways_2_12 [14] { ways::<2>(word::<2>(12), word::<2>(12)) }
    c02t_ways_10_deep [19] { ways::<10>(word::<10>(64), word::<10>(64)) }
    c02t_ways_3_deep [34] { ways::<3>(word::<3>(64), word::<3>(64)) }
    c02q_index_3 [8] { by_index::<3>(4) }
    c02q_index_2 [8] { by_index::<2>(5) }
    c02q_index_10 [8] { by_index::<10>(3) }
    c02q_iter_3 [14] { by_iteration::<3>(6) }
    c02q_iter_2 [14] { by_iteration::<2>(7) }
    c02q_iter_10 [14] { by_iteration::<10>(5) }
    c02q_letter_3 [14] { letter::<3>(12) }
    c02q_letter_10 [24] { letter::<10>(15) }
    c02q_letter_1024 [16] { letter::<1024>(5) }
    c02t_letter_3 [34] { letter::<3>(30) }
}
refusals! {}
