use crate::nd;
use crate::words::*;
use rustyalgebra::free_tensor::TensorKey;

fn letters<const N: u32>(w: Word) {
    assert!(w.spelled_by(&w.key::<N>()));
}

fn push_front<const N: u32>(w: Word) {
    nd::assume(w.n >= 1);
    let mut k = TensorKey::<N>::from_letters(&w.l[1..w.n]);
    k.push_front(w.l[0]);
    assert!(w.spelled_by(&k));
    assert!(k == w.key::<N>());
}

/// Grown from the empty word, one letter at a time.
fn grown<const N: u32>(w: Word) {
    let mut k = TensorKey::<N>::new();
    let mut i = w.n;
    while i > 0 { i -= 1; k.push_front(w.l[i]); }
    assert!(w.spelled_by(&k));
    assert!(k == w.key::<N>());
}

fn single<const N: u32>() {
    let l = nd::range(1, N);
    let k = TensorKey::<N>::from_letter(l);
    assert!(k.size() == 1 && k.get_letter(0) == l);
    assert!(k == TensorKey::<N>::from_letters(&[l]));
    let mut e = TensorKey::<N>::new();
    assert!(e.size() == 0 && e == TensorKey::<N>::from_letters(&[]));
    e.push_front(l);
    assert!(e == k);
}

fn list<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let mut w = word::<N>(max);
    let n = w.n;
    let mut d = 0;
    while d <= max {
        if n == d {
            w.n = d; // concrete from here on
            let v = w.key::<N>().to_letters();
            assert!(v.len() == d);
            let mut i = 0;
            while i < d { assert!(v[d - 1 - i] == w.l[i]); i += 1; }
        }
        d += 1;
    }
}

fn list_at<const N: u32>(d: usize) {
    let w = word_of::<N>(d);
    let d = w.n;
    let v = w.key::<N>().to_letters();
    assert!(v.len() == d);
    let mut i = 0;
    while i < d { assert!(v[d - 1 - i] == w.l[i]); i += 1; }
}

#[cfg(verif_hooks = "key_iter")]
fn iter<const N: u32>(cap: usize) {
    let max = bounded::<N>(cap);
    let w = word::<N>(max);
    let k = w.key::<N>();
    let mut it = rustyalgebra::free_tensor::TensorKeyIterator::<N>::verif_new(&k);
    let mut i = 0;
    while i < max {
        if i < w.n { assert!(it.next() == Some(w.l[i])); }
        i += 1;
    }
    assert!(it.next().is_none());
}
#[cfg(not(verif_hooks = "key_iter"))]
fn iter<const N: u32>(_cap: usize) {}

/// One letter too many must not come back as a key.
fn refuse<const N: u32>() {
    let d = depth::<N>() + 1;
    if d >= CAP { return; }
    let w = letters_of::<N>(d);
    let _k = w.key::<N>();
    never!("a word longer than the maximum depth was accepted");
}

harnesses! {
    c01q_letters_2 [34] { letters::<2>(word::<2>(64)) }
    c01q_letters_3 [34] { letters::<3>(word::<3>(64)) }
    c01q_letters_4 [24] { letters::<4>(word::<4>(64)) }
    c01q_letters_5 [24] { letters::<5>(word::<5>(64)) }
    c01q_letters_10 [19] { letters::<10>(word::<10>(64)) }
    c01q_letters_26 [16] { letters::<26>(word::<26>(64)) }
    c01q_letters_255 [12] { letters::<255>(word::<255>(64)) }
    c01q_letters_1024 [16] { letters::<1024>(word::<1024>(64)) }
    c01q_letters_70000 [24] { letters::<70000>(word::<70000>(64)) }
    c01q_letters_1 [64] { letters::<1>(word_of::<1>(64)) }
    c01t_letters_1 [64] { letters::<1>(word::<1>(64)) }
    c01t_letters_7 [24] { letters::<7>(word::<7>(64)) }
    c01t_letters_8 [19] { letters::<8>(word::<8>(64)) }
    c01t_letters_16 [24] { letters::<16>(word::<16>(64)) }
    c01t_letters_31 [24] { letters::<31>(word::<31>(64)) }
    c01t_letters_100 [24] { letters::<100>(word::<100>(64)) }
    c01t_letters_big [24] { letters::<1000000>(word::<1000000>(64)) }
    c01q_grown_1 [64] { grown::<1>(word_of::<1>(64)) }
    c01q_grown_2 [34] { grown::<2>(word_of::<2>(64)) }
    c01q_grown_3 [34] { grown::<3>(word_of::<3>(64)) }
    c01q_grown_5 [24] { grown::<5>(word_of::<5>(64)) }
    c01q_grown_7 [24] { grown::<7>(word_of::<7>(64)) }
    c01q_grown_10 [19] { grown::<10>(word_of::<10>(64)) }
    c01q_grown_26 [24] { grown::<26>(word_of::<26>(64)) }
    c01q_grown_100 [24] { grown::<100>(word_of::<100>(64)) }
    c01q_grown_255 [24] { grown::<255>(word_of::<255>(64)) }
    c01q_grown_1024 [24] { grown::<1024>(word_of::<1024>(64)) }
    c01q_grown_70000 [24] { grown::<70000>(word_of::<70000>(64)) }
    c01t_grown_5 [24] { grown::<5>(word::<5>(64)) }
    c01t_grown_10 [24] { grown::<10>(word::<10>(64)) }
    c01q_push_2 [14] { push_front::<2>(word::<2>(8)) }
    c01q_push_2_30 [34] { push_front::<2>(word_of::<2>(64)) }
    c01q_push_3_30 [34] { push_front::<3>(word_of::<3>(64)) }
    c01q_push_5 [24] { push_front::<5>(word::<5>(6)) }
    c01q_push_10_15 [19] { push_front::<10>(word_of::<10>(64)) }
    c01q_push_1024 [16] { push_front::<1024>(word::<1024>(64)) }
    c01t_push_2 [34] { push_front::<2>(word::<2>(64)) }
    c01t_push_3 [34] { push_front::<3>(word::<3>(64)) }
    c01t_push_5 [24] { push_front::<5>(word::<5>(64)) }
    c01t_push_10 [19] { push_front::<10>(word::<10>(64)) }
    c01q_single_2 [5] { single::<2>() }
    c01q_single_3 [5] { single::<3>() }
    c01q_single_5 [6] { single::<5>() }
    c01q_single_1000 [16] { single::<1000>() }
    c01q_list_3 [8] { list::<3>(5) }
    c01q_list_2 [8] { list::<2>(4) }
    c01q_list_10 [8] { list::<10>(4) }
    c01q_list_3_30 [34] { list_at::<3>(64) }
    c01t_list_2_30 [34] { list_at::<2>(64) }
    c01q_list_10_15 [34] { list_at::<10>(64) }
    c01q_list_5_20 [34] { list_at::<5>(64) }
    c01q_list_255_7 [34] { list_at::<255>(64) }
    c01q_iter_3 [14] { iter::<3>(10) }
    c01q_iter_5 [34] { iter::<5>(8) }
    c01q_iter_1024 [34] { iter::<1024>(5) }
    c01t_iter_3 [34] { iter::<3>(30) }
    c01t_iter_10 [34] { iter::<10>(15) }
}
refusals! {
    c01q_refuse_2 [34] { refuse::<2>() }
    c01q_refuse_3 [34] { refuse::<3>() }
    c01q_refuse_10 [24] { refuse::<10>() }
    c01q_refuse_1024 [24] { refuse::<1024>() }
}
