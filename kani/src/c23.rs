use crate::nd;
use rustyalgebra::lie::verif::HallKey;

/// Any number, parents and degree that fit their fields.
fn parts<const N: u32>() {
    let (k, l, r, s) = (nd::u64(), nd::u64(), nd::u64(), nd::u32());
    nd::assume(k < 1 << 18 && l < 1 << 18 && r < 1 << 18 && s < 1 << 10);
    let h = HallKey::<N>::verif_from_parts(k, l, r, s);
    assert!(h.get_lparent() as u64 == l);
    assert!(h.get_rparent() as u64 == r);
    assert!(h.size() == s);
    assert!(h.is_letter() == (s == 1));
    assert!(h.is_valid() == (k != 0 || l != 0 || r != 0 || s != 0));
    if k > 0 { assert!(h.to_index() as u64 == k - 1); }
}

/// Keys that differ in some field are different keys: every field reads differently, or the same.
fn distinct<const N: u32>() {
    let (k, l, r, s) = (nd::u64(), nd::u64(), nd::u64(), nd::u32());
    let (k2, l2, r2, s2) = (nd::u64(), nd::u64(), nd::u64(), nd::u32());
    nd::assume(k >= 1 && k < 1 << 18 && l < 1 << 18 && r < 1 << 18 && s < 1 << 10);
    nd::assume(k2 >= 1 && k2 < 1 << 18 && l2 < 1 << 18 && r2 < 1 << 18 && s2 < 1 << 10);
    let (a, b) = (HallKey::<N>::verif_from_parts(k, l, r, s), HallKey::<N>::verif_from_parts(k2, l2, r2, s2));
    assert!((a.to_index() == b.to_index()) == (k == k2));
    assert!((a.get_lparent() == b.get_lparent()) == (l == l2));
    assert!((a.get_rparent() == b.get_rparent()) == (r == r2));
    assert!((a.size() == b.size()) == (s == s2));
}

fn letters<const N: u32>() {
    let (i, j) = (nd::range(1, N), nd::range(1, N));
    let (a, b) = (HallKey::<N>::from_letter(i), HallKey::<N>::from_letter(j));
    assert!(a.is_valid() && a.is_letter() && a.size() == 1);
    assert!(a.to_index() == i as usize - 1);
    assert!(a.get_lparent() == 0 && a.get_rparent() == i);
    if i != j { assert!(a.to_index() != b.to_index() && a.get_rparent() != b.get_rparent()); }
}

fn default<const N: u32>() {
    let h = HallKey::<N>::new();
    assert!(!h.is_valid() && !h.is_letter() && h.size() == 0 && h.get_lparent() == 0 && h.get_rparent() == 0);
}

harnesses! {
    c23q_parts_2 [2] { parts::<2>() }
    c23q_parts_5 [2] { parts::<5>() }
    c23q_parts_262143 [2] { parts::<262143>() }
    c23q_distinct_3 [2] { distinct::<3>() }
    c23q_letters_1 [2] { letters::<1>() }
    c23q_letters_2 [2] { letters::<2>() }
    c23q_letters_3 [2] { letters::<3>() }
    c23q_letters_10 [2] { letters::<10>() }
    c23q_letters_1000 [2] { letters::<1000>() }
    c23q_letters_262143 [2] { letters::<262143>() }
    c23q_default_2 [2] { default::<2>() }
    c23q_default_9 [2] { default::<9>() }
}
refusals! {}
