use crate::nd;
use crate::words::*;
use rustyalgebra::free_tensor::TensorKey;
use std::fmt::{self, Write};

const CAP: usize = 64;
struct Sink { b: [u8; CAP], n: usize }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &c in s.as_bytes() { self.b[self.n] = c; self.n += 1; }
        Ok(())
    }
}
impl Sink {
    fn new() -> Sink { Sink { b: [0; CAP], n: 0 } }
    fn push(&mut self, c: u8) { self.b[self.n] = c; self.n += 1; }
    /// In decimal, at most five digits.
    fn number(&mut self, x: u32) {
        if x >= 10000 { self.push(b'0' + (x / 10000 % 10) as u8); }
        if x >= 1000 { self.push(b'0' + (x / 1000 % 10) as u8); }
        if x >= 100 { self.push(b'0' + (x / 100 % 10) as u8); }
        if x >= 10 { self.push(b'0' + (x / 10 % 10) as u8); }
        self.push(b'0' + (x % 10) as u8);
    }
}

fn printed<const N: u32, const L: usize>(debug: bool) {
    let mut w = [0u32; L];
    let mut i = 0;
    while i < L { w[i] = nd::range(1, N); i += 1; }
    let k = TensorKey::<N>::from_letters(&w);
    let mut got = Sink::new();
    if debug { assert!(write!(got, "{:?}", k).is_ok()); } else { assert!(write!(got, "{}", k).is_ok()); }
    let mut want = Sink::new();
    want.push(b'(');
    let mut i = 0;
    while i < L {
        if i > 0 { want.push(b','); want.push(b' '); }
        want.number(w[L - 1 - i]);
        i += 1;
    }
    want.push(b')');
    assert!(got.n == want.n);
    let i = nd::urange(0, want.n - 1);
    assert!(got.b[i] == want.b[i]);
}
harnesses! {
    c27q_display_3_0 [9] { printed::<3, 0>(false) }
    c27q_debug_3_0 [9] { printed::<3, 0>(true) }
    c27q_display_1_3 [9] { printed::<1, 3>(false) }
    c27q_debug_1_3 [9] { printed::<1, 3>(true) }
    c27q_display_3_1 [9] { printed::<3, 1>(false) }
    c27q_debug_3_1 [9] { printed::<3, 1>(true) }
    c27q_display_3_2 [9] { printed::<3, 2>(false) }
    c27q_debug_3_2 [9] { printed::<3, 2>(true) }
    c27q_display_3_3 [9] { printed::<3, 3>(false) }
    c27q_debug_3_3 [9] { printed::<3, 3>(true) }
    c27q_display_2_4 [9] { printed::<2, 4>(false) }
    c27q_display_5_5 [9] { printed::<5, 5>(false) }
    c27q_display_10_2 [9] { printed::<10, 2>(false) }
    c27q_debug_10_2 [9] { printed::<10, 2>(true) }
    c27q_display_12_3 [9] { printed::<12, 3>(false) }
    c27q_debug_12_3 [9] { printed::<12, 3>(true) }
    c27q_display_99_3 [9] { printed::<99, 3>(false) }
    c27q_debug_99_3 [9] { printed::<99, 3>(true) }
    c27q_display_1000_2 [12] { printed::<1000, 2>(false) }
    c27q_debug_1000_2 [12] { printed::<1000, 2>(true) }
    c27q_display_1024_3 [13] { printed::<1024, 3>(false) }
    c27t_debug_1024_3 [13] { printed::<1024, 3>(true) }
    c27q_display_70000_1 [19] { printed::<70000, 1>(false) }
    c27t_display_70000_2 [19] { printed::<70000, 2>(false) }
    c27t_debug_70000_2 [19] { printed::<70000, 2>(true) }
    c27t_display_3_8 [11] { printed::<3, 8>(false) }
    c27t_debug_3_8 [11] { printed::<3, 8>(true) }
    c27t_display_2_12 [15] { printed::<2, 12>(false) }
    c27t_debug_2_12 [15] { printed::<2, 12>(true) }
    c27t_display_10_8 [11] { printed::<10, 8>(false) }
    c27t_debug_10_8 [11] { printed::<10, 8>(true) }
    c27t_display_255_7 [10] { printed::<255, 7>(false) }
    c27t_debug_255_7 [10] { printed::<255, 7>(true) }
    c27t_display_1024_5 [13] { printed::<1024, 5>(false) }
    c27t_debug_1024_5 [13] { printed::<1024, 5>(true) }
}
refusals! {}
