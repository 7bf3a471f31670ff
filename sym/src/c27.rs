use crate::common::*;

fn spelled(w: &[u32]) -> String {
    format!("({})", w.iter().rev().map(|l| l.to_string()).collect::<Vec<_>>().join(", "))
}

/// A dense vector of every dimension within the bound.
fn dense_display<const N: u32>(d: usize) {
    let ws = words(N, d);
    let n = choose(ws.len() + 1);
    let (v, c) = dense::<N, 0>(n);
    let want: String = c.iter().zip(&ws).map(|(c, w)| format!("{}{}", c, spelled(w))).collect();
    let got = format!("{}", v);
    must(got == want, || format!("displayed as {}, expected {}", got, want));
    identical(&coefs(&v), &c, "displayed vector");
}

/// What each key prints on its own.
fn key_display<const N: u32>(d: usize) {
    let ws = words(N, d);
    let w = &ws[choose(ws.len())];
    let k = tk::<N>(w);
    let s = var::<0>();
    let v = V::<N>::from_key_scalar(k.clone(), s.clone());
    let tail = format!("{}{}", s, spelled(w));
    let all = format!("{}", v);
    must(all.contains(&tail), || format!("{} does not contain {}", all, tail));
    must(format!("{}", k) == spelled(w) && format!("{:?}", k) == spelled(w), || format!("{} and {:?} for {:?}", k, k, w));
}

scenarios! {
    c27q_dense_1 { dense_display::<1>(8) }
    c27q_dense_2 { dense_display::<2>(6) }
    c27q_dense_3 { dense_display::<3>(4) }
    c27q_dense_5 { dense_display::<5>(3) }
    c27q_dense_12 { dense_display::<12>(2) }
    c27q_keys_2 { key_display::<2>(6) }
    c27q_keys_3 { key_display::<3>(4) }
    c27q_keys_12 { key_display::<12>(2) }
}
