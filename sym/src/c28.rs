use crate::common::*;

fn equality<const N: u32>(max: usize) { let (n, m) = (choose(max + 1), choose(max + 1)); equality_of::<N>(n, m) }
fn equality_of<const N: u32>(n: usize, m: usize) {
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let got = a == b;
    must((a != b) == !got, || "== and != agree".into());
    must((b == a) == got, || "== is not symmetric".into());
    if got {
        for i in 0..n.min(m) { same(&ca[i], &cb[i], || format!("equal vectors, coefficient {}", i)); }
    } else if n == m {
        let all = (0..n).all(|i| ca[i] == cb[i]);
        must(!all, || "vectors with equal coefficients are not equal".into());
    }
    must(a == a, || "a vector differs from itself".into());
}

fn copies<const N: u32>(max: usize) { copies_of::<N>(choose(max + 1)) }
fn copies_of<const N: u32>(n: usize) {
    let (mut a, c) = dense::<N, 0>(n);
    let mut x = match choose(2) { 0 => a.clone(), _ => Vector::to_owned(&a) };
    must(x == a && a == x, || "a copy differs from its source".into());
    identical(&coefs(&x), &c, "copy");
    let (i, s) = (if n > 0 { choose(n) } else { 0 }, var::<0>());
    let mut want = c.clone();
    if n > 0 { want[i] = s.clone(); }
    let side = choose(4);
    {
        let t = if side % 2 == 0 { &mut x } else { &mut a };
        if side / 2 == 0 { if let Some(p) = t.get_mut_slice(i) { *p = s; } } else { t.clear(); t.resize(n + 1); want = vec![zero(); n + 1]; }
    }
    let (changed, other) = if side % 2 == 0 { (&x, &a) } else { (&a, &x) };
    identical(&coefs(changed), &want, "the one changed");
    identical(&coefs(other), &c, "the one not changed");
}

/// Equality of tensors behind the repository's wrapper.
fn tensors<const N: u32>(n: usize) {
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(n);
    let (a, b) = (DenseTensor::<Sym, N>::from(a), DenseTensor::<Sym, N>::from(b));
    if a == b { equal(&ca, &cb, "equal tensors"); } else { must(!(0..n).all(|i| ca[i] == cb[i]), || "tensors with equal coefficients are not equal".into()); }
}

scenarios! {
    c28q_equality_wide { equality_of::<2>([17, 33, 64][choose(3)], [17, 33, 64][choose(3)]) }
    c28q_copies_wide { copies_of::<2>([31, 40, 65][choose(3)]) }
    c28q_equality_2 { equality::<2>(6) }
    c28q_equality_3 { equality::<3>(4) }
    c28q_copies_2 { copies::<2>(7) }
    c28q_copies_3 { copies::<3>(13) }
    c28q_tensors { tensors::<2>(choose(5)) }
    c28q_equality_2_deep { equality::<2>(12) }
}
