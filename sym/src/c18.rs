use crate::common::*;

fn fmexp<const N: u32, const D: u32>(n: usize, m: usize) {
    let (mut a, ca) = dense::<N, D>(n);
    let (x, cx) = dense::<N, D>(m);
    let mut x0 = cx.clone();
    if m > 0 { x0[0] = zero(); }
    let e = series(N, &x0, &exp_coefs::<D>(), D as usize);
    let by_value = choose(2) == 1;
    if by_value { a.fmexp(x.clone()); } else { a.fmexp(&x); }
    equal(&coefs(&a), &product(N, &ca, &e, D as usize), "fmexp");
    identical(&coefs(&x), &cx, "argument");
}
/// Every dimension of both operands up to complete degrees p and q.
fn all<const N: u32, const D: u32>(p: usize, q: usize) { fmexp::<N, D>(choose(dim(N, p) + 1), choose(dim(N, q) + 1)) }
fn full<const N: u32, const D: u32>() { fmexp::<N, D>(dim(N, D as usize), dim(N, D as usize)) }

/// Agrees with the product with exp, for an argument without constant term.
fn against<const N: u32, const D: u32>(n: usize, m: usize) {
    let (a, _) = dense::<N, D>(n);
    let (x, _) = with_constant::<N, D>(zero(), m);
    let mut f = a.clone();
    f.fmexp(&x);
    equal(&coefs(&f), &coefs(&a.multiply(&x.exp(), Some(D))), "fmexp against multiply and exp");
}

scenarios! {
    c18q_2_5_full { full::<2, 5>() }
    c18q_1_16 { all::<1, 16>(3, 3) }
    c18q_2_9 { all::<2, 9>(1, 1) }
    c18q_10_2 { full::<10, 2>() }
    c18t_2_6 { full::<2, 6>() }
    c18t_3_4 { full::<3, 4>() }
    c18q_0 { all::<2, 0>(0, 1) }
    c18q_1 { all::<2, 1>(1, 1) }
    c18q_2_2 { all::<2, 2>(2, 2) }
    c18q_3_2 { all::<3, 2>(1, 1) }
    c18q_1_3 { all::<1, 3>(3, 3) }
    c18q_1_5 { all::<1, 5>(2, 2) }
    c18q_2_3 { all::<2, 3>(1, 1) }
    c18q_2_4 { all::<2, 4>(1, 1) }
    c18q_2_5 { all::<2, 5>(0, 1) }
    c18q_2_3_full { full::<2, 3>() }
    c18q_3_2_full { full::<3, 2>() }
    c18q_against_2_3 { against::<2, 3>(15, 15) }
    c18q_2_3_deep { all::<2, 3>(3, 3) }
    c18q_3_2_deep { all::<3, 2>(2, 2) }
    c18q_2_4_full { full::<2, 4>() }
    c18q_3_3_full { full::<3, 3>() }
    c18q_1_8 { all::<1, 8>(3, 3) }
    c18q_2_7 { all::<2, 7>(1, 1) }
}
