use crate::common::*;

fn exp<const N: u32, const D: u32>(n: usize) {
    if n == 0 { equal(&coefs(&V::<N, D>::new().exp()), &[one()], "exp of the empty tensor"); return; }
    let (x, cx) = with_constant::<N, D>(zero(), n);
    equal(&coefs(&x.exp()), &series(N, &cx, &exp_coefs::<D>(), D as usize), "exp");
    identical(&coefs(&x), &cx, "operand");
}
/// Every dimension up to complete degree D, and a little beyond.
fn all<const N: u32, const D: u32>(extra: usize) { exp::<N, D>(choose(dim(N, D as usize) + extra + 1)) }
fn full<const N: u32, const D: u32>() { exp::<N, D>(dim(N, D as usize)) }
/// A tensor of low degree under a higher truncation.
fn low<const N: u32, const D: u32>(d: usize) { exp::<N, D>(choose(dim(N, d) + 1)) }

scenarios! {
    c16q_2_6_full { full::<2, 6>() }
    c16q_1_20 { low::<1, 20>(3) }
    c16q_2_10 { low::<2, 10>(1) }
    c16q_10_2 { full::<10, 2>() }
    c16t_2_7 { full::<2, 7>() }
    c16t_3_5 { full::<3, 5>() }
    c16q_0 { all::<2, 0>(3) }
    c16q_1 { all::<3, 1>(3) }
    c16q_2_2 { all::<2, 2>(8) }
    c16q_2_3 { all::<2, 3>(2) }
    c16q_3_2 { all::<3, 2>(3) }
    c16q_1_4 { all::<1, 4>(2) }
    c16q_1_6 { low::<1, 6>(2) }
    c16q_2_4 { low::<2, 4>(1) }
    c16q_2_6 { low::<2, 6>(1) }
    c16q_3_4 { low::<3, 4>(1) }
    c16q_3_3 { full::<3, 3>() }
    c16q_4_2 { full::<4, 2>() }
    c16q_2_4_full { full::<2, 4>() }
    c16q_3_3_deep { all::<3, 3>(3) }
    c16q_2_4_deep { all::<2, 4>(3) }
    c16q_2_5 { full::<2, 5>() }
    c16q_3_4_deep { full::<3, 4>() }
    c16q_1_9 { low::<1, 9>(5) }
    c16q_2_8 { low::<2, 8>(1) }
    c16q_5_3 { full::<5, 3>() }
}
