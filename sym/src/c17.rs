use crate::common::*;

fn log<const N: u32, const D: u32>(n: usize) {
    let (g, c) = with_constant::<N, D>(one(), n);
    let mut x = c.clone();
    x[0] = zero();
    equal(&coefs(&g.log()), &series(N, &x, &log_coefs::<D>(), D as usize), "log");
    identical(&coefs(&g), &c, "operand");
}
fn all<const N: u32, const D: u32>(extra: usize) { log::<N, D>(1 + choose(dim(N, D as usize) + extra)) }
fn full<const N: u32, const D: u32>() { log::<N, D>(dim(N, D as usize)) }
fn low<const N: u32, const D: u32>(d: usize) { log::<N, D>(1 + choose(dim(N, d))) }

fn inverse<const N: u32, const D: u32>(n: usize) {
    let (x, c) = with_constant::<N, D>(zero(), n);
    equal(&coefs(&x.exp().log()), &c, "log(exp(x))");
    let (g, c) = with_constant::<N, D>(one(), n);
    equal(&coefs(&g.log().exp()), &c, "exp(log(g))");
}

scenarios! {
    c17q_2_6_full { full::<2, 6>() }
    c17q_1_20 { low::<1, 20>(3) }
    c17q_2_10 { low::<2, 10>(1) }
    c17q_10_2 { full::<10, 2>() }
    c17t_2_7 { full::<2, 7>() }
    c17t_3_5 { full::<3, 5>() }
    c17q_0 { all::<2, 0>(3) }
    c17q_1 { all::<3, 1>(3) }
    c17q_2_2 { all::<2, 2>(8) }
    c17q_2_3 { all::<2, 3>(2) }
    c17q_3_2 { all::<3, 2>(3) }
    c17q_1_4 { all::<1, 4>(2) }
    c17q_1_6 { low::<1, 6>(2) }
    c17q_2_4 { low::<2, 4>(1) }
    c17q_2_6 { low::<2, 6>(1) }
    c17q_3_3 { full::<3, 3>() }
    c17q_2_4_full { full::<2, 4>() }
    c17q_inverse_2_2 { inverse::<2, 2>(1 + choose(7)) }
    c17q_inverse_2_3 { inverse::<2, 3>(15) }
    c17q_inverse_3_2 { inverse::<3, 2>(13) }
    c17q_inverse_1_5 { inverse::<1, 5>(6) }
    c17q_3_3_deep { all::<3, 3>(3) }
    c17q_2_4_deep { all::<2, 4>(3) }
    c17q_2_5 { full::<2, 5>() }
    c17q_3_4 { full::<3, 4>() }
    c17q_1_9 { low::<1, 9>(5) }
    c17q_2_8 { low::<2, 8>(1) }
    c17q_inverse_2_4 { inverse::<2, 4>(31) }
    c17q_inverse_3_3 { inverse::<3, 3>(40) }
}
