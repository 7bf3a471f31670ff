use crate::common::*;

fn inplace<const N: u32>(na: usize, nb: usize, dmax: usize) {
    let (n, m, d) = (choose(na + 1), choose(nb + 1), choose(dmax + 1));
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let td = Some(d as u32);
    let p = product(N, &ca, &cb, d);
    let (ps, pr) = (map(&p, |x| x.mul(&s)), map(&p, |x| x.div(&r)));
    let go = |f: &dyn Fn(&mut V<N>), want: &[Sym], what: &str| {
        let mut x = a.clone();
        f(&mut x);
        equal(&coefs(&x), want, what);
    };
    go(&|x| { x.multiply_inplace(&b, td); }, &p, "multiply_inplace");
    go(&|x| { x.mul_scal_lprod(&b, s.clone(), td); }, &ps, "mul_scal_lprod");
    go(&|x| { x.mul_scal_rprod(&b, s.clone(), td); }, &ps, "mul_scal_rprod");
    go(&|x| { x.mul_rat_ldiv(&b, r.clone(), td); }, &pr, "mul_rat_ldiv");
    go(&|x| { x.mul_rat_rdiv(&b, r.clone(), td); }, &pr, "mul_rat_rdiv");
    identical(&coefs(&b), &cb, "right operand");
    identical(&coefs(&a), &ca, "copied operand");
}

fn accumulate<const N: u32>(nt: usize, na: usize, nb: usize, dmax: usize) {
    let (k, n, m, d) = (choose(nt + 1), choose(na + 1), choose(nb + 1), choose(dmax + 1));
    let (t, ct) = dense::<N, 0>(k);
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let td = Some(d as u32);
    let p = product(N, &ca, &cb, d);
    let mut x = t.clone();
    x.add_mul(&a, &b, td);
    equal(&coefs(&x), &plus(&ct, &p), "add_mul");
    x.sub_mul(&a, &b, td);
    equal(&coefs(&x), &ct, "add_mul and then sub_mul");
    let mut x = t.clone();
    x.sub_mul(&a, &b, td);
    equal(&coefs(&x), &minus(&ct, &p), "sub_mul");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

fn commutator<const N: u32>(na: usize, nb: usize, dmax: usize) {
    let (n, m, d) = (choose(na + 1), choose(nb + 1), choose(dmax + 1));
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let td = Some(d as u32);
    let want = minus(&product(N, &ca, &cb, d), &product(N, &cb, &ca, d));
    equal(&coefs(&a.commutator(&b, td)), &want, "commutator");
    equal(&coefs(&a.commutator(&a, td)), &[], "commutator with itself");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

scenarios! {
    c14q_inplace_2 { inplace::<2>(8, 8, 4) }
    c14q_inplace_1 { inplace::<1>(4, 4, 6) }
    c14q_inplace_3 { inplace::<3>(5, 5, 3) }
    c14q_inplace_2_deep { inplace::<2>(15, 15, 6) }
    c14q_inplace_3_deep { inplace::<3>(13, 13, 4) }
    c14q_accumulate_2 { accumulate::<2>(8, 4, 4, 3) }
    c14q_accumulate_1 { accumulate::<1>(4, 3, 3, 4) }
    c14q_accumulate_3 { accumulate::<3>(5, 4, 4, 2) }
    c14q_accumulate_high { accumulate::<2>(15, 2, 2, 2) }
    c14q_accumulate_2_deep { accumulate::<2>(15, 8, 8, 4) }
    c14q_accumulate_3_deep { accumulate::<3>(14, 6, 6, 3) }
    c14q_commutator_2 { commutator::<2>(7, 7, 4) }
    c14q_commutator_3 { commutator::<3>(5, 5, 3) }
    c14q_commutator_2_deep { commutator::<2>(15, 15, 5) }
    c14q_commutator_3_deep { commutator::<3>(13, 13, 4) }
}
