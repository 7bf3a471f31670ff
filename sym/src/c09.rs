use crate::common::*;

const WIDE: [usize; 9] = [17, 31, 32, 33, 40, 63, 64, 65, 130];
fn binary<const N: u32>(max: usize) { let (n, m) = (choose(max + 1), choose(max + 1)); binary_of::<N>(n, m) }
fn binary_of<const N: u32>(n: usize, m: usize) {
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let (sum, diff) = (plus(&ca, &cb), minus(&ca, &cb));
    equal(&coefs(&a.add(&b)), &sum, "add");
    equal(&coefs(&a.sub(&b)), &diff, "sub");
    equal(&coefs(&Vector::add(&a, b.clone())), &sum, "add by value");
    equal(&coefs(&Vector::sub(&a, b.clone())), &diff, "sub by value");
    let mut x = a.clone();
    x.add_inplace(&b);
    equal(&coefs(&x), &sum, "add_inplace");
    x.sub_inplace(&b);
    equal(&coefs(&x), &ca, "add_inplace and then sub_inplace");
    let mut x = a.clone();
    x.sub_inplace(&b);
    equal(&coefs(&x), &diff, "sub_inplace");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

fn unary<const N: u32>(max: usize) { unary_of::<N>(choose(max + 1)) }
fn unary_of<const N: u32>(n: usize) {
    let (a, ca) = dense::<N, 0>(n);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let neg = map(&ca, |x| x.uminus());
    let mul = map(&ca, |x| x.mul(&s));
    let div = map(&ca, |x| x.div(&r));
    equal(&coefs(&a.uminus()), &neg, "uminus");
    equal(&coefs(&a.scalar_lmultiply(s.clone())), &mul, "scalar_lmultiply");
    equal(&coefs(&a.scalar_rmultiply(s.clone())), &mul, "scalar_rmultiply");
    equal(&coefs(&a.scalar_rdivide(r.clone())), &div, "scalar_rdivide");
    equal(&coefs(&a.scalar_ldivide(r.clone())), &div, "scalar_ldivide");
    identical(&coefs(&a), &ca, "operand");
    let inplace = |f: &dyn Fn(&mut V<N>), want: &[Sym], what: &str| {
        let mut x = a.clone();
        f(&mut x);
        equal(&coefs(&x), want, what);
    };
    inplace(&|x| { x.uminus_inplace(); }, &neg, "uminus_inplace");
    inplace(&|x| { x.scalar_lmultiply_inplace(s.clone()); }, &mul, "scalar_lmultiply_inplace");
    inplace(&|x| { x.scalar_rmultiply_inplace(s.clone()); }, &mul, "scalar_rmultiply_inplace");
    inplace(&|x| { x.scalar_rdivide_inplace(r.clone()); }, &div, "scalar_rdivide_inplace");
    inplace(&|x| { x.scalar_ldivide_inplace(r.clone()); }, &div, "scalar_ldivide_inplace");
    inplace(&|x| { x.scalar_lmultiply_inplace(0i8); }, &vec![zero(); n], "multiplying by zero");
    inplace(&|x| { x.scalar_lmultiply_inplace(-1i8); }, &neg, "multiplying by minus one");
}

/// Several operations in a row.
fn chain<const N: u32>(max: usize) {
    let (n, m) = (choose(max + 1), choose(max + 1));
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let mut x = a.clone();
    x.scalar_lmultiply_inplace(s.clone()).add_inplace(&b).scalar_rdivide_inplace(r.clone()).uminus_inplace().sub_inplace(&a);
    let want = minus(&map(&plus(&map(&ca, |x| x.mul(&s)), &cb), |x| x.div(&r).uminus()), &ca);
    equal(&coefs(&x), &want, "chain");
}

scenarios! {
    c09q_binary_wide { let n = WIDE[choose(9)]; binary_of::<2>(n, WIDE[choose(9)]) }
    c09q_binary_lopsided { let n = WIDE[choose(9)]; let m = choose(4); if choose(2) == 0 { binary_of::<3>(n, m) } else { binary_of::<3>(m, n) } }
    c09q_unary_wide { unary_of::<2>(WIDE[choose(9)]) }
    c09q_binary_2 { binary::<2>(7) }
    c09q_binary_3 { binary::<3>(5) }
    c09q_binary_1 { binary::<1>(3) }
    c09q_binary_2_deep { binary::<2>(16) }
    c09q_binary_3_deep { binary::<3>(14) }
    c09q_unary_2 { unary::<2>(7) }
    c09q_unary_3 { unary::<3>(13) }
    c09q_unary_3_deep { unary::<3>(40) }
    c09q_chain_2 { chain::<2>(4) }
    c09q_chain_2_deep { chain::<2>(8) }
}
