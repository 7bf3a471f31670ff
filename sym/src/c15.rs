use crate::common::*;

const DEGREES: &[u32] = &[0, 1, 2, 3, 5, 30, 1000, u32::MAX - 1, u32::MAX];

/// Every product, whatever the dimensions and the truncation degree, on tensors of exactly that much storage.
fn shapes<const N: u32>(nt: usize, na: usize, nb: usize) {
    let (k, n, m, d) = (choose(nt + 1), choose(na + 1), choose(nb + 1), DEGREES[choose(DEGREES.len())]);
    let (t, ct) = dense::<N, 0>(k);
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let td = Some(d);
    let p = product(N, &ca, &cb, (d as usize).min(5));
    let cut = |v: &[Sym]| v.to_vec();
    equal(&coefs(&a.multiply(&b, td)), &cut(&p), "multiply");
    let mut x = t.clone();
    x.add_mul(&a, &b, td);
    equal(&coefs(&x), &plus(&ct, &p), "add_mul");
    let mut x = t.clone();
    x.sub_mul(&a, &b, td);
    equal(&coefs(&x), &minus(&ct, &p), "sub_mul");
    let mut x = a.clone();
    x.multiply_inplace(&b, td);
    equal(&coefs(&x), &p, "multiply_inplace");
    let q = product(N, &cb, &ca, (d as usize).min(5));
    equal(&coefs(&a.commutator(&b, td)), &minus(&p, &q), "commutator");
    identical(&coefs(&t), &ct, "copied target");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

/// One word against a tensor: the storage of each is what its own degree needs.
fn lopsided<const N: u32>(da: usize, nb: usize) {
    let ws = words(N, da);
    let u = ws[choose(ws.len())].clone();
    let (s, m, d) = (var::<0>(), choose(nb + 1), DEGREES[choose(6)]);
    let a = V::<N>::from_key_scalar(tk::<N>(&u), s.clone());
    let mut ca = vec![zero(); dim(N, u.len())];
    ca[index(N, &u)] = s;
    let (b, cb) = dense::<N, 0>(m);
    let top = (d as usize).min(u.len() + 3);
    equal(&coefs(&a.multiply(&b, Some(d))), &product(N, &ca, &cb, top), "word times tensor");
    equal(&coefs(&b.multiply(&a, Some(d))), &product(N, &cb, &ca, top), "tensor times word");
    let mut x = b.clone();
    x.multiply_inplace(&a, Some(d));
    equal(&coefs(&x), &product(N, &cb, &ca, top), "tensor times word in place");
}

scenarios! {
    c15q_shapes_1 { shapes::<1>(3, 3, 3) }
    c15q_shapes_2 { shapes::<2>(4, 7, 7) }
    c15q_shapes_3 { shapes::<3>(2, 5, 5) }
    c15q_shapes_4 { shapes::<4>(2, 5, 5) }
    c15q_lopsided_2 { lopsided::<2>(4, 4) }
    c15q_lopsided_3 { lopsided::<3>(3, 5) }
}
