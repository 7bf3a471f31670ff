use crate::common::*;

/// Every shape of operands and every truncation degree within the bounds.
fn shapes<const N: u32>(na: usize, nb: usize, dmax: usize) {
    let (n, m, d) = (choose(na + 1), choose(nb + 1), choose(dmax + 1));
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let want = product(N, &ca, &cb, d);
    let r = a.multiply(&b, Some(d as u32));
    equal(&coefs(&r), &want, "multiply");
    equal(&coefs(&a.multiply(b.clone(), Some(d as u32))), &want, "multiply by value");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

/// Complete operands of the given degrees.
fn complete<const N: u32>(da: usize, db: usize, dmax: usize) { let (a, b, d) = (choose(da + 1), choose(db + 1), choose(dmax + 1)); complete_of::<N>(a, b, d) }
fn complete_of<const N: u32>(da: usize, db: usize, d: usize) {
    let (a, ca) = dense::<N, 0>(dim(N, da));
    let (b, cb) = dense::<N, 0>(dim(N, db));
    equal(&coefs(&a.multiply(&b, Some(d as u32))), &product(N, &ca, &cb, d), "multiply");
    identical(&coefs(&a), &ca, "left operand");
    identical(&coefs(&b), &cb, "right operand");
}

/// Read through keys rather than indices.
fn keys<const N: u32>(d: usize) {
    let ws = words(N, d);
    let (u, v) = (ws[choose(ws.len())].clone(), ws[choose(ws.len())].clone());
    let (s, t) = (var::<0>(), var::<0>());
    let a = V::<N>::from_key_scalar(tk::<N>(&u), s.clone());
    let b = V::<N>::from_key_scalar(tk::<N>(&v), t.clone());
    let r = a.multiply(&b, Some(2 * d as u32));
    let mut uv = u.clone();
    uv.extend(&v);
    must(r.get(tk::<N>(&uv)).is_some(), || format!("{:?} is missing from the product", uv));
    for w in words(N, 2 * d) {
        let want = if w == uv { s.mul(&t) } else { zero() };
        same(&r.get(tk::<N>(&w)).cloned().unwrap_or(zero()), &want, || format!("coefficient of {:?}", w));
    }
}

fn laws<const N: u32>(na: usize, d: usize) {
    let (n, m, k) = (choose(na + 1), choose(na + 1), choose(na + 1));
    let (a, ca) = dense::<N, 0>(n);
    let (b, _) = dense::<N, 0>(m);
    let (c, _) = dense::<N, 0>(k);
    let s = var::<0>();
    let td = Some(d as u32);
    let l = a.multiply(&b, td).multiply(&c, td);
    let r = a.multiply(&b.multiply(&c, td), td);
    equal(&coefs(&l), &coefs(&r), "associativity");
    let unit = V::<N>::from_key(TensorKey::<N>::new());
    let cut: Vec<Sym> = ca.iter().take(dim(N, d)).cloned().collect();
    equal(&coefs(&a.multiply(&unit, td)), &cut, "right unit");
    equal(&coefs(&unit.multiply(&a, td)), &cut, "left unit");
    let lhs = Vector::add(&a, &b.scalar_lmultiply(s.clone())).multiply(&c, td);
    let rhs = Vector::add(&a.multiply(&c, td), &b.multiply(&c, td).scalar_lmultiply(s.clone()));
    equal(&coefs(&lhs), &coefs(&rhs), "linearity on the left");
    let lhs = c.multiply(&Vector::add(&a, &b.scalar_lmultiply(s.clone())), td);
    let rhs = Vector::add(&c.multiply(&a, td), &c.multiply(&b, td).scalar_lmultiply(s));
    equal(&coefs(&lhs), &coefs(&rhs), "linearity on the right");
}

/// The same tensor on both sides.
fn square<const N: u32>(na: usize, dmax: usize) {
    let (n, d) = (choose(na + 1), choose(dmax + 1));
    let (a, ca) = dense::<N, 0>(n);
    equal(&coefs(&a.multiply(&a, Some(d as u32))), &product(N, &ca, &ca, d), "square");
    identical(&coefs(&a), &ca, "operand");
}

scenarios! {
    c13q_complete_2_7 { complete_of::<2>([5, 6, 7][choose(3)], [1, 4, 7][choose(3)], [6, 7, 8][choose(3)]) }
    c13q_complete_3_5 { complete_of::<3>([4, 5][choose(2)], [1, 3, 5][choose(3)], [4, 5, 6][choose(3)]) }
    c13q_complete_10 { complete_of::<10>(2, 1, [1, 2, 3][choose(3)]) }
    c13q_complete_40 { complete_of::<40>(1, 1, 2) }
    c13q_complete_1 { let (a, b) = (choose(20), choose(20)); complete_of::<1>(a, b, 10 + choose(30)) }
    c13q_shapes_2 { shapes::<2>(8, 8, 5) }
    c13q_shapes_1 { shapes::<1>(5, 5, 9) }
    c13q_shapes_3 { shapes::<3>(5, 5, 3) }
    c13q_shapes_4 { shapes::<4>(6, 6, 3) }
    c13q_shapes_2_deep { shapes::<2>(16, 16, 6) }
    c13q_shapes_3_deep { shapes::<3>(14, 14, 4) }
    c13q_shapes_5 { shapes::<5>(7, 7, 3) }
    c13q_complete_2 { complete::<2>(3, 3, 6) }
    c13q_complete_3 { complete::<3>(2, 2, 4) }
    c13q_complete_5 { complete::<5>(1, 2, 3) }
    c13q_complete_16 { complete::<16>(1, 1, 2) }
    c13q_complete_2_deep { complete::<2>(5, 5, 7) }
    c13q_complete_3_deep { complete::<3>(3, 3, 5) }
    c13q_complete_4 { complete::<4>(2, 2, 4) }
    c13q_keys_2 { keys::<2>(2) }
    c13q_keys_3 { keys::<3>(1) }
    c13q_keys_3_deep { keys::<3>(2) }
    c13q_keys_2_deep { keys::<2>(3) }
    c13q_laws_2 { laws::<2>(4, 3) }
    c13q_laws_2_deep { laws::<2>(7, 4) }
    c13q_laws_3 { laws::<3>(5, 3) }
    c13q_square_2 { square::<2>(8, 4) }
    c13q_square_3 { square::<3>(5, 3) }
}
