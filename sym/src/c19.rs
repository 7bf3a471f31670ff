use crate::common::*;

fn binary(n: usize, m: usize, nz: bool) { let (a, b) = (sparse_distinct(n, nz), sparse_distinct(m, nz)); both(a, b, key()) }
/// Many keys, `overlap` of them in both operands.
fn wide(n: usize, m: usize, overlap: usize) {
    both(sparse_numbered(0, &vars(n)), sparse_numbered(n - overlap, &vars(m)), numbered(n + m))
}
/// The same keys in both, none of which cancels in the sum.
fn aligned(n: usize) {
    let ca = vars(n);
    let cb: Vec<Sym> = ca.iter().map(|a| nonzero().sub(a)).collect();
    let (a, ma, keys) = sparse_numbered(0, &ca);
    let (b, mb, _) = sparse_numbered(0, &cb);
    let x = if choose(2) == 0 { Vector::add(&a, &b) } else { Vector::sub(&a, &b.uminus()) };
    holds_values(&x, |k| ma.or0(k).add(&mb.or0(k)), &keys, "sum of vectors over the same keys");
    let y = Vector::sub(&a, &a);
    must((&y).into_iter().count() == 0, || "a vector minus itself is not empty".into());
}
fn both((a, ma, ka): (S, Map, Vec<Key>), (b, mb, kb): (S, Map, Vec<Key>), other: Key) {
    let mut probe = ka;
    probe.extend(kb);
    probe.push(other);
    let which = choose(6);
    let sum = which % 2 == 0;
    let want = |k: &Key| if sum { ma.or0(k).add(&mb.or0(k)) } else { ma.or0(k).sub(&mb.or0(k)) };
    let r = match which {
        0 => Vector::add(&a, &b),
        1 => Vector::sub(&a, &b),
        2 => { let mut x = Vector::to_owned(&a); x.add_inplace(&b); x }
        3 => { let mut x = Vector::to_owned(&a); x.sub_inplace(&b); x }
        4 => Vector::add(&a, Vector::to_owned(&b)),
        _ => Vector::sub(&a, Vector::to_owned(&b)),
    };
    holds_values(&r, want, &probe, "sum or difference");
    // A key both operands hold, whose coefficients cancel, is gone.
    for k in &probe {
        if ma.get(k).is_some() && mb.get(k).is_some() && want(k) == zero() {
            must(r.get(k).is_none(), || format!("the coefficient of {:?} cancels and the key is still there", k));
        }
        if ma.get(k).is_none() && mb.get(k).is_none() {
            must(r.get(k).is_none(), || format!("{:?} is in neither operand and in the result", k));
        }
    }
    holds(&a, &ma, &[], "left operand");
    holds(&b, &mb, &[], "right operand");
}

/// Adding and then subtracting, or the other way round, gives an equal vector.
fn there_and_back(n: usize, m: usize) {
    let (a, ma, _) = sparse_distinct(n, true);
    let (b, mb, _) = sparse_distinct(m, true);
    let mut x = Vector::to_owned(&a);
    if choose(2) == 0 { x.add_inplace(&b); x.sub_inplace(&b); } else { x.sub_inplace(&b); x.add_inplace(&b); }
    must(x == a, || "adding and subtracting the same vector does not give the vector back".into());
    must(a == x, || "adding and subtracting the same vector does not give the vector back".into());
    holds(&x, &ma, &mb.keys(), "adding and subtracting the same vector");
}

/// A vector minus itself has no keys.
fn cancel(n: usize) {
    let (a, _, _) = sparse_distinct(n, false);
    let d = Vector::sub(&a, &a);
    must((&d).into_iter().count() == 0, || "a vector minus itself is not empty".into());
    must(d == S::new(), || "a vector minus itself is not the new vector".into());
    let d = Vector::add(&a, &a.uminus());
    must((&d).into_iter().count() == 0, || "a vector plus its negative is not empty".into());
}

fn unary(n: usize) { let v = sparse_distinct(n, false); unary_of(v, key()) }
fn wide_unary(n: usize) { unary_of(sparse_numbered(0, &vars(n)), numbered(n)) }
fn unary_of((a, ma, mut probe): (S, Map, Vec<Key>), other: Key) {
    probe.push(other);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let which = choose(12);
    let own = || Vector::to_owned(&a);
    let x = match which {
        0 => a.uminus(),
        1 => { let mut x = own(); x.uminus_inplace(); x }
        2 => a.scalar_lmultiply(s.clone()),
        3 => a.scalar_rmultiply(s.clone()),
        4 => { let mut x = own(); x.scalar_lmultiply_inplace(s.clone()); x }
        5 => { let mut x = own(); x.scalar_rmultiply_inplace(s.clone()); x }
        6 => a.scalar_rdivide(r.clone()),
        7 => a.scalar_ldivide(r.clone()),
        8 => { let mut x = own(); x.scalar_rdivide_inplace(r.clone()); x }
        9 => { let mut x = own(); x.scalar_ldivide_inplace(r.clone()); x }
        10 => a.scalar_lmultiply(-1i8),
        _ => a.scalar_lmultiply(0i8),
    };
    holds_values(&x, |k| {
        let v = ma.or0(k);
        match which { 0 | 1 | 10 => v.uminus(), 2..=5 => v.mul(&s), 11 => zero(), _ => v.div(&r) }
    }, &probe, "sparse unary operation");
    for k in &probe { if ma.get(k).is_none() { must(x.get(k).is_none(), || format!("{:?} appeared", k)); } }
    holds(&a, &ma, &[], "operand");
}

fn chain(n: usize, m: usize) {
    let (a, ma, mut probe) = sparse_distinct(n, false);
    let (b, mb, kb) = sparse_distinct(m, false);
    probe.extend(kb);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let mut x = Vector::to_owned(&a);
    x.add_inplace(&b).scalar_lmultiply_inplace(s.clone()).sub_inplace(&a).scalar_rdivide_inplace(r.clone()).uminus_inplace();
    holds_values(&x, |k| ma.or0(k).add(&mb.or0(k)).mul(&s).sub(&ma.or0(k)).div(&r).uminus(), &probe, "chain");
}

scenarios! {
    c19q_wide_5_5 { wide(5, 5, choose(4)) }
    c19q_wide_9_9 { wide(9, 9, 3) }
    c19q_wide_20_33 { wide(20, 33, 2) }
    c19q_wide_40_3 { wide(40, 3, 3) }
    c19q_wide_3_40 { wide(3, 40, 3) }
    c19q_aligned { aligned(1 + choose(20)) }
    c19q_wide_unary { wide_unary([4, 8, 9, 17, 40][choose(5)]) }
    c19q_wide_6 { wide(33, 40, 6) }
    c19q_binary_0 { binary(0, choose(3), false) }
    c19q_binary_10 { binary(1, 0, false) }
    c19q_binary_11 { binary(1, 1, false) }
    c19q_binary_12 { binary(1, 2, false) }
    c19q_binary_21 { binary(2, 1, false) }
    c19q_binary_22 { binary(2, 2, false) }
    c19q_binary_23 { binary(2, 3, true) }
    c19q_binary_32 { binary(3, 2, true) }
    c19t_binary_33 { binary(3, 3, true) }
    c19t_binary_33_zero { binary(3, 3, false) }
    c19t_back_44 { there_and_back(4, 4) }
    c19t_chain_22 { chain(2, 2) }
    c19q_back_1 { there_and_back(1, 1) }
    c19q_back_0 { there_and_back(choose(2), 0) }
    c19q_back_12 { there_and_back(1, 2) }
    c19q_back_21 { there_and_back(2, 1) }
    c19q_back_22 { there_and_back(2, 2) }
    c19q_back_33 { there_and_back(3, 3) }
    c19q_cancel { cancel(choose(4)) }
    c19q_unary { unary(choose(3)) }
    c19q_unary_3 { unary(3) }
    c19q_chain { chain(1, 1) }
    c19q_chain_21 { chain(2, 1) }
}
