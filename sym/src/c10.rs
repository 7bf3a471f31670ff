use crate::common::*;

fn fused<const N: u32>(n: usize, m: usize) {
    let (a, ca) = dense::<N, 0>(n);
    let (b, cb) = dense::<N, 0>(m);
    let (s, r) = (var::<0>(), nonzero::<0>());
    let (mul, div) = (map(&cb, |x| x.mul(&s)), map(&cb, |x| x.div(&r)));
    let go = |f: &dyn Fn(&mut V<N>), want: Vec<Sym>, what: &str| {
        let mut x = a.clone();
        f(&mut x);
        equal(&coefs(&x), &want, what);
    };
    go(&|x| { x.add_scalar_rmultiply(&b, s.clone()); }, plus(&ca, &mul), "add_scalar_rmultiply");
    go(&|x| { x.add_scalar_lmultiply(&b, s.clone()); }, plus(&ca, &mul), "add_scalar_lmultiply");
    go(&|x| { x.sub_scalar_rmultiply(&b, s.clone()); }, minus(&ca, &mul), "sub_scalar_rmultiply");
    go(&|x| { x.sub_scalar_lmultiply(&b, s.clone()); }, minus(&ca, &mul), "sub_scalar_lmultiply");
    go(&|x| { x.add_scalar_rdivide(&b, r.clone()); }, plus(&ca, &div), "add_scalar_rdivide");
    go(&|x| { x.add_scalar_ldivide(&b, r.clone()); }, plus(&ca, &div), "add_scalar_ldivide");
    go(&|x| { x.sub_scalar_rdivide(&b, r.clone()); }, minus(&ca, &div), "sub_scalar_rdivide");
    go(&|x| { x.sub_scalar_ldivide(&b, r.clone()); }, minus(&ca, &div), "sub_scalar_ldivide");
    go(&|x| { x.add_scalar_rmultiply(b.clone(), s.clone()); }, plus(&ca, &mul), "add_scalar_rmultiply by value");
    identical(&coefs(&b), &cb, "other operand");
    identical(&coefs(&a), &ca, "copied target");
}

fn fused_sparse(n: usize, m: usize, which: usize) { let (a, b) = (sparse_distinct(n, false), sparse_distinct(m, false)); fused_of(a, b, key(), which) }
fn fused_wide(n: usize, m: usize, overlap: usize, which: usize) {
    fused_of(sparse_numbered(0, &vars(n)), sparse_numbered(n - overlap, &vars(m)), numbered(n + m), which)
}
fn fused_of((mut x, ma, ka): (S, Map, Vec<Key>), (b, mb, kb): (S, Map, Vec<Key>), other: Key, which: usize) {
    let (s, r) = (var::<0>(), nonzero::<0>());
    let mut probe = ka;
    probe.extend(kb);
    probe.push(other);
    let mul = which < 4;
    match which {
        0 => { x.add_scalar_rmultiply(&b, s.clone()); }
        1 => { x.add_scalar_lmultiply(&b, s.clone()); }
        2 => { x.sub_scalar_rmultiply(&b, s.clone()); }
        3 => { x.sub_scalar_lmultiply(&b, s.clone()); }
        4 => { x.add_scalar_rdivide(&b, r.clone()); }
        5 => { x.add_scalar_ldivide(&b, r.clone()); }
        6 => { x.sub_scalar_rdivide(&b, r.clone()); }
        _ => { x.sub_scalar_ldivide(&b, r.clone()); }
    }
    let plus = which % 4 < 2;
    holds_values(&x, |k| {
        let t = if mul { mb.or0(k).mul(&s) } else { mb.or0(k).div(&r) };
        if plus { ma.or0(k).add(&t) } else { ma.or0(k).sub(&t) }
    }, &probe, "fused sparse update");
    holds(&b, &mb, &[], "other operand");
}

scenarios! {
    c10q_dense_wide { let n = [0, 17, 33, 64][choose(4)]; fused::<2>(n, [1, 16, 32, 65][choose(4)]) }
    c10q_wide_5_5 { fused_wide(5, 5, choose(4), choose(8)) }
    c10q_wide_17_20 { fused_wide(17, 20, 2, choose(8)) }
    c10q_wide_3_20 { fused_wide(3, 20, 3, choose(8)) }
    c10q_dense_2 { fused::<2>(choose(8), choose(8)) }
    c10q_dense_3 { fused::<3>(choose(5), choose(5)) }
    c10q_dense_2_deep { fused::<2>(choose(16), choose(16)) }
    c10q_sparse_00 { fused_sparse(0, choose(2), choose(8)) }
    c10q_sparse_10 { fused_sparse(1, 0, choose(8)) }
    c10q_sparse_11 { fused_sparse(1, 1, choose(8)) }
    c10q_sparse_12 { fused_sparse(1, 2, choose(8)) }
    c10q_sparse_21 { fused_sparse(2, 1, choose(8)) }
    c10q_sparse_22 { fused_sparse(2, 2, choose(8)) }
}
