use crate::common::*;

fn keyed<const N: u32>(d: usize, n: usize) {
    let ws = words(N, d);
    let (mut v, c) = dense::<N, 0>(n);
    let w = &ws[choose(ws.len())];
    let (s, r) = (var::<0>(), nonzero::<0>());
    let which = choose(4);
    let delta = match which { 0 => s.clone(), 1 => s.uminus(), 2 => one().div(&r), _ => one().div(&r).uminus() };
    match which {
        0 => { v.add_scalar_multiply(tk::<N>(w), s); }
        1 => { v.sub_scalar_multiply(tk::<N>(w), s); }
        2 => { v.add_scalar_divide(tk::<N>(w), r); }
        _ => { v.sub_scalar_divide(tk::<N>(w), r); }
    }
    let i = index(N, w);
    let mut want = c.clone();
    if want.len() <= i { want.resize(i + 1, zero()); }
    want[i] = want[i].add(&delta);
    equal(&coefs(&v), &want, "keyed update");
    must(v.get(tk::<N>(w)).is_some(), || "the key is not there after the update".into());
}

fn keyed_sparse(n: usize) { let v = sparse_distinct(n, false); keyed_of(v, key(), key()) }
fn keyed_wide(n: usize) { let k = numbered(choose(n + 1)); keyed_of(sparse_numbered(0, &vars(n)), k, numbered(n + 1)) }
fn keyed_of((mut v, m, ks): (S, Map, Vec<Key>), k: Key, other: Key) {
    let (s, r) = (var::<0>(), nonzero::<0>());
    let which = choose(4);
    let delta = match which { 0 => s.clone(), 1 => s.uminus(), 2 => one().div(&r), _ => one().div(&r).uminus() };
    match which {
        0 => { v.add_scalar_multiply(&k, s); }
        1 => { v.sub_scalar_multiply(&k, s); }
        2 => { v.add_scalar_divide(&k, r); }
        _ => { v.sub_scalar_divide(&k, r); }
    }
    let mut probe = ks;
    probe.push(k.clone());
    probe.push(other);
    holds_values(&v, |x| if *x == k { m.or0(x).add(&delta) } else { m.or0(x) }, &probe, "keyed update of a sparse vector");
}

/// Two updates in a row, of the same or of different keys.
fn twice<const N: u32>(d: usize, n: usize) {
    let ws = words(N, d);
    let (mut v, c) = dense::<N, 0>(n);
    let (a, b) = (&ws[choose(ws.len())], &ws[choose(ws.len())]);
    let (s, r) = (var::<0>(), nonzero::<0>());
    v.add_scalar_multiply(tk::<N>(a), s.clone()).sub_scalar_divide(tk::<N>(b), r.clone());
    let mut want = c.clone();
    want.resize(dim(N, d).max(n), zero());
    let (i, j) = (index(N, a), index(N, b));
    want[i] = want[i].add(&s);
    want[j] = want[j].sub(&one().div(&r));
    equal(&coefs(&v), &want, "two keyed updates");
}

scenarios! {
    c12q_wide { keyed_wide([5, 12, 33][choose(3)]) }
    c12q_dense_2_wide { let n = [15, 31, 40, 63][choose(4)]; keyed::<2>(5, n) }
    c12q_dense_2 { keyed::<2>(3, choose(8)) }
    c12q_dense_3 { keyed::<3>(2, choose(5)) }
    c12q_dense_1 { keyed::<1>(3, choose(4)) }
    c12q_dense_2_deep { keyed::<2>(4, choose(16)) }
    c12q_twice_2 { twice::<2>(2, choose(4)) }
    c12q_sparse_0 { keyed_sparse(0) }
    c12q_sparse_1 { keyed_sparse(1) }
    c12q_sparse_2 { keyed_sparse(2) }
    c12q_sparse_3 { keyed_sparse(3) }
}
