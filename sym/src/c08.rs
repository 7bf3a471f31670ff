use crate::common::*;

fn key_scalar<const N: u32>(d: usize) {
    let ws = words(N, d);
    let w = ws[choose(ws.len())].clone();
    let s = var();
    let with = choose(2) == 1;
    let v = if with { V::<N>::from_key_scalar(tk::<N>(&w), s.clone()) } else { V::<N>::from_key(tk::<N>(&w)) };
    let mut want = vec![zero(); index(N, &w) + 1];
    want[index(N, &w)] = if with { s } else { one() };
    equal(&coefs(&v), &want, "from_key");
    for x in words(N, d) {
        if x.len() <= w.len() { must(v.get(tk::<N>(&x)).is_some(), || format!("the dimension does not cover {:?}", x)); }
        same(&v.get(tk::<N>(&x)).cloned().unwrap_or(zero()), &at(&want, index(N, &x)), || format!("coefficient of {:?}", x));
    }
}

fn pairs<const N: u32>(d: usize, n: usize) {
    let ws = words(N, d);
    let mut want = vec![];
    let mut list = vec![];
    for _ in 0..n {
        let w = ws[choose(ws.len())].clone();
        let s = var();
        let i = index(N, &w);
        if want.len() <= i { want.resize(i + 1, zero()); }
        want[i] = want[i].add(&s);
        list.push((tk::<N>(&w), s));
    }
    let keys: Vec<usize> = list.iter().map(|(k, _)| TensorBasis::<N>::key_to_index(k)).collect();
    let v = V::<N>::from_iterator(list);
    equal(&coefs(&v), &want, "from_iterator");
    for i in keys { must(i < v.size(), || format!("the dimension does not cover index {}", i)); }
    if n == 0 { must(v.size() == 0, || "an empty sequence gives a vector that is not empty".into()); }
}

fn buffer<const N: u32>(max: usize) {
    let n = choose(max + 1);
    let c = vars(n);
    identical(&coefs(&V::<N>::from(c.clone())), &c, "from a buffer");
    must(V::<N>::from(c.clone()).size() == n, || "size of a vector from a buffer".into());
    identical(&coefs(&V::<N>::from_dimension(n)), &vec![zero(); n], "from a dimension");
    must(coefs(&<V<N> as Vector>::new()).is_empty() && coefs(&V::<N>::new()).is_empty(), || "a new vector is not empty".into());
}

/// Many pairs, the indices running through 0..m in steps of `step`.
fn many<const N: u32>(n: usize, m: usize, step: usize) {
    let ws = words(N, 6);
    let list: Vec<(usize, Sym)> = (0..n).map(|i| ((i * step + 3) % m, var())).collect();
    let mut want = vec![];
    for (i, s) in &list { if want.len() <= *i { want.resize(i + 1, zero()); } want[*i] = want[*i].add(s); }
    let v = V::<N>::from_iterator(list.into_iter().map(|(i, s)| (tk::<N>(&ws[i]), s)));
    equal(&coefs(&v), &want, "from_iterator with many pairs");
    must(v.size() >= want.len(), || "the dimension does not cover all keys".into());
}

scenarios! {
    c08q_many_2 { let n = [7, 20, 40, 100][choose(4)]; let m = [4, 15, 63, 127][choose(4)]; many::<2>(n, m, [1, 5, 11, 0][choose(4)]) }
    c08q_many_3 { let n = [9, 33][choose(2)]; let m = [13, 40, 121][choose(3)]; many::<3>(n, m, [1, 7, 120][choose(3)]) }
    c08q_buffer_wide { let _ = choose(1); buffer::<2>(70) }
    c08q_key_1 { key_scalar::<1>(5) }
    c08q_key_2 { key_scalar::<2>(4) }
    c08q_key_3 { key_scalar::<3>(3) }
    c08q_key_5 { key_scalar::<5>(2) }
    c08q_key_2_deep { key_scalar::<2>(7) }
    c08q_key_3_deep { key_scalar::<3>(5) }
    c08q_pairs_0 { pairs::<2>(2, 0) }
    c08q_pairs_1 { pairs::<3>(3, 1) }
    c08q_pairs_2 { pairs::<2>(3, 2) }
    c08q_pairs_2_3 { pairs::<3>(2, 2) }
    c08q_pairs_3 { pairs::<2>(2, 3) }
    c08q_pairs_4 { pairs::<2>(1, 4) }
    c08q_pairs_5 { pairs::<3>(1, 5) }
    c08q_pairs_4_deep { pairs::<2>(2, 4) }
    c08q_pairs_3_deep { pairs::<3>(2, 3) }
    c08q_buffer_2 { buffer::<2>(9) }
    c08q_buffer_3 { buffer::<3>(14) }
}
