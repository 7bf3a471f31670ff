use crate::common::*;

/// One operation on the vector, mirrored on what is stored.
fn op<const N: u32>(v: &mut V<N>, m: &mut Vec<(usize, Sym)>, ws: &[Vec<u32>], kinds: usize) {
    let set = |m: &mut Vec<(usize, Sym)>, i: usize, s: Sym| { m.retain(|e| e.0 != i); m.push((i, s)); };
    let kind = choose(kinds);
    match kind {
        0 => {
            let w = &ws[choose(ws.len())];
            let s = var();
            v.insert_single(&tk::<N>(w), s.clone());
            set(m, index(N, w), s);
        }
        1 => {
            let w = &ws[choose(ws.len())];
            let inside = index(N, w) < v.size();
            v.erase(tk::<N>(w));
            // An erased key stays within the dimension and reads as zero.
            if inside { set(m, index(N, w), zero()); }
        }
        2 => {
            let w = &ws[choose(ws.len())];
            let s = var();
            let inside = index(N, w) < v.size();
            let p = v.get_mut(tk::<N>(w));
            must(p.is_some() == inside, || format!("get_mut of {:?}", w));
            if let Some(p) = p { *p = s.clone(); set(m, index(N, w), s); }
        }
        3 => {
            v.clear();
            m.clear();
        }
        4 => {
            // swap with another vector, which must take over what this one held
            let n = choose(4);
            let (mut o, co) = dense::<N, 0>(n);
            let old = coefs(v);
            v.swap(&mut o);
            identical(&coefs(&o), &old, "the vector swapped with");
            *m = co.into_iter().enumerate().collect();
        }
        _ => {
            let (w, x) = (&ws[choose(ws.len())], &ws[choose(ws.len())]);
            let (s, t) = (var(), var());
            v.insert(vec![(tk::<N>(w), s.clone()), (tk::<N>(x), t.clone())]);
            set(m, index(N, w), s);
            set(m, index(N, x), t);
        }
    }
}

fn history<const N: u32>(start: usize, d: usize, steps: usize, kinds: usize) { history_of::<N>(choose(start + 1), d, steps, kinds) }
fn history_of<const N: u32>(n: usize, d: usize, steps: usize, kinds: usize) {
    let ws = words(N, d);
    let (mut v, c) = dense::<N, 0>(n);
    let mut m: Vec<(usize, Sym)> = c.into_iter().enumerate().collect();
    for _ in 0..steps { op::<N>(&mut v, &mut m, &ws, kinds); }
    let size = v.size();
    for w in words(N, d + 1) {
        let i = index(N, &w);
        let got = v.get(tk::<N>(&w)).cloned();
        match m.iter().find(|e| e.0 == i) {
            Some((_, s)) => match got {
                None => must(false, || format!("{:?} was stored and is not there", w)),
                Some(g) => same(&g, s, || format!("value stored at {:?}", w)),
            },
            None => match got {
                None => must(i >= size, || format!("{:?} lies within the dimension and is not there", w)),
                Some(g) => {
                    must(i < size, || format!("{:?} lies beyond the dimension and is there", w));
                    same(&g, &zero(), || format!("{:?} was not stored", w));
                }
            },
        }
        must(v.get_mut(tk::<N>(&w)).is_some() == (i < size), || format!("get_mut of {:?}", w));
    }
}

/// Reading and writing through the slice views agree with the keys.
fn slices<const N: u32>(d: usize) {
    let n = choose(dim(N, d) + 1);
    let (mut v, mut c) = dense::<N, 0>(n);
    let i = choose(n + 1);
    let s = var::<0>();
    match v.get_mut_slice(i) { Some(p) => { *p = s.clone(); c[i] = s; } None => must(i >= n, || "get_mut_slice".into()) }
    for (j, w) in words(N, d).iter().enumerate() {
        match v.get(tk::<N>(w)) { Some(g) => same(g, &at(&c, j), || format!("value at {:?}", w)), None => must(j >= n, || format!("{:?} missing", w)) }
        must(v.get_slice(j).is_some() == (j < n), || "get_slice".into());
        if let Some(g) = v.get_slice(j) { same(g, &at(&c, j), || format!("get_slice {}", j)); }
    }
    identical(&coefs(&v), &c, "as_slice");
}

scenarios! {
    c11q_wide_2 { let n = [14, 15, 16, 31, 33][choose(5)]; history_of::<2>(n, 4, 1, 6) }
    c11q_wide_3 { let n = [12, 13, 14, 40, 41][choose(5)]; history_of::<3>(n, 3, 1, 5) }
    c11q_wide_two { history_of::<2>([7, 15][choose(2)], 3, 2, 4) }
    c11q_one_2 { history::<2>(7, 3, 1, 6) }
    c11q_one_3 { history::<3>(4, 2, 1, 5) }
    c11q_one_1 { history::<1>(3, 3, 1, 6) }
    c11q_two_2 { history::<2>(3, 2, 2, 5) }
    c11q_three_1 { history::<1>(2, 2, 3, 5) }
    c11q_three_2 { history::<2>(1, 1, 3, 5) }
    c11t_two_2 { history::<2>(7, 3, 2, 6) }
    c11t_two_3 { history::<3>(4, 2, 2, 6) }
    c11t_four_1 { history::<1>(2, 2, 4, 5) }
    c11q_slices_2 { slices::<2>(2) }
    c11q_slices_3 { slices::<3>(2) }
}
