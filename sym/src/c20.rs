use crate::common::*;

fn op(s: &mut S, m: &mut Map, probe: &mut Vec<Key>) {
    match choose(7) {
        0 => { let (k, v) = (key(), var()); s.insert_single(&k, v.clone()); m.set(&k, v); probe.push(k); }
        1 => { let k = key(); s.erase(&k); m.del(&k); probe.push(k); }
        2 => {
            let (k, v) = (key(), var());
            let p = s.get_mut(&k);
            must(p.is_some() == m.get(&k).is_some(), || "get_mut".into());
            if let Some(p) = p { *p = v.clone(); m.set(&k, v); }
            probe.push(k);
        }
        3 => { s.clear(); *m = Map::new(); }
        4 => {
            let (mut o, mo, ko) = sparse_distinct(choose(2), false);
            s.swap(&mut o);
            holds(&o, m, &[], "the vector swapped with");
            *m = mo;
            probe.extend(ko);
        }
        5 => {
            let (k, l, v, w) = (key(), key(), var(), var());
            s.insert(vec![(k.clone(), v.clone()), (l.clone(), w.clone())]);
            m.set(&k, v);
            m.set(&l, w);
            probe.push(k);
            probe.push(l);
        }
        _ => {
            // a copy, changed, leaves its source alone, and is then taken on
            let mut c = Vector::to_owned(s);
            must(c == *s, || "an owned copy differs from its source".into());
            let (k, v) = (key(), var());
            c.insert_single(&k, v.clone());
            holds(s, m, &[], "source of a copy");
            *s = c;
            m.set(&k, v);
            probe.push(k);
        }
    }
}

fn history(start: usize, steps: usize) {
    let (mut s, mut m, mut probe) = sparse(start, false);
    for _ in 0..steps { op(&mut s, &mut m, &mut probe); }
    probe.push(key());
    holds(&s, &m, &probe, "after the history");
}

fn build(n: usize) {
    let (s, m, mut probe) = sparse(n, false);
    probe.push(key());
    holds(&s, &m, &probe, "from_iterator");
}

fn single() {
    let (k, v, o) = (key(), var::<0>(), key());
    let mut m = Map::new();
    match choose(3) {
        0 => { m.set(&k, one()); holds(&S::from_key(k), &m, &[o], "from_key"); }
        1 => { m.set(&k, v.clone()); holds(&S::from_key_scalar(k, v), &m, &[o], "from_key_scalar"); }
        _ => holds(&S::new(), &m, &[o], "new"),
    }
}

/// Equality is equality of the maps.
fn equality(n: usize, p: usize, nz: bool) {
    let (a, ma, _) = sparse_distinct(n, nz);
    let (b, mb, _) = sparse_distinct(p, nz);
    let got = a == b;
    let want = ma.0.len() == mb.0.len() && ma.0.iter().all(|(k, v)| mb.get(k).map_or(false, |w| *v == w));
    must(got == want, || format!("equality: got {}, want {}", got, want));
    must((b == a) == want, || "equality the other way round".into());
    must(a == a, || "a vector differs from itself".into());
    must((a != b) == !want, || "inequality".into());
}

/// Many pairs, the keys repeating after `period` of them.
fn wide_build(n: usize, period: usize) {
    let c = vars::<0>(n);
    let mut m = Map::new();
    for (i, v) in c.iter().enumerate() { let k = numbered(i % period); let s = m.or0(&k).add(v); m.set(&k, s); }
    let s = S::from_iterator(c.into_iter().enumerate().map(|(i, v)| (numbered(i % period), v)));
    holds(&s, &m, &[numbered(period)], "from_iterator with many pairs");
}

/// Many insertions, then every `step`th key erased, some stored again.
fn wide_history(n: usize, step: usize) {
    let (mut s, mut m, _) = sparse_numbered(0, &vars(n));
    holds(&s, &m, &[numbered(n)], "after many insertions");
    for i in (0..n).step_by(step) { s.erase(&numbered(i)); m.del(&numbered(i)); }
    holds(&s, &m, &[numbered(0)], "after many erasures");
    for i in (0..n).step_by(2 * step) { let v = var::<0>(); s.insert_single(&numbered(i), v.clone()); m.set(&numbered(i), v); }
    for i in (0..n).step_by(3) {
        let v = var::<0>();
        if let Some(p) = s.get_mut(&numbered(i)) { *p = v.clone(); must(m.get(&numbered(i)).is_some(), || "get_mut of an absent key".into()); m.set(&numbered(i), v); }
    }
    holds(&s, &m, &[], "after storing again");
    let (mut o, mo, _) = sparse_numbered(1, &vars(n / 2));
    s.swap(&mut o);
    holds(&s, &mo, &[], "swapped");
    holds(&o, &m, &[], "the vector swapped with");
    o.clear();
    holds(&o, &Map::new(), &[numbered(1)], "cleared");
}

/// Vectors of many keys that differ at one of them, in value or presence.
fn wide_equality(n: usize) {
    let c = vars::<0>(n);
    let (a, _, _) = sparse_numbered(0, &c);
    let at = choose(n);
    let mut d = c.clone();
    let v = var::<0>();
    let (b, want) = match choose(3) {
        0 => { d[at] = v.clone(); (sparse_numbered(0, &d).0, v == c[at]) }
        1 => { let mut b = sparse_numbered(0, &c).0; b.erase(&numbered(at)); (b, false) }
        _ => { let mut b = sparse_numbered(0, &c).0; b.erase(&numbered(at)); b.insert_single(&numbered(n), c[at].clone()); (b, false) }
    };
    must((a == b) == want && (b == a) == want, || "equality of vectors that differ at one key".into());
    // the same pairs, stored the other way round
    let mut r = S::new();
    for (i, v) in c.iter().enumerate().rev() { r.insert_single(&numbered(i), v.clone()); }
    must(a == r && r == a, || "the order of insertion matters".into());
}

scenarios! {
    c20q_wide_build { let p = [1, 5, 16, 33][choose(4)]; wide_build([6, 17, 40][choose(3)], p) }
    c20q_wide_history { let s = 1 + choose(4); wide_history([6, 17, 40][choose(3)], s) }
    c20q_wide_equality { wide_equality([4, 9, 20][choose(3)]) }
    c20q_single { single() }
    c20q_build_01 { build(choose(3)) }
    c20q_build_3 { build(3) }
    c20q_build_4 { build(4) }
    c20q_build_5 { build(5) }
    c20q_history_01 { history(0, 1) }
    c20q_history_02 { history(0, 2) }
    c20q_history_11 { history(1, 1) }
    c20q_history_12 { history(1, 2) }
    c20q_history_21 { history(2, 1) }
    c20q_history_03 { history(0, 3) }
    c20q_history_22 { history(2, 2) }
    c20t_history_13 { history(1, 3) }
    c20q_equality_0 { equality(0, choose(3), false) }
    c20q_equality_11 { equality(1, 1, false) }
    c20q_equality_12 { equality(1, 2, false) }
    c20q_equality_21 { equality(2, 1, false) }
    c20q_equality_22 { equality(2, 2, false) }
    c20q_equality_31 { equality(3, choose(2), false) }
    c20q_equality_33 { equality(3, 3, true) }
}
