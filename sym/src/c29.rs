use crate::common::*;

type B<'a, const N: u32> = SimpleDenseVector<'a, TensorBasis<N>, Sym>;

fn cf<'a, const N: u32>(v: &B<'a, N>) -> Vec<Sym> { DenseVector::as_slice(v).to_vec() }

struct Args { key: Vec<u32>, s: Sym, r: Sym, other: Vec<Sym>, deg: u32 }

const OPS: usize = 19;
const LINEAR: usize = 13;

/// One operation that writes; the first LINEAR are those of the vector interface that keep the storage.
fn write<'a, 'o, const N: u32>(v: &mut B<'a, N>, o: &B<'a, N>, a: &Args, which: usize) {
    let k = tk::<N>(&a.key);
    match which {
        0 => { v.uminus_inplace(); }
        1 => { v.add_inplace(o); }
        2 => { v.sub_inplace(o); }
        3 => { v.scalar_lmultiply_inplace(a.s.clone()); }
        4 => { v.scalar_rmultiply_inplace(a.s.clone()); }
        5 => { v.scalar_rdivide_inplace(a.r.clone()); }
        6 => { v.scalar_ldivide_inplace(a.r.clone()); }
        7 => { v.insert_single(&k, a.s.clone()); }
        8 => { v.erase(&k); }
        9 => { if let Some(p) = v.get_mut(&k) { *p = a.s.clone(); } }
        10 => { v.add_scalar_rmultiply(o, a.s.clone()); }
        11 => { v.add_scalar_multiply(k, a.s.clone()); }
        12 => { v.sub_scalar_rdivide(o, a.r.clone()); }
        13 => { v.clear(); }
        14 => { v.insert(vec![(k, a.s.clone()), (tk::<N>(&[]), a.r.clone())]); }
        15 => { v.add_mul(o, o, Some(a.deg)); }
        16 => { v.multiply_inplace(o, Some(a.deg)); }
        17 => { let n = v.size(); v.resize(n + 2); }
        _ => { for p in DenseVector::as_mut_slice(v) { *p = a.s.clone(); } }
    }
}

/// Results computed from the vector without writing to it.
fn read<'a, const N: u32>(v: &B<'a, N>, o: &B<'a, N>, a: &Args) -> Vec<(&'static str, Vec<Sym>)> {
    let k = tk::<N>(&a.key);
    vec![
        ("slice", cf(v)),
        ("size", vec![Sc::from(v.size() as i16)]),
        ("get", v.get(&k).cloned().into_iter().collect()),
        ("degree", vec![Sc::from(v.degree() as i16)]),
        ("uminus", cf(&v.uminus())),
        ("add", cf(&v.add(o))),
        ("sub", cf(&v.sub(o))),
        ("scalar_lmultiply", cf(&v.scalar_lmultiply(a.s.clone()))),
        ("scalar_rdivide", cf(&v.scalar_rdivide(a.r.clone()))),
        ("multiply", cf(&v.multiply(o, Some(a.deg)))),
        ("multiply from the right", cf(&o.multiply(v, Some(a.deg)))),
        ("commutator", cf(&v.commutator(o, Some(a.deg)))),
        ("clone", cf(&v.clone())),
        ("to_owned", cf(&Vector::to_owned(v))),
    ]
}

fn args<const N: u32>(keyed: bool, m: usize, d: usize) -> Args {
    let ws = words(N, d);
    Args { key: ws[if keyed { choose(ws.len()) } else { 0 }].clone(), s: var(), r: nonzero(), other: vars(m), deg: 3 }
}

fn reading<const N: u32>(na: usize, nb: usize, d: usize) {
    let (n, m) = (choose(na + 1), choose(nb + 1));
    let a = args::<N>(true, m, d);
    let data = vars::<0>(n);
    let mut excl = data.clone();
    let other = a.other.clone();
    {
        let owned = B::<N>::from(data.clone());
        let oo = B::<N>::from(a.other.clone());
        let want = read::<N>(&owned, &oo, &a);
        let kinds: [B<N>; 2] = [B::verif_borrowed(&data), B::verif_borrowed_mut(&mut excl)];
        for (v, kind) in kinds.iter().zip(["shared", "exclusive"]) {
            for ((name, got), (_, want)) in read::<N>(v, &oo, &a).iter().zip(&want) { identical(got, want, &format!("{} of a vector over {} data", name, kind)); }
            must(*v == owned && owned == *v, || format!("a vector over {} data differs from an owned one", kind));
            for ((name, got), (_, want)) in read::<N>(v, &B::verif_borrowed(&other), &a).iter().zip(&want) { identical(got, want, &format!("{} of two borrowing vectors", name)); }
        }
    }
    identical(&excl, &data, "exclusively borrowed data after reading");
    identical(&other, &a.other, "shared data after reading");
}

fn writing<const N: u32>(na: usize, nb: usize, d: usize, steps: usize) { writing_of::<N>(choose(na + 1), nb, d, steps) }
fn writing_of<const N: u32>(n: usize, nb: usize, d: usize, steps: usize) {
    let data = vars::<0>(n);
    let shared = data.clone();
    let mut excl = data.clone();
    let mut last = data.clone();
    let mut through = true;
    {
        let mut owned = B::<N>::from(data.clone());
        let mut x = B::<N>::verif_borrowed(&shared);
        let mut y = B::<N>::verif_borrowed_mut(&mut excl);
        for _ in 0..steps {
            let which = choose(OPS);
            let m = if matches!(which, 1 | 2 | 10 | 12 | 15 | 16) { choose(nb + 1) } else { 0 };
            let a = args::<N>(matches!(which, 7..=9 | 11 | 14), m, d);
            let o = B::<N>::from(a.other.clone());
            write::<N>(&mut owned, &o, &a, which);
            write::<N>(&mut x, &o, &a, which);
            write::<N>(&mut y, &o, &a, which);
            let want = cf(&owned);
            equal(&cf(&x), &want, &format!("operation {} on a vector over shared data", which));
            equal(&cf(&y), &want, &format!("operation {} on a vector over exclusive data", which));
            if which < LINEAR && y.size() == n && through { last = cf(&y); } else { through = false; }
            identical(&cf(&o), &a.other, "other operand");
            // what dimension clearing leaves is not specified, and later reads depend on it
            if which == 13 { break; }
        }
    }
    identical(&shared, &data, "shared data after writing");
    if through { identical(&excl, &last, "exclusively borrowed data after writing"); }
}

/// The other operand borrows.
fn operand<const N: u32>(na: usize, nb: usize) {
    let (n, m) = (choose(na + 1), choose(nb + 1));
    let a = args::<N>(false, m, 0);
    let data = vars::<0>(n);
    let other = a.other.clone();
    {
        let (mut p, mut q) = (B::<N>::from(data.clone()), B::<N>::from(data.clone()));
        let which = [1, 2, 10, 12, 15, 16][choose(6)];
        write::<N>(&mut p, &B::from(other.clone()), &a, which);
        write::<N>(&mut q, &B::verif_borrowed(&other), &a, which);
        identical(&cf(&q), &cf(&p), "operation with a borrowing operand");
    }
    identical(&other, &a.other, "shared data of the operand");
}

scenarios! {
    c29q_writing_wide { writing_of::<2>([15, 20, 33][choose(3)], 20, 2, 1) }
    c29q_reading_wide { reading::<2>(9, 9, 1) }
    c29q_reading_2 { reading::<2>(4, 4, 2) }
    c29q_reading_3 { reading::<3>(4, 2, 1) }
    c29q_writing_2 { writing::<2>(4, 4, 2, 1) }
    c29q_writing_3 { writing::<3>(4, 2, 1, 1) }
    c29q_writing_twice { writing::<2>(3, 1, 1, 2) }
    c29q_operand_2 { operand::<2>(4, 4) }
    c29q_writing_twice_deep { writing::<2>(7, 4, 2, 2) }
    c29t_writing_thrice { writing::<2>(3, 1, 1, 3) }
}
