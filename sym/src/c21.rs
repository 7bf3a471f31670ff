use crate::common::*;
use std::ops::{Deref, DerefMut};

/// Another wrapper than the repository's.
#[derive(PartialEq)]
pub struct W<I>(pub I);
impl<I> Deref for W<I> { type Target = I; fn deref(&self) -> &I { &self.0 } }
impl<I> DerefMut for W<I> { fn deref_mut(&mut self) -> &mut I { &mut self.0 } }
impl<I> From<I> for W<I> { fn from(i: I) -> Self { W(i) } }

const OPS: usize = 37;

/// One operation on the wrappers and on the vectors inside; `check` compares two vectors.
fn one_op<X, I, K>(mut a: X, mut ia: I, mut b: X, mut ib: I, k: K, l: K, check: &dyn Fn(&I, &I, &str), which: usize)
where
    K: Clone + 'static,
    I: Vector<'static, KeyType = K, ScalarType = Sym, RationalType = Sym>,
    X: Vector<'static, KeyType = K, ScalarType = Sym, RationalType = Sym> + DerefMut<Target = I> + From<I>,
{
    let (s, r) = (var::<0>(), nonzero::<0>());
    macro_rules! pure { ($name:literal, $x:expr, $y:expr) => {{ let (p, q) = ($x, $y); check(p.deref(), &q, $name); }}; }
    macro_rules! eff { ($name:literal, $x:expr, $y:expr) => {{
        { let p: &mut X = $x; let p = p as *const X; must(std::ptr::eq(p, &a as *const X), || format!("{} returns another vector", $name)); }
        $y;
        check(a.deref(), &ia, $name);
    }}; }
    match which {
        0 => pure!("new", <X as Vector>::new(), <I as Vector>::new()),
        1 => pure!("from_key", X::from_key(k), I::from_key(l.clone())),
        2 => pure!("from_key_scalar", X::from_key_scalar(k, s.clone()), I::from_key_scalar(l.clone(), s)),
        3 => { let t = var::<0>(); pure!("from_iterator", X::from_iterator(vec![(k.clone(), s.clone()), (l.clone(), t.clone())]), I::from_iterator(vec![(k, s), (l.clone(), t)])) }
        4 => { a.swap(&mut b); Vector::swap(&mut ia, &mut ib); check(a.deref(), &ia, "swap"); }
        5 => pure!("to_owned", Vector::to_owned(&a), Vector::to_owned(&ia)),
        6 => { Vector::clear(&mut a); ia.clear(); }
        7 => {
            let (p, q) = (Vector::get(&a, &k).cloned(), ia.get(&k).cloned());
            must(p.is_some() == q.is_some(), || "get".into());
            if let (Some(p), Some(q)) = (p, q) { same(&p, &q, || "get".into()); }
        }
        8 => {
            let (p, q) = (Vector::get_mut(&mut a, &k), ia.get_mut(&k));
            must(p.is_some() == q.is_some(), || "get_mut".into());
            if let (Some(p), Some(q)) = (p, q) { same(p, q, || "get_mut".into()); *p = s.clone(); *q = s; }
        }
        9 => { Vector::insert_single(&mut a, &k, s.clone()); ia.insert_single(&k, s); }
        10 => { Vector::insert(&mut a, vec![(k.clone(), s.clone()), (l.clone(), r.clone())]); ia.insert(vec![(k, s), (l.clone(), r)]); }
        11 => { Vector::erase(&mut a, &k); ia.erase(&k); }
        12 => pure!("uminus", Vector::uminus(&a), ia.uminus()),
        13 => pure!("add", Vector::add(&a, &b), ia.add(&ib)),
        14 => pure!("sub", Vector::sub(&a, &b), ia.sub(&ib)),
        15 => pure!("scalar_rmultiply", Vector::scalar_rmultiply(&a, s.clone()), ia.scalar_rmultiply(s)),
        16 => pure!("scalar_lmultiply", Vector::scalar_lmultiply(&a, s.clone()), ia.scalar_lmultiply(s)),
        17 => pure!("scalar_rdivide", Vector::scalar_rdivide(&a, r.clone()), ia.scalar_rdivide(r)),
        18 => pure!("scalar_ldivide", Vector::scalar_ldivide(&a, r.clone()), ia.scalar_ldivide(r)),
        19 => eff!("uminus_inplace", Vector::uminus_inplace(&mut a), ia.uminus_inplace()),
        20 => eff!("add_inplace", Vector::add_inplace(&mut a, &b), ia.add_inplace(&ib)),
        21 => eff!("sub_inplace", Vector::sub_inplace(&mut a, &b), ia.sub_inplace(&ib)),
        22 => eff!("scalar_lmultiply_inplace", Vector::scalar_lmultiply_inplace(&mut a, s.clone()), ia.scalar_lmultiply_inplace(s)),
        23 => eff!("scalar_rmultiply_inplace", Vector::scalar_rmultiply_inplace(&mut a, s.clone()), ia.scalar_rmultiply_inplace(s)),
        24 => eff!("scalar_rdivide_inplace", Vector::scalar_rdivide_inplace(&mut a, r.clone()), ia.scalar_rdivide_inplace(r)),
        25 => eff!("scalar_ldivide_inplace", Vector::scalar_ldivide_inplace(&mut a, r.clone()), ia.scalar_ldivide_inplace(r)),
        26 => eff!("add_scalar_rmultiply", Vector::add_scalar_rmultiply(&mut a, &b, s.clone()), ia.add_scalar_rmultiply(&ib, s)),
        27 => eff!("add_scalar_lmultiply", Vector::add_scalar_lmultiply(&mut a, &b, s.clone()), ia.add_scalar_lmultiply(&ib, s)),
        28 => eff!("sub_scalar_rmultiply", Vector::sub_scalar_rmultiply(&mut a, &b, s.clone()), ia.sub_scalar_rmultiply(&ib, s)),
        29 => eff!("sub_scalar_lmultiply", Vector::sub_scalar_lmultiply(&mut a, &b, s.clone()), ia.sub_scalar_lmultiply(&ib, s)),
        30 => eff!("add_scalar_rdivide", Vector::add_scalar_rdivide(&mut a, &b, r.clone()), ia.add_scalar_rdivide(&ib, r)),
        31 => eff!("add_scalar_ldivide", Vector::add_scalar_ldivide(&mut a, &b, r.clone()), ia.add_scalar_ldivide(&ib, r)),
        32 => eff!("sub_scalar_rdivide", Vector::sub_scalar_rdivide(&mut a, &b, r.clone()), ia.sub_scalar_rdivide(&ib, r)),
        33 => eff!("sub_scalar_ldivide", Vector::sub_scalar_ldivide(&mut a, &b, r.clone()), ia.sub_scalar_ldivide(&ib, r)),
        34 => must((a == b) == (ia == ib), || "equality".into()),
        35 => { let x: X = X::from(Vector::to_owned(&ia)); check(x.deref(), &ia, "from the vector inside"); }
        _ => { a.add_inplace(Vector::to_owned(&b)); ia.add_inplace(Vector::to_owned(&ib)); }
    }
    // whatever the operation was, both pairs still agree
    check(a.deref(), &ia, "the target of the operation");
    check(b.deref(), &ib, "the other operand");
}

fn dense_pair<X, const N: u32>(na: usize, nb: usize, d: usize)
where X: Vector<'static, KeyType = TensorKey<N>, ScalarType = Sym, RationalType = Sym> + DerefMut<Target = V<N>> + From<V<N>>
{
    let (n, m, which) = (choose(na + 1), choose(nb + 1), choose(OPS));
    let ws = words(N, d);
    let keyed = matches!(which, 1..=3 | 7..=11);
    let k = tk::<N>(&ws[if keyed { choose(ws.len()) } else { 0 }]);
    let l = if matches!(which, 3 | 10) { tk::<N>(&ws[choose(ws.len())]) } else { k.clone() };
    let (ia, _) = dense::<N, 0>(n);
    let (ib, _) = dense::<N, 0>(m);
    one_op::<X, V<N>, TensorKey<N>>(X::from(ia.clone()), ia, X::from(ib.clone()), ib, k, l, &|x, y, what| identical(&coefs(x), &coefs(y), what), which);
}

fn sparse_pair(na: usize, nb: usize) {
    let which = choose(OPS);
    let (ia, _, _) = sparse_distinct(na, false);
    let (ib, _, _) = sparse_distinct(nb, false);
    let k = key();
    let l = if matches!(which, 3 | 10) { key() } else { k.clone() };
    one_op::<W<S>, S, Key>(W(Vector::to_owned(&ia)), ia, W(Vector::to_owned(&ib)), ib, k, l, &|x, y, what| {
        for (p, q) in [(x, y), (y, x)] {
            for (k, v) in p {
                match q.get(k) { Some(w) => same(v, w, || format!("{}: value at {:?}", what, k)), None => must(false, || format!("{}: a key is in one only", what)) }
            }
        }
    }, which);
}

/// What the wrapper's conversions give back.
fn conversion<const N: u32>(n: usize) {
    let (a, c) = dense::<N, 0>(n);
    let t = DenseTensor::<Sym, N>::from(a);
    identical(&coefs(&t), &c, "dereferencing");
    let back: V<N> = t.into();
    identical(&coefs(&back), &c, "converting back");
}

scenarios! {
    c21q_tensor_2 { dense_pair::<DenseTensor<'static, Sym, 2>, 2>(4, 4, 2) }
    c21q_tensor_3 { dense_pair::<DenseTensor<'static, Sym, 3>, 3>(4, 2, 1) }
    c21q_wrapper_2 { dense_pair::<W<V<2>>, 2>(3, 3, 2) }
    c21q_sparse_0 { sparse_pair(0, choose(2)) }
    c21q_sparse_1 { sparse_pair(1, 1) }
    c21q_sparse_2 { sparse_pair(2, 1) }
    c21q_sparse_3 { sparse_pair(1, 2) }
    c21q_xsparse_2 { sparse_pair(2, 2) }
    c21q_tensor_2_deep { dense_pair::<DenseTensor<'static, Sym, 2>, 2>(8, 8, 3) }
    c21q_conversion_2 { conversion::<2>(choose(8)) }
    c21q_conversion_3 { conversion::<3>(choose(14)) }
}
