use crate::nd;
use rustyalgebra::lie::verif::DegreeRangeMap;

/// Every key number there is, against the definition read off the table itself.
fn find<const N: u32, const D: usize>(m: &DegreeRangeMap<N>) {
    let k = nd::u64();
    let r = m.find_deg(k);
    if D == 0 { assert!(r.is_err()); return; }
    let mut want = D;
    let mut d = D;
    while d > 0 {
        d -= 1;
        match m.get(d as u32) { Ok(v) => if v as u64 >= k { want = d; }, Err(_) => assert!(false) }
    }
    match r { Ok(d) => assert!(d as usize == want && want < D), Err(_) => assert!(want == D) }
}
fn created<const N: u32, const D: usize>() { find::<N, D>(&DegreeRangeMap::<N>::new(D as u32)) }
fn grown<const N: u32, const D: usize>(from: u32) {
    let mut m = DegreeRangeMap::<N>::new(from);
    assert!(m.grow(D as u32 - 1).is_ok());
    find::<N, D>(&m);
}

/// By the definition of the numbering: letters have degree one, pairs degree two.
fn first<const N: u32>() {
    let m = DegreeRangeMap::<N>::new(4);
    let k = nd::u64();
    let n = N as u64;
    nd::assume(k >= 1 && k <= n + n * (n - 1) / 2);
    match m.find_deg(k) { Ok(d) => assert!(d == if k <= n { 1 } else { 2 }), Err(_) => assert!(false) }
}

harnesses! {
    c25q_empty [4] { created::<3, 0>() }
    c25q_one [6] { created::<3, 1>() }
    c25q_two [6] { created::<2, 2>() }
    c25q_1 [10] { created::<1, 6>() }
    c25q_2 [12] { created::<2, 10>() }
    c25q_3 [12] { created::<3, 9>() }
    c25q_5 [12] { created::<5, 8>() }
    c25q_7 [12] { created::<7, 7>() }
    c25q_grown_3 [10] { grown::<3, 7>(2) }
    c25q_grown_2 [10] { grown::<2, 6>(0) }
    c25q_first_2 [8] { first::<2>() }
    c25q_first_3 [8] { first::<3>() }
    c25q_first_10 [8] { first::<10>() }
    c25t_2 [20] { created::<2, 18>() }
    c25t_3 [20] { created::<3, 16>() }
}
refusals! {}
