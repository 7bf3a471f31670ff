use crate::nd;
use rustyalgebra::lie::verif::DegreeRangeMap;

/// mobius, by counting prime factors.
const fn mobius(mut n: u64) -> i64 {
    let mut r = 1;
    let mut p = 2;
    while p <= n {
        if n % p == 0 {
            n /= p;
            if n % p == 0 { return 0; }
            r = -r;
        }
        p += 1;
    }
    r
}

/// The number of Hall basis elements of degree at most d over n letters, for d up to D.
const fn table<const D: usize>(n: u64) -> [u64; D] {
    let mut t = [0u64; D];
    let mut d = 1;
    while d < D {
        let mut s: i128 = 0;
        let mut e = 1;
        while e <= d {
            if d % e == 0 {
                let mut p: i128 = 1;
                let mut i = 0;
                while i < d / e { p *= n as i128; i += 1; }
                s += mobius(e as u64) as i128 * p;
            }
            e += 1;
        }
        t[d] = t[d - 1] + (s / d as i128) as u64;
        d += 1;
    }
    t
}

trait Want<const D: usize> { const T: [u64; D]; }
struct Of<const N: u32>;
impl<const N: u32, const D: usize> Want<D> for Of<N> { const T: [u64; D] = table::<D>(N as u64); }

/// Every degree of a table created in one go; every other degree is refused.
fn created<const N: u32, const D: usize>() {
    let m = DegreeRangeMap::<N>::new(D as u32);
    let d = nd::u32();
    match m.get(d) {
        Ok(v) => assert!((d as usize) < D && v as u64 == <Of<N> as Want<D>>::T[d as usize]),
        Err(_) => assert!(d as usize >= D),
    }
}

/// Created with a degrees, grown to b, then to c.
fn grown<const N: u32, const D: usize>(a: u32, b: u32, c: u32) {
    let mut m = DegreeRangeMap::<N>::new(a);
    assert!(m.grow(b).is_ok());
    let least = if b + 1 > a { b + 1 } else { a };
    let d = nd::u32();
    match m.get(d) { Ok(v) => assert!((d as usize) < D && v as u64 == <Of<N> as Want<D>>::T[d as usize]), Err(_) => assert!(d >= least) }
    assert!(m.grow(c).is_ok());
    let least = if c + 1 > least { c + 1 } else { least };
    let d = nd::u32();
    match m.get(d) { Ok(v) => assert!((d as usize) < D && v as u64 == <Of<N> as Want<D>>::T[d as usize]), Err(_) => assert!(d >= least) }
}

fn all_grown<const N: u32, const D: usize>(upto: u32) {
    let (x, y, z) = (nd::range(0, upto), nd::range(0, upto), nd::range(0, upto));
    let mut a = 0;
    while a <= upto {
        let mut b = 0;
        while b <= upto {
            let mut c = 0;
            while c <= upto {
                if a == x && b == y && c == z { grown::<N, D>(a, b, c); }
                c += 1;
            }
            b += 1;
        }
        a += 1;
    }
}

harnesses! {
    c24q_created_1 [24] { created::<1, 22>() }
    c24q_created_2 [38] { created::<2, 36>() }
    c24q_created_3 [34] { created::<3, 32>() }
    c24q_created_4 [33] { created::<4, 31>() }
    c24q_created_5 [28] { created::<5, 26>() }
    c24q_created_7 [24] { created::<7, 22>() }
    c24q_created_10 [20] { created::<10, 18>() }
    c24q_created_1000 [8] { created::<1000, 6>() }
    c24q_created_0 [4] { created::<3, 0>() }
    c24q_grown_2 [6] { all_grown::<2, 3>(2) }
    c24q_grown_2a [12] { grown::<2, 9>(1, 4, 8) }
    c24q_grown_2b [12] { grown::<2, 9>(4, 6, 7) }
    c24q_grown_3 [12] { grown::<3, 9>(2, 8, 5) }
    c24q_grown_5 [12] { grown::<5, 9>(0, 0, 8) }
    c24q_grown_4 [12] { grown::<4, 9>(9, 3, 8) }
    c24t_created_2 [62] { created::<2, 60>() }
    c24t_created_3 [40] { created::<3, 38>() }
    c24t_grown_2 [8] { all_grown::<2, 4>(3) }
}
refusals! {}
