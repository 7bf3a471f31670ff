use crate::nd;
use rustyalgebra::coefficients::*;

macro_rules! float {
    ($m:ident $t:ty, $bits:ident) => {
        mod $m {
            use super::*;
            pub fn any() -> $t { <$t>::from_bits(nd::$bits()) }
            /// The same float: the same bits, or both not a number.
            pub fn same(a: $t, b: $t) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
            pub fn binary(f: fn(&$t, &$t) -> $t, g: fn(&mut $t, &$t), want: fn($t, $t) -> $t) {
                let (a, b) = (any(), any());
                let w = want(a, b);
                assert!(same(f(&a, &b), w));
                let mut x = a;
                g(&mut x, &b);
                assert!(same(x, w));
            }
            /// Operands of few significant bits, for which the solver can search through products and quotients.
            pub fn short() -> $t {
                let (n, e, s) = (nd::u8() as i16, nd::range(0, 6), nd::u8() & 1);
                let x = <$t>::from(n) * [1.0, 0.5, 0.25, 2.0, 4.0, 1024.0, 0.0009765625][e as usize];
                if s == 1 { -x } else { x }
            }
            pub fn binary_short(f: fn(&$t, &$t) -> $t, g: fn(&mut $t, &$t), want: fn($t, $t) -> $t) {
                let (a, b) = (short(), short());
                let w = want(a, b);
                assert!(same(f(&a, &b), w));
                let mut x = a;
                g(&mut x, &b);
                assert!(same(x, w));
            }
            /// The value an in-place form returns is the changed operand.
            pub fn returns() {
                let (a, b) = (any(), any());
                let mut x = a;
                let p = &x as *const $t;
                let q = match nd::range(0, 3) {
                    0 => x.add_inplace(&b) as *const $t,
                    1 => x.sub_inplace(&b) as *const $t,
                    2 => x.mul_inplace(&b) as *const $t,
                    _ => x.div_inplace(&b) as *const $t,
                };
                assert!(p == q);
            }
            pub fn unary() {
                let a = any();
                assert!(same(a.uminus(), -a));
                assert!(same(<$t as CoefficientField>::inv(&a), 1.0 / a));
                assert!(same(<$t as CoefficientField>::inv(a), 1.0 / a));
            }
            pub fn constants() {
                assert!(<$t>::ZERO.to_bits() == (0.0 as $t).to_bits());
                assert!(<$t>::ONE.to_bits() == (1.0 as $t).to_bits());
                assert!(<$t>::MONE.to_bits() == (-1.0 as $t).to_bits());
                let d = nd::u32();
                assert!(<$t as FromDegreeType>::from_degree(&d).to_bits() == (d as $t).to_bits());
            }
            pub fn rational() {
                let (n, d) = (any(), any());
                assert!(same(<$t as CoefficientField>::from_rational(n, d), n / d));
                let (i, j) = (nd::u16() as i16, nd::u8() as i8);
                assert!(same(<$t as CoefficientField>::from_rational(i, j), (i as $t) / (j as $t)));
            }
        }
    };
}
float!(single f32, u32);
float!(double f64, u64);

fn ai<S: CoefficientField>(x: &mut S, y: &S) { x.add_inplace(y); }
fn si<S: CoefficientField>(x: &mut S, y: &S) { x.sub_inplace(y); }
fn mi<S: CoefficientField>(x: &mut S, y: &S) { x.mul_inplace(y); }
fn di32(x: &mut f32, y: &f32) { x.div_inplace(y); }
fn di64(x: &mut f64, y: &f64) { x.div_inplace(y); }

harnesses! {
    c22q_add32 [2] { single::binary(<f32 as CoefficientField>::add, ai, |a, b| a + b) }
    c22q_sub32 [2] { single::binary(<f32 as CoefficientField>::sub, si, |a, b| a - b) }
    c22q_mul32 [2] { single::binary(<f32 as CoefficientField>::mul, mi, |a, b| a * b) }
    c22q_div32 [2] { single::binary(<f32 as CoefficientField>::div, di32, |a, b| a / b) }
    c22q_mul32_short [2] { single::binary_short(<f32 as CoefficientField>::mul, mi, |a, b| a * b) }
    c22q_div32_short [2] { single::binary_short(<f32 as CoefficientField>::div, di32, |a, b| a / b) }
    c22q_unary32 [2] { single::unary() }
    c22q_returns32 [2] { single::returns() }
    c22q_constants32 [2] { single::constants() }
    c22q_rational32 [2] { single::rational() }
    c22q_add64 [2] { double::binary(<f64 as CoefficientField>::add, ai, |a, b| a + b) }
    c22q_sub64 [2] { double::binary(<f64 as CoefficientField>::sub, si, |a, b| a - b) }
    c22q_mul64 [2] { double::binary(<f64 as CoefficientField>::mul, mi, |a, b| a * b) }
    c22q_div64 [2] { double::binary(<f64 as CoefficientField>::div, di64, |a, b| a / b) }
    c22q_mul64_short [2] { double::binary_short(<f64 as CoefficientField>::mul, mi, |a, b| a * b) }
    c22q_div64_short [2] { double::binary_short(<f64 as CoefficientField>::div, di64, |a, b| a / b) }
    c22q_unary64 [2] { double::unary() }
    c22q_returns64 [2] { double::returns() }
    c22q_constants64 [2] { double::constants() }
    c22q_rational64 [2] { double::rational() }
}
refusals! {}
