//! The quadratic extension of a prime field as a scalar type.
//!
//! An element is `a + b w` with `w^2` a fixed non-residue, so every element of the base field has
//! a square root.  All arithmetic is exact: a filter computed in any order of evaluation gives the
//! same result, which the specification (spec/GF.tla) computes as well.
//! Values of the base field are written to traces as 0..p-1; anything else as a number >= p.
use core::cmp::Ordering;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use minikalman::matrix::MatrixDataType;
use num_traits::{FromPrimitive, One, Zero};
use std::sync::atomic::{AtomicU32, Ordering as O};

static P: AtomicU32 = AtomicU32::new(46337);
static NONRES: AtomicU32 = AtomicU32::new(3);

pub fn p() -> u64 {
    P.load(O::Relaxed) as u64
}
fn w2() -> u64 {
    NONRES.load(O::Relaxed) as u64
}
fn powm(mut b: u64, mut e: u64) -> u64 {
    let m = p();
    let mut r = 1;
    b %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m;
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}
/// Selects the field; to be called before any element exists.
pub fn set_prime(q: u32) {
    P.store(q, O::Relaxed);
    let m = q as u64;
    for n in 2..m {
        if powm(n, (m - 1) / 2) == m - 1 {
            NONRES.store(n as u32, O::Relaxed);
            return;
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Gf {
    pub a: u32,
    pub b: u32,
}
pub fn gf(v: i64) -> Gf {
    Gf { a: v.rem_euclid(p() as i64) as u32, b: 0 }
}
fn mk(a: u64, b: u64) -> Gf {
    Gf { a: (a % p()) as u32, b: (b % p()) as u32 }
}
impl Gf {
    fn n(self) -> (u64, u64) {
        (self.a as u64, self.b as u64)
    }
    fn inv(self) -> Gf {
        let (a, b) = self.n();
        let m = p();
        let n = (a * a + (m - b * b % m) * w2()) % m;
        assert!(n != 0, "division by zero in the field");
        let i = powm(n, m - 2);
        mk(a * i, (m - b) % m * i)
    }
    /// For the trace.
    pub fn code(self) -> u64 {
        let (a, b) = self.n();
        if b == 0 { a } else { p() + (b - 1) * 1000 % 100_000_000 + a % 1000 }
    }
}
/// A square root in the base field (Tonelli-Shanks), if there is one.
fn sqrt_base(v: u64) -> Option<u64> {
    let m = p();
    if v == 0 {
        return Some(0);
    }
    if powm(v, (m - 1) / 2) != 1 {
        return None;
    }
    let (mut q, mut s) = (m - 1, 0);
    while q % 2 == 0 {
        q /= 2;
        s += 1;
    }
    let (mut c, mut t, mut r) = (powm(w2(), q), powm(v, q), powm(v, (q + 1) / 2));
    let mut mm = s;
    while t != 1 {
        let (mut i, mut t2) = (0, t);
        while t2 != 1 {
            t2 = t2 * t2 % m;
            i += 1;
        }
        let b = powm(c, 1 << (mm - i - 1));
        mm = i;
        c = b * b % m;
        t = t * c % m;
        r = r * b % m;
    }
    Some(r)
}
impl Add for Gf {
    type Output = Gf;
    fn add(self, o: Gf) -> Gf {
        let ((a, b), (c, d)) = (self.n(), o.n());
        mk(a + c, b + d)
    }
}
impl Sub for Gf {
    type Output = Gf;
    fn sub(self, o: Gf) -> Gf {
        let ((a, b), (c, d)) = (self.n(), o.n());
        mk(a + p() - c, b + p() - d)
    }
}
impl Mul for Gf {
    type Output = Gf;
    fn mul(self, o: Gf) -> Gf {
        let ((a, b), (c, d)) = (self.n(), o.n());
        mk(a * c % p() + b * d % p() * w2(), a * d % p() + b * c % p())
    }
}
impl Div for Gf {
    type Output = Gf;
    #[allow(clippy::suspicious_arithmetic_impl)]
    fn div(self, o: Gf) -> Gf {
        self * o.inv()
    }
}
impl Neg for Gf {
    type Output = Gf;
    fn neg(self) -> Gf {
        Gf::zero() - self
    }
}
impl AddAssign for Gf {
    fn add_assign(&mut self, o: Gf) {
        *self = *self + o
    }
}
impl SubAssign for Gf {
    fn sub_assign(&mut self, o: Gf) {
        *self = *self - o
    }
}
impl MulAssign for Gf {
    fn mul_assign(&mut self, o: Gf) {
        *self = *self * o
    }
}
impl DivAssign for Gf {
    fn div_assign(&mut self, o: Gf) {
        *self = *self / o
    }
}
impl Zero for Gf {
    fn zero() -> Gf {
        Gf { a: 0, b: 0 }
    }
    fn is_zero(&self) -> bool {
        self.a == 0 && self.b == 0
    }
}
impl One for Gf {
    fn one() -> Gf {
        gf(1)
    }
}
impl Sum for Gf {
    fn sum<I: Iterator<Item = Gf>>(it: I) -> Gf {
        it.fold(Gf::zero(), |a, b| a + b)
    }
}
/// Any total order with zero at the bottom: "positive" means "not zero".
impl PartialOrd for Gf {
    fn partial_cmp(&self, o: &Gf) -> Option<Ordering> {
        (self.b, self.a).partial_cmp(&(o.b, o.a))
    }
}
impl FromPrimitive for Gf {
    fn from_i64(n: i64) -> Option<Gf> {
        Some(gf(n))
    }
    fn from_u64(n: u64) -> Option<Gf> {
        Some(mk(n % p(), 0))
    }
    fn from_f64(n: f64) -> Option<Gf> {
        (n == n.trunc()).then(|| gf(n as i64))
    }
}
impl MatrixDataType for Gf {
    fn square_root(self) -> Gf {
        if self.b == 0 {
            if let Some(r) = sqrt_base(self.a as u64) {
                return mk(r, 0);
            }
            // a = s^2 * nonresidue
            let s = sqrt_base(self.a as u64 * powm(w2(), p() - 2) % p()).expect("residue");
            return mk(0, s);
        }
        // not needed by a filter over the base field; any value makes the result visibly wrong
        self
    }
}
