//! The scalar types the harness runs filters with.
use crate::gf::{gf, p, Gf};
use crate::rng::Rng;
use minikalman::matrix::MatrixDataType;

/// Settings of the specification for a scalar type (see KalmanTrace.tla).
#[derive(Clone)]
pub struct Tol {
    pub rel: String,
    pub crel: String,
    pub prec: String,
    pub floor: String,
    pub kmax: String,
}

pub trait Sc: MatrixDataType + Copy + Default + 'static {
    const NAME: &'static str;
    /// Arithmetic is exact, and any value will do for any purpose.
    const EXACT: bool;
    /// Problems may be scaled by powers of two up to this (0: not at all).
    const SCALE: i64;
    fn js(self) -> String;
    fn same(self, o: Self) -> bool;
    /// m * 2^e, which is representable (in the field: m alone).
    fn dy(m: i64, e: i32) -> Self;
    /// A value in [-1, 1] using all of the type's precision.
    fn full(r: &mut Rng) -> Self;
    /// Something a working buffer should never leak into a result.
    fn poison(r: &mut Rng) -> Self;
    fn tol() -> Tol;
    /// Tolerance for the same computation done twice.
    fn twin() -> String;
    /// Tolerance for different computations of the same estimate.
    fn order() -> String;
}

/// 2^k; the variable KH_SHIFT makes all tolerances smaller, to see how much room there is.
fn pow2(k: i32) -> String {
    let s: i32 = std::env::var("KH_SHIFT").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    format!("1p{}", if k < 0 { k - s } else { k })
}
pub fn dyadic(m: u64, e: i32, neg: bool) -> String {
    format!("\"{}{}p{}\"", if neg && m != 0 { "-" } else { "" }, m, if m == 0 { 0 } else { e })
}

impl Sc for Gf {
    const NAME: &'static str = "gf";
    const EXACT: bool = true;
    const SCALE: i64 = 0;
    fn js(self) -> String {
        self.code().to_string()
    }
    fn same(self, o: Self) -> bool {
        self == o
    }
    fn dy(m: i64, _e: i32) -> Self {
        gf(m)
    }
    fn full(r: &mut Rng) -> Self {
        gf(r.below(p()) as i64)
    }
    fn poison(r: &mut Rng) -> Self {
        gf(r.below(p()) as i64)
    }
    fn tol() -> Tol {
        Tol { rel: "0".into(), crel: "0".into(), prec: "0".into(), floor: "0".into(), kmax: "0".into() }
    }
    fn twin() -> String {
        "0".into()
    }
    fn order() -> String {
        "0".into()
    }
}

macro_rules! float {
    ($t:ident, $u:ident, $man:expr, $ebits:expr, $rel:expr, $kmax:expr, $scale:expr) => {
        impl Sc for $t {
            const NAME: &'static str = stringify!($t);
            const EXACT: bool = false;
            const SCALE: i64 = $scale;
            fn js(self) -> String {
                if !self.is_finite() {
                    return if self.is_nan() { "\"nan\"" } else if self > 0.0 { "\"inf\"" } else { "\"-inf\"" }.into();
                }
                let b = self.to_bits();
                let neg = b >> ($man + $ebits) != 0;
                let e = ((b >> $man) & ((1 << $ebits) - 1)) as i32;
                let f = (b & ((1 << $man) - 1)) as u64;
                let bias = (1 << ($ebits - 1)) - 1 + $man;
                let (mut m, mut e) = if e == 0 { (f, 1 - bias) } else { (f | (1 << $man), e - bias) };
                while m != 0 && m % 2 == 0 {
                    m /= 2;
                    e += 1;
                }
                dyadic(m, e, neg)
            }
            fn same(self, o: Self) -> bool {
                self.to_bits() == o.to_bits() || (self == 0.0 && o == 0.0)
            }
            fn dy(m: i64, e: i32) -> Self {
                let mut v = m as f64;
                let mut e = e;
                while e > 0 {
                    v *= 2.0;
                    e -= 1;
                }
                while e < 0 {
                    v /= 2.0;
                    e += 1;
                }
                v as $t
            }
            fn full(r: &mut Rng) -> Self {
                (r.below(1 << ($man + 1)) as i64 - (1i64 << $man)) as $t / (1u64 << $man) as $t
            }
            fn poison(r: &mut Rng) -> Self {
                // finite, so that 0 * stale would not hide in a NaN, or not a number at all
                match r.below(4) {
                    0 => $t::NAN,
                    1 => $t::INFINITY,
                    _ => Self::full(r) * 1024.0,
                }
            }
            fn tol() -> Tol {
                Tol { rel: pow2($rel), crel: pow2($rel), prec: pow2($rel - 5), floor: "0".into(), kmax: pow2($kmax) }
            }
            fn twin() -> String {
                pow2($rel)
            }
            fn order() -> String {
                pow2($rel + 5)
            }
        }
    };
}
#[cfg(all(feature = "micromath", not(any(feature = "std", feature = "libm"))))]
float!(f32, u32, 23, 8, -2, 6, 20);
#[cfg(all(feature = "micromath", not(any(feature = "std", feature = "libm"))))]
float!(f64, u64, 52, 11, -2, 6, 20);
#[cfg(any(feature = "std", feature = "libm"))]
float!(f32, u32, 23, 8, -16, 10, 28);
#[cfg(any(feature = "std", feature = "libm"))]
float!(f64, u64, 52, 11, -44, 20, 200);

#[cfg(feature = "fixed")]
macro_rules! fixed {
    ($t:ty, $name:expr, $frac:expr, $rel:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $name;
            const EXACT: bool = false;
            const SCALE: i64 = 0;
            fn js(self) -> String {
                let b = self.to_bits() as i64;
                dyadic(b.unsigned_abs(), -$frac, b < 0)
            }
            fn same(self, o: Self) -> bool {
                self == o
            }
            fn dy(m: i64, e: i32) -> Self {
                let s = e + $frac;
                Self::from_bits((if s >= 0 { m << s } else { m >> -s }) as _)
            }
            fn full(r: &mut Rng) -> Self {
                Self::from_bits((r.below(1 << ($frac + 1)) as i64 - (1i64 << $frac)) as _)
            }
            fn poison(r: &mut Rng) -> Self {
                // finite and small enough not to overflow in an innocent operation
                Self::full(r) * Self::from_num(4)
            }
            fn tol() -> Tol {
                Tol { rel: pow2($rel), crel: pow2($rel), prec: pow2($rel - 5), floor: "1".into(), kmax: pow2(9) }
            }
            fn twin() -> String {
                pow2($rel)
            }
            fn order() -> String {
                pow2($rel + 5)
            }
        }
    };
}
#[cfg(feature = "fixed")]
fixed!(minikalman::prelude::I16F16, "i16f16", 16, -11);
#[cfg(feature = "fixed")]
fixed!(minikalman::prelude::I32F32, "i32f32", 32, -26);
