//! Worlds on storage declared with the library's macros.
use crate::kit::Env;
use crate::obj::{Own, OwnC, OwnN, OwnO, Raw};
use crate::world::{World, W};
use crate::worlds::Inits;
use minikalman::buffers::types::*;
use minikalman::extended::*;
use minikalman::prelude::*;
use minikalman::regular::*;

/// Values the declaration macros can be given.
macro_rules! local {
    (filter $b:ident, $t:ty, $z:expr, $s:literal) => {{
        impl_buffer_A!(mut a, $s, $t, $z);
        impl_buffer_x!(mut x, $s, $t, $z);
        impl_buffer_P!(let mut p, $s, $t, $z);
        impl_buffer_Q_direct!(let mut q, $s, $t, $z);
        impl_buffer_temp_x!(mut px, $s, $t, $z);
        impl_buffer_temp_P!(let mut tp, $s, $t, $z);
        $b::new::<$s, $t>(a, x, p, q, px, tp)
    }};
    (raw $t:ty, $z:expr, $s:literal) => {{
        impl_buffer_x!(let mut x, $s, $t, $z);
        impl_buffer_P!(mut p, $s, $t, $z);
        Raw::<_, _, $s>(x, p)
    }};
    (control $t:ty, $z:expr, $s:literal $c:literal) => {{
        impl_buffer_B!(mut b, $s, $c, $t, $z);
        impl_buffer_u!(let mut u, $c, $t, $z);
        impl_buffer_Q_control!(mut q, $c, $t, $z);
        impl_buffer_temp_BQ!(let mut bq, $s, $c, $t, $z);
        ControlBuilder::new::<$s, $c, $t>(b, u, q, bq)
    }};
    (observation $b:ident, $t:ty, $z:expr, $s:literal $m:literal) => {{
        impl_buffer_H!(mut h, $m, $s, $t, $z);
        impl_buffer_z!(let mut z, $m, $t, $z);
        impl_buffer_R!(mut r, $m, $t, $z);
        impl_buffer_y!(mut y, $m, $t, $z);
        impl_buffer_S!(mut s, $m, $t, $z);
        impl_buffer_K!(let mut k, $s, $m, $t, $z);
        impl_buffer_temp_S_inv!(mut si, $m, $t, $z);
        impl_buffer_temp_HP!(mut hp, $m, $s, $t, $z);
        impl_buffer_temp_PHt!(let mut pht, $s, $m, $t, $z);
        impl_buffer_temp_KHP!(mut khp, $s, $t, $z);
        $b::new::<$s, $m, $t>(h, z, r, y, s, k, si, hp, pht, khp)
    }};
}
/// A slice of a declared static; zero again if it was used before.
macro_rules! of {
    ($b:ident, $x:ident, $z:expr) => {{
        #[allow(static_mut_refs)]
        // SAFETY: a world made from these statics is used by one thread, one at a time
        let s: &'static mut [_] = unsafe { $x.as_mut_slice() };
        for v in s.iter_mut() {
            *v = $z;
        }
        $b::from(s)
    }};
}
macro_rules! fixed {
    (filter $b:ident, $t:ty, $z:expr, $s:literal) => {{
        impl_buffer_A!(static mut A, $s, $t, $z);
        impl_buffer_x!(static mut X, $s, $t, $z);
        impl_buffer_P!(static mut P, $s, $t, $z);
        impl_buffer_Q_direct!(static mut Q, $s, $t, $z);
        impl_buffer_temp_x!(static mut PX, $s, $t, $z);
        impl_buffer_temp_P!(static mut TP, $s, $t, $z);
        $b::new::<$s, $t>(
            of!(StateTransitionMatrixMutBuffer, A, $z),
            of!(StateVectorBuffer, X, $z),
            of!(EstimateCovarianceMatrixBuffer, P, $z),
            of!(DirectProcessNoiseCovarianceMatrixMutBuffer, Q, $z),
            of!(PredictedStateEstimateVectorBuffer, PX, $z),
            of!(TemporaryStateMatrixBuffer, TP, $z),
        )
    }};
    (raw $t:ty, $z:expr, $s:literal) => {{
        impl_buffer_x!(static mut X, $s, $t, $z);
        impl_buffer_P!(static mut P, $s, $t, $z);
        Raw::<_, _, $s>(of!(StateVectorBuffer, X, $z), of!(EstimateCovarianceMatrixBuffer, P, $z))
    }};
    (control $t:ty, $z:expr, $s:literal $c:literal) => {{
        impl_buffer_B!(static mut B, $s, $c, $t, $z);
        impl_buffer_u!(static mut U, $c, $t, $z);
        impl_buffer_Q_control!(static mut Q, $c, $t, $z);
        impl_buffer_temp_BQ!(static mut BQ, $s, $c, $t, $z);
        ControlBuilder::new::<$s, $c, $t>(
            of!(ControlMatrixMutBuffer, B, $z),
            of!(ControlVectorBuffer, U, $z),
            of!(ControlProcessNoiseCovarianceMatrixMutBuffer, Q, $z),
            of!(TemporaryBQMatrixBuffer, BQ, $z),
        )
    }};
    (observation $b:ident, $t:ty, $z:expr, $s:literal $m:literal) => {{
        impl_buffer_H!(static mut H, $m, $s, $t, $z);
        impl_buffer_z!(static mut Z, $m, $t, $z);
        impl_buffer_R!(static mut R, $m, $t, $z);
        impl_buffer_y!(static mut Y, $m, $t, $z);
        impl_buffer_S!(static mut S, $m, $t, $z);
        impl_buffer_K!(static mut K, $s, $m, $t, $z);
        impl_buffer_temp_S_inv!(static mut SI, $m, $t, $z);
        impl_buffer_temp_HP!(static mut HP, $m, $s, $t, $z);
        impl_buffer_temp_PHt!(static mut PHT, $s, $m, $t, $z);
        impl_buffer_temp_KHP!(static mut KHP, $s, $t, $z);
        $b::new::<$s, $m, $t>(
            of!(ObservationMatrixMutBuffer, H, $z),
            of!(MeasurementVectorBuffer, Z, $z),
            of!(MeasurementNoiseCovarianceMatrixBuffer, R, $z),
            of!(InnovationVectorBuffer, Y, $z),
            of!(InnovationCovarianceMatrixBuffer, S, $z),
            of!(KalmanGainMatrixBuffer, K, $z),
            of!(TemporaryResidualCovarianceInvertedMatrixBuffer, SI, $z),
            of!(TemporaryHPMatrixBuffer, HP, $z),
            of!(TemporaryPHTMatrixBuffer, PHT, $z),
            of!(TemporaryKHPMatrixBuffer, KHP, $z),
        )
    }};
}
macro_rules! world {
    ($f:ident, $how:ident, $t:ty, $z:expr, $s:literal $c1:literal $c2:literal $m1:literal $m2:literal) => {
        pub fn $f(_: &mut Env<$t>, _: &Inits<$t>) -> Box<dyn World<$t>> {
            Box::new(W::<_, _, _, _, _, _, _, _, _, _, $s, $c1, $c2, $m1, $m2> {
                f1: Own($how!(filter RegularKalmanBuilder, $t, $z, $s)),
                f2: Own($how!(filter RegularKalmanBuilder, $t, $z, $s)),
                r1: $how!(raw $t, $z, $s),
                e1: Own($how!(filter ExtendedKalmanBuilder, $t, $z, $s)),
                e2: Own($how!(filter ExtendedKalmanBuilder, $t, $z, $s)),
                c1: OwnC($how!(control $t, $z, $s $c1)),
                c2: OwnC($how!(control $t, $z, $s $c2)),
                o1: OwnO($how!(observation RegularObservationBuilder, $t, $z, $s $m1)),
                o2: OwnO($how!(observation RegularObservationBuilder, $t, $z, $s $m2)),
                n1: OwnN($how!(observation ExtendedObservationBuilder, $t, $z, $s $m1)),
                n2: OwnN($how!(observation ExtendedObservationBuilder, $t, $z, $s $m2)),
            })
        }
    };
}
pub mod gf {
    use super::*;
    use crate::gf::Gf;
    const NIL: Gf = Gf { a: 0, b: 0 };
    world!(let21321, local, Gf, NIL, 2 1 3 2 1);
    world!(static21321, fixed, Gf, NIL, 2 1 3 2 1);
    world!(let32143, local, Gf, NIL, 3 2 1 4 3);
    world!(static32143, fixed, Gf, NIL, 3 2 1 4 3);
    world!(let43516, local, Gf, NIL, 4 3 5 1 6);
    world!(static43516, fixed, Gf, NIL, 4 3 5 1 6);
    world!(let12131, local, Gf, NIL, 1 2 1 3 1);
    world!(static12131, fixed, Gf, NIL, 1 2 1 3 1);
}
#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
pub mod f64s {
    use super::*;
    world!(let21321, local, f64, 0.0, 2 1 3 2 1);
    world!(static21321, fixed, f64, 0.0, 2 1 3 2 1);
    world!(let32143, local, f64, 0.0, 3 2 1 4 3);
    world!(static32143, fixed, f64, 0.0, 3 2 1 4 3);
}
#[cfg(feature = "fixed")]
pub mod i16f16 {
    use super::*;
    use minikalman::prelude::I16F16;
    world!(let31224, local, I16F16, I16F16::ZERO, 3 1 2 2 4);
    world!(static31224, fixed, I16F16, I16F16::ZERO, 3 1 2 2 4);
}
