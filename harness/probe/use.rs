// A program for a target without operating system and allocator: everything but the builders of boxed storage.
#![no_std]
#![no_main]
#![allow(unused_imports, dead_code, non_upper_case_globals, non_snake_case, static_mut_refs)]
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

const S: usize = 3;
const C: usize = 2;
const M: usize = 2;

pub fn linear<T: MatrixDataType>(given: T) -> T {
    use minikalman::regular::*;
    let n = given;
    let mut f = RegularKalmanBuilder::new::<S, T>(
        StateTransitionMatrixMutBuffer::from([n; S * S]),
        StateVectorBuffer::from([n; S]),
        EstimateCovarianceMatrixBuffer::from([n; S * S]),
        DirectProcessNoiseCovarianceMatrixMutBuffer::from([n; S * S]),
        PredictedStateEstimateVectorBuffer::from([n; S]),
        TemporaryStateMatrixBuffer::from([n; S * S]),
    );
    let mut c = ControlBuilder::new::<S, C, T>(
        ControlMatrixMutBuffer::from([n; S * C]),
        ControlVectorBuffer::from([n; C]),
        ControlProcessNoiseCovarianceMatrixMutBuffer::from([n; C * C]),
        TemporaryBQMatrixBuffer::from([n; S * C]),
    );
    let mut o = RegularObservationBuilder::new::<S, M, T>(
        ObservationMatrixMutBuffer::from([n; M * S]),
        MeasurementVectorBuffer::from([n; M]),
        MeasurementNoiseCovarianceMatrixBuffer::from([n; M * M]),
        InnovationVectorBuffer::from([n; M]),
        InnovationCovarianceMatrixBuffer::from([n; M * M]),
        KalmanGainMatrixBuffer::from([n; S * M]),
        TemporaryResidualCovarianceInvertedMatrixBuffer::from([n; M * M]),
        TemporaryHPMatrixBuffer::from([n; M * S]),
        TemporaryPHTMatrixBuffer::from([n; S * M]),
        TemporaryKHPMatrixBuffer::from([n; S * S]),
    );
    f.predict();
    f.predict_tuned(n);
    f.control(&mut c);
    f.correct(&mut o);
    f.state_vector().get_row(0)
}

pub fn nonlinear<T: MatrixDataType>(n: T) -> T {
    use minikalman::extended::*;
    let mut f = ExtendedKalmanBuilder::new::<S, T>(
        StateTransitionMatrixMutBuffer::from([n; S * S]),
        StateVectorBuffer::from([n; S]),
        EstimateCovarianceMatrixBuffer::from([n; S * S]),
        DirectProcessNoiseCovarianceMatrixMutBuffer::from([n; S * S]),
        PredictedStateEstimateVectorBuffer::from([n; S]),
        TemporaryStateMatrixBuffer::from([n; S * S]),
    );
    let mut o = ExtendedObservationBuilder::new::<S, M, T>(
        ObservationMatrixMutBuffer::from([n; M * S]),
        MeasurementVectorBuffer::from([n; M]),
        MeasurementNoiseCovarianceMatrixBuffer::from([n; M * M]),
        InnovationVectorBuffer::from([n; M]),
        InnovationCovarianceMatrixBuffer::from([n; M * M]),
        KalmanGainMatrixBuffer::from([n; S * M]),
        TemporaryResidualCovarianceInvertedMatrixBuffer::from([n; M * M]),
        TemporaryHPMatrixBuffer::from([n; M * S]),
        TemporaryPHTMatrixBuffer::from([n; S * M]),
        TemporaryKHPMatrixBuffer::from([n; S * S]),
    );
    f.predict_nonlinear(|x, y| y.set_row(0, x.get_row(0)));
    f.predict_tuned_nonlinear(n, |x, y| y.set_row(0, x.get_row(0)));
    f.correct_nonlinear(&mut o, |x, y| y.set_row(0, x.get_row(0)));
    f.state_vector().get_row(0)
}

// declared memory needs no scalar that calculates
pub fn declared() {
    minikalman::impl_buffer_x!(static mut buffer_x, S, i32, 0);
    minikalman::impl_buffer_A!(static mut buffer_A, S, i32, 0);
    minikalman::impl_buffer_P!(static mut buffer_P, S, i32, 0);
    minikalman::impl_buffer_Q_direct!(static mut buffer_Q, S, i32, 0);
    minikalman::impl_buffer_temp_x!(static mut buffer_tx, S, i32, 0);
    minikalman::impl_buffer_temp_P!(static mut buffer_tP, S, i32, 0);
    minikalman::impl_buffer_u!(static mut buffer_u, C, i32, 0);
    minikalman::impl_buffer_B!(static mut buffer_B, S, C, i32, 0);
    minikalman::impl_buffer_Q_control!(static mut buffer_Qc, C, i32, 0);
    minikalman::impl_buffer_temp_BQ!(static mut buffer_tBQ, S, C, i32, 0);
    minikalman::impl_buffer_z!(static mut buffer_z, M, i32, 0);
    minikalman::impl_buffer_H!(static mut buffer_H, M, S, i32, 0);
    minikalman::impl_buffer_R!(static mut buffer_R, M, i32, 0);
    minikalman::impl_buffer_y!(static mut buffer_y, M, i32, 0);
    minikalman::impl_buffer_S!(static mut buffer_S, M, i32, 0);
    minikalman::impl_buffer_K!(static mut buffer_K, S, M, i32, 0);
    minikalman::impl_buffer_temp_S_inv!(static mut buffer_tSi, M, i32, 0);
    minikalman::impl_buffer_temp_HP!(static mut buffer_tHP, M, S, i32, 0);
    minikalman::impl_buffer_temp_PHt!(static mut buffer_tPHt, S, M, i32, 0);
    minikalman::impl_buffer_temp_KHP!(static mut buffer_tKHP, S, i32, 0);
}

#[cfg(float)]
pub fn floats() -> (f32, f64) {
    (linear(1.0f32) + nonlinear(1.0f32) + 2f32.square_root() + 2f32.recip(), linear(1.0f64) + nonlinear(1.0f64))
}
#[cfg(fixed)]
pub fn fixed() -> I16F16 {
    use minikalman::prelude::{I16F16, I32F32};
    let _ = linear(I32F32::ONE);
    linear(I16F16::ONE) + nonlinear(I16F16::ONE)
}
#[cfg(owned)]
pub fn owned() {
    let b = minikalman::regular::builder::KalmanFilterBuilder::<S, f32>::default();
    let mut f = b.build();
    let mut c = b.controls().build::<C>();
    let mut o = b.observations().build::<M>();
    f.predict();
    f.control(&mut c);
    f.correct(&mut o);
    let b = minikalman::extended::builder::KalmanFilterBuilder::<S, f32>::default();
    let mut f = b.build();
    let mut o = b.observations().build::<M>();
    f.predict_nonlinear(|x, y| y.set_row(0, x.get_row(0)));
    f.correct_nonlinear(&mut o, |x, y| y.set_row(0, x.get_row(0)));
    let mut m = MatrixDataBoxed::<S, S, f32>::new([0.0; S * S]);
    m.set_all(1.0);
}
