//! The library's filters, controls and observations behind the operations of the specification.
use crate::gen::{CInit, FInit, OInit};
use crate::kit::{Env, Kit, Store};
use crate::scalar::Sc;
use minikalman::buffers::types::*;
use minikalman::extended::*;
use minikalman::prelude::*;
use minikalman::regular::*;

pub type Bufs<T> = Vec<(&'static str, Vec<T>)>;

fn sl<const R: usize, const C: usize, T: Sc, M: RowMajorSequentialData<R, C, T>>(m: &M) -> Vec<T> {
    m.as_slice().to_vec()
}
fn ms<const R: usize, const C: usize, T, M: RowMajorSequentialDataMut<R, C, T>>(m: &mut M) -> &mut [T] {
    m.as_mut_slice()
}

/// Anything whose buffers the user can see.
pub trait Obj<T> {
    fn bufs(&self) -> Bufs<T>;
    /// The storage of a buffer the user may write.
    fn slot(&mut self, b: &str) -> Option<&mut [T]>;
    /// (states, inputs or measurements) as reported
    fn dims(&self) -> (usize, usize);
    /// The buffers as seen through the library's traits, where `bufs` uses inherent methods.
    fn alt(&self) -> Bufs<T> {
        vec![]
    }
    fn alt_slot(&mut self, _: &str) -> Option<&mut [T]> {
        None
    }
}
pub trait Filt<T: Sc, const S: usize>: Obj<T> {
    fn has(&self, op: &str) -> bool;
    fn predict(&mut self);
    fn tuned(&mut self, lam: T);
    fn control<I: KalmanFilterControlApplyToFilter<S, T>>(&mut self, c: &mut I);
    fn correct<O: KalmanFilterObservationCorrectFilter<S, T>>(&mut self, o: &mut O);
    fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut self, o: &mut O, h: &mut dyn FnMut(&[T], &mut [T]));
}
pub trait EFilt<T: Sc, const S: usize>: Obj<T> {
    fn has(&self, op: &str) -> bool;
    fn npredict(&mut self, f: &mut dyn FnMut(&[T], &mut [T]));
    fn ntuned(&mut self, lam: T, f: &mut dyn FnMut(&[T], &mut [T]));
    fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut self, o: &mut O, h: &mut dyn FnMut(&[T], &mut [T]));
}

fn as_sl<const N: usize, T, X: StateVector<N, T>>(x: &X) -> &[T] {
    RowMajorSequentialData::<N, 1, T>::as_slice(x)
}
fn as_ms<const N: usize, T, X: AsMatrixMut<N, 1, T>>(x: &mut X) -> &mut [T] {
    RowMajorSequentialDataMut::<N, 1, T>::as_mut_slice(x.as_matrix_mut())
}

macro_rules! filter_obj {
    ($name:ident, $wrap:ident, $get_a:ident, $get_a_mut:ident, $tra:ident, $tram:ident, $qa:expr, $qs:expr) => {
        impl<const S: usize, T: Sc, A, X, P, Q, PX, TP> Obj<T> for $name<S, T, A, X, P, Q, PX, TP>
        where
            X: StateVectorMut<S, T>,
            A: StateTransitionMatrixMut<S, T>,
            PX: PredictedStateEstimateVector<S, T>,
            P: EstimateCovarianceMatrix<S, T>,
            Q: DirectProcessNoiseCovarianceMatrixMut<S, T>,
            TP: TemporaryStateMatrix<S, T>,
        {
            fn bufs(&self) -> Bufs<T> {
                vec![
                    ("x", sl(self.state_vector())),
                    ("A", sl(self.$get_a())),
                    ("P", sl(self.estimate_covariance())),
                    ("Q", sl(self.direct_process_noise())),
                ]
            }
            fn slot(&mut self, b: &str) -> Option<&mut [T]> {
                Some(match b {
                    "x" => ms(self.state_vector_mut()),
                    "A" => ms(self.$get_a_mut()),
                    "P" => ms(self.estimate_covariance_mut()),
                    "Q" => ms(self.direct_process_noise_mut()),
                    _ => return None,
                })
            }
            fn dims(&self) -> (usize, usize) {
                (self.states(), 0)
            }
            #[allow(clippy::redundant_closure_call)]
            fn alt(&self) -> Bufs<T> {
                let mut v = vec![
                    ("x", as_sl(KalmanFilterStateVector::state_vector(self)).to_vec()),
                    ("A", sl($tra::$get_a(self))),
                    ("P", sl(KalmanFilterEstimateCovariance::estimate_covariance(self))),
                ];
                v.extend($qa(self));
                v
            }
            #[allow(clippy::redundant_closure_call)]
            fn alt_slot(&mut self, b: &str) -> Option<&mut [T]> {
                Some(match b {
                    "x" => as_ms(KalmanFilterStateVectorMut::state_vector_mut(self)),
                    "A" => ms($tram::$get_a_mut(self)),
                    "P" => ms(KalmanFilterEstimateCovarianceMut::estimate_covariance_mut(self)),
                    "Q" => return $qs(self),
                    _ => return None,
                })
            }
        }
        /// The same with a transition and process noise that cannot be written.
        pub struct $wrap<F>(pub F);
        impl<const S: usize, T: Sc, A, X, P, Q, PX, TP> Obj<T> for $wrap<$name<S, T, A, X, P, Q, PX, TP>>
        where
            X: StateVectorMut<S, T>,
            A: StateTransitionMatrix<S, T>,
            PX: PredictedStateEstimateVector<S, T>,
            P: EstimateCovarianceMatrix<S, T>,
            Q: DirectProcessNoiseCovarianceMatrix<S, T>,
            TP: TemporaryStateMatrix<S, T>,
        {
            fn bufs(&self) -> Bufs<T> {
                vec![
                    ("x", sl(self.0.state_vector())),
                    ("A", sl(self.0.$get_a())),
                    ("P", sl(self.0.estimate_covariance())),
                    ("Q", sl(self.0.direct_process_noise())),
                ]
            }
            fn slot(&mut self, b: &str) -> Option<&mut [T]> {
                Some(match b {
                    "x" => ms(self.0.state_vector_mut()),
                    "P" => ms(self.0.estimate_covariance_mut()),
                    _ => return None,
                })
            }
            fn dims(&self) -> (usize, usize) {
                (self.0.states(), 0)
            }
        }
    };
}
filter_obj!(RegularKalman, RoReg, state_transition, state_transition_mut, KalmanFilterStateTransition, KalmanFilterStateTransitionMut, |_| None, |_| None);
fn ext_q<const S: usize, T: Sc, F: KalmanFilterDirectProcessNoiseCovariance<S, T>>(f: &F) -> Option<(&'static str, Vec<T>)> {
    Some(("Q", sl(f.direct_process_noise())))
}
fn ext_qs<const S: usize, T: Sc, F: KalmanFilterDirectProcessNoiseMut<S, T>>(f: &mut F) -> Option<&mut [T]> {
    Some(ms(f.direct_process_noise_mut()))
}
filter_obj!(
    ExtendedKalman, RoExt, state_transition_jacobian, state_transition_jacobian_mut, ExtendedKalmanFilterStateTransition,
    ExtendedKalmanFilterStateTransitionMut, ext_q, ext_qs
);

macro_rules! reg_filt {
    ($ty:ty, $a:ident, $q:ident, $s:ident $(. $f:tt)?) => {
        impl<const S: usize, T: Sc, A, X, P, Q, PX, TP> Filt<T, S> for $ty
        where
            X: StateVectorMut<S, T>,
            A: $a<S, T>,
            PX: PredictedStateEstimateVector<S, T>,
            P: EstimateCovarianceMatrix<S, T>,
            Q: $q<S, T>,
            TP: TemporaryStateMatrix<S, T>,
        {
            fn has(&self, op: &str) -> bool {
                op != "ncorrect"
            }
            fn predict(&mut $s) {
                $s$(.$f)?.predict()
            }
            fn tuned(&mut $s, lam: T) {
                $s$(.$f)?.predict_tuned(lam)
            }
            fn control<I: KalmanFilterControlApplyToFilter<S, T>>(&mut $s, c: &mut I) {
                $s$(.$f)?.control(c)
            }
            fn correct<O: KalmanFilterObservationCorrectFilter<S, T>>(&mut $s, o: &mut O) {
                $s$(.$f)?.correct(o)
            }
            fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut $s, _: &mut O, _: &mut dyn FnMut(&[T], &mut [T])) {
                unreachable!()
            }
        }
    };
}
reg_filt!(RoReg<RegularKalman<S, T, A, X, P, Q, PX, TP>>, StateTransitionMatrix, DirectProcessNoiseCovarianceMatrix, self.0);

/// Operations through the concrete types' own methods.
pub struct Own<F>(pub F);
impl<T, F: Obj<T>> Obj<T> for Own<F> {
    fn bufs(&self) -> Bufs<T> {
        self.0.bufs()
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        self.0.slot(b)
    }
    fn dims(&self) -> (usize, usize) {
        self.0.dims()
    }
    fn alt(&self) -> Bufs<T> {
        self.0.alt()
    }
    fn alt_slot(&mut self, b: &str) -> Option<&mut [T]> {
        self.0.alt_slot(b)
    }
}
reg_filt!(Own<RegularKalman<S, T, A, X, P, Q, PX, TP>>, StateTransitionMatrixMut, DirectProcessNoiseCovarianceMatrixMut, self.0);

macro_rules! ext_filt {
    ($ty:ty, $a:ident, $q:ident) => {
        impl<const S: usize, T: Sc, A, X, P, Q, PX, TP> EFilt<T, S> for $ty
        where
            X: StateVectorMut<S, T>,
            A: $a<S, T>,
            PX: PredictedStateEstimateVector<S, T>,
            P: EstimateCovarianceMatrix<S, T>,
            Q: $q<S, T>,
            TP: TemporaryStateMatrix<S, T>,
        {
            fn has(&self, _: &str) -> bool {
                true
            }
            fn npredict(&mut self, f: &mut dyn FnMut(&[T], &mut [T])) {
                self.0.predict_nonlinear(|x, n| f(as_sl(x), as_ms(n)))
            }
            fn ntuned(&mut self, lam: T, f: &mut dyn FnMut(&[T], &mut [T])) {
                self.0.predict_tuned_nonlinear(lam, |x, n| f(as_sl(x), as_ms(n)))
            }
            fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut self, o: &mut O, h: &mut dyn FnMut(&[T], &mut [T])) {
                self.0.correct_nonlinear(o, |x, y| h(as_sl(x), as_ms(y)))
            }
        }
    };
}
ext_filt!(Own<ExtendedKalman<S, T, A, X, P, Q, PX, TP>>, StateTransitionMatrixMut, DirectProcessNoiseCovarianceMatrixMut);
ext_filt!(RoExt<ExtendedKalman<S, T, A, X, P, Q, PX, TP>>, StateTransitionMatrix, DirectProcessNoiseCovarianceMatrix);

/// Operations and accessors through the library's generic traits.
pub struct Gen<F, const S: usize>(pub F);
impl<T: Sc, const S: usize, F> Obj<T> for Gen<Own<F>, S>
where
    F: KalmanFilterNumStates<S>,
    Own<F>: Obj<T>,
{
    fn bufs(&self) -> Bufs<T> {
        self.0.bufs()
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        if self.0.alt_slot(b).is_some() {
            self.0.alt_slot(b)
        } else {
            self.0.slot(b)
        }
    }
    fn alt(&self) -> Bufs<T> {
        self.0.alt()
    }
    fn dims(&self) -> (usize, usize) {
        let n = KalmanFilterNumStates::states(&self.0 .0);
        (if <F as KalmanFilterNumStates<S>>::NUM_STATES == n { n } else { usize::MAX >> 40 }, 0)
    }
}
impl<T: Sc, const S: usize, F: KalmanFilter<S, T>> Filt<T, S> for Gen<Own<F>, S>
where
    Own<F>: Filt<T, S>,
{
    fn has(&self, op: &str) -> bool {
        op != "ncorrect"
    }
    fn predict(&mut self) {
        KalmanFilterPredict::predict(&mut self.0 .0)
    }
    fn tuned(&mut self, lam: T) {
        self.0.tuned(lam)
    }
    fn control<I: KalmanFilterControlApplyToFilter<S, T>>(&mut self, c: &mut I) {
        KalmanFilterApplyControl::control(&mut self.0 .0, c)
    }
    fn correct<O: KalmanFilterObservationCorrectFilter<S, T>>(&mut self, o: &mut O) {
        KalmanFilterUpdate::correct(&mut self.0 .0, o)
    }
    fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut self, _: &mut O, _: &mut dyn FnMut(&[T], &mut [T])) {
        unreachable!()
    }
}
impl<T: Sc, const S: usize, F: ExtendedKalmanFilter<S, T>> EFilt<T, S> for Gen<Own<F>, S>
where
    Own<F>: EFilt<T, S>,
{
    fn has(&self, _: &str) -> bool {
        true
    }
    fn npredict(&mut self, f: &mut dyn FnMut(&[T], &mut [T])) {
        KalmanFilterNonlinearPredict::predict_nonlinear(&mut self.0 .0, |x, n| f(as_sl(x), as_ms(n)))
    }
    fn ntuned(&mut self, lam: T, f: &mut dyn FnMut(&[T], &mut [T])) {
        self.0.ntuned(lam, f)
    }
    fn ncorrect<const M: usize, O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>>(&mut self, o: &mut O, h: &mut dyn FnMut(&[T], &mut [T])) {
        KalmanFilterNonlinearUpdate::correct_nonlinear(&mut self.0 .0, o, |x, y| h(as_sl(x), as_ms(y)))
    }
}

/// An estimate that the user keeps without any filter.
pub struct Raw<X, P, const S: usize>(pub X, pub P);
impl<T: Sc, const S: usize, X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>> Obj<T> for Raw<X, P, S> {
    fn bufs(&self) -> Bufs<T> {
        vec![("x", sl(&self.0)), ("P", sl(&self.1))]
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        match b {
            "x" => Some(ms(&mut self.0)),
            "P" => Some(ms(&mut self.1)),
            _ => None,
        }
    }
    fn dims(&self) -> (usize, usize) {
        (S, 0)
    }
}
// ---------------------------------------------------------------------------------------------

pub trait Ctl<T: Sc, const S: usize>: Obj<T> {
    type C: KalmanFilterControlApplyToFilter<S, T>;
    fn it(&mut self) -> &mut Self::C;
    /// Applies it to an estimate outside of any filter.
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P);
}
pub trait Obs<T: Sc, const S: usize>: Obj<T> {
    type O: KalmanFilterObservationCorrectFilter<S, T>;
    fn it(&mut self) -> &mut Self::O;
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P);
}
pub trait NObs<T: Sc, const S: usize, const M: usize>: Obj<T> {
    type O: KalmanFilterNonlinearObservationCorrectFilter<S, M, T>;
    fn it(&mut self) -> &mut Self::O;
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P, h: &mut dyn FnMut(&[T], &mut [T]));
}

macro_rules! ctl_obj {
    ($w:ident, $b:ident, $u:ident, $q:ident, $slot:expr) => {
        pub struct $w<C>(pub C);
        impl<const S: usize, const N: usize, T: Sc, B, U, Q, TB> Obj<T> for $w<Control<S, N, T, B, U, Q, TB>>
        where
            U: $u<N, T>,
            B: $b<S, N, T>,
            Q: $q<N, T>,
            TB: TemporaryBQMatrix<S, N, T>,
        {
            fn bufs(&self) -> Bufs<T> {
                vec![("B", sl(self.0.control_matrix())), ("u", sl(self.0.control_vector())), ("Q", sl(self.0.process_noise_covariance()))]
            }
            #[allow(clippy::redundant_closure_call)]
            fn slot(&mut self, b: &str) -> Option<&mut [T]> {
                $slot(&mut self.0, b)
            }
            fn dims(&self) -> (usize, usize) {
                (self.0.states(), self.0.controls())
            }
        }
        impl<const S: usize, const N: usize, T: Sc, B, U, Q, TB> Ctl<T, S> for $w<Control<S, N, T, B, U, Q, TB>>
        where
            U: $u<N, T>,
            B: $b<S, N, T>,
            Q: $q<N, T>,
            TB: TemporaryBQMatrix<S, N, T>,
        {
            type C = Control<S, N, T, B, U, Q, TB>;
            fn it(&mut self) -> &mut Self::C {
                &mut self.0
            }
            fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P) {
                self.0.apply_control(x, p)
            }
        }
    };
}
fn ctl_slot<'a, const S: usize, const N: usize, T: Sc, B, U, Q, TB>(c: &'a mut Control<S, N, T, B, U, Q, TB>, b: &str) -> Option<&'a mut [T]>
where
    U: ControlVectorMut<N, T>,
    B: ControlMatrixMut<S, N, T>,
    Q: ControlProcessNoiseCovarianceMatrixMut<N, T>,
{
    Some(match b {
        "B" => ms(c.control_matrix_mut()),
        "u" => ms(c.control_vector_mut()),
        "Q" => ms(c.process_noise_covariance_mut()),
        _ => return None,
    })
}
fn ctl_ro_slot<'a, const S: usize, const N: usize, T: Sc, B, U, Q, TB>(c: &'a mut Control<S, N, T, B, U, Q, TB>, b: &str) -> Option<&'a mut [T]>
where
    U: ControlVectorMut<N, T>,
{
    (b == "u").then(|| ms(c.control_vector_mut()))
}
ctl_obj!(OwnC, ControlMatrixMut, ControlVectorMut, ControlProcessNoiseCovarianceMatrixMut, ctl_slot);
ctl_obj!(RoC, ControlMatrix, ControlVectorMut, ControlProcessNoiseCovarianceMatrix, ctl_ro_slot);

fn tb_ctl<const S: usize, const N: usize, T: Sc, C: KalmanFilterControl<S, N, T>>(c: &C) -> Bufs<T> {
    vec![
        ("B", sl(KalmanFilterControlTransition::control_matrix(c))),
        ("u", sl(KalmanFilterControlVector::control_vector(c))),
        ("Q", sl(KalmanFilterControlProcessNoiseCovariance::process_noise_covariance(c))),
    ]
}
fn ts_ctl<'a, const S: usize, const N: usize, T: Sc, C>(c: &'a mut C, b: &str) -> Option<&'a mut [T]>
where
    C: KalmanFilterControl<S, N, T> + KalmanFilterControlTransitionMut<S, N, T>,
{
    Some(match b {
        "B" => ms(KalmanFilterControlTransitionMut::control_matrix_mut(c)),
        "u" => ms(KalmanFilterControlVectorMut::control_vector_mut(c)),
        "Q" => ms(KalmanFilterControlProcessNoiseMut::process_noise_covariance_mut(c)),
        _ => return None,
    })
}
/// Accessors through the umbrella trait.
pub struct GenC<C, const S: usize, const N: usize>(pub C);
impl<T: Sc, const S: usize, const N: usize, C> Obj<T> for GenC<OwnC<C>, S, N>
where
    C: KalmanFilterControl<S, N, T> + KalmanFilterControlTransitionMut<S, N, T>,
    OwnC<C>: Obj<T>,
{
    fn bufs(&self) -> Bufs<T> {
        self.0.bufs()
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        ts_ctl(&mut self.0 .0, b)
    }
    fn alt(&self) -> Bufs<T> {
        tb_ctl(&self.0 .0)
    }
    fn dims(&self) -> (usize, usize) {
        let n = KalmanFilterNumControls::<N>::controls(&self.0 .0);
        (KalmanFilterNumStates::<S>::states(&self.0 .0), if <C as KalmanFilterNumControls<N>>::NUM_CONTROLS == n { n } else { usize::MAX >> 40 })
    }
}
impl<T: Sc, const S: usize, const N: usize, C> Ctl<T, S> for GenC<OwnC<C>, S, N>
where
    C: KalmanFilterControl<S, N, T> + KalmanFilterControlTransitionMut<S, N, T> + KalmanFilterControlApplyToFilter<S, T>,
    OwnC<C>: Obj<T>,
{
    type C = C;
    fn it(&mut self) -> &mut C {
        &mut self.0 .0
    }
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P) {
        KalmanFilterControlApplyToFilter::apply_to(&mut self.0 .0, x, p)
    }
}

macro_rules! obs_obj {
    ($name:ident, $own:ident, $ro:ident, $tr:ident, $geth:ident, $gethm:ident, $($it:tt)*) => {
        obs_obj!(@one $name, $own, ObservationMatrixMut, $tr, $geth, [$($it)*], |c: &'a mut _, b: &str| Some(match b {
            "H" => ms($name::$gethm(c)),
            "z" => ms($name::measurement_vector_mut(c)),
            "R" => ms($name::measurement_noise_covariance_mut(c)),
            _ => return None,
        }));
        obs_obj!(@one $name, $ro, ObservationMatrix, $tr, $geth, [$($it)*], |c: &'a mut _, b: &str| Some(match b {
            "z" => ms($name::measurement_vector_mut(c)),
            "R" => ms($name::measurement_noise_covariance_mut(c)),
            _ => return None,
        }));
    };
    (@direct Obs, $s:ident) => {
        fn direct<X: StateVectorMut<$s, T>, PP: EstimateCovarianceMatrix<$s, T>>(&mut self, x: &mut X, p: &mut PP) {
            self.0.correct(x, p)
        }
    };
    (@direct NObs, $s:ident) => {
        fn direct<X: StateVectorMut<$s, T>, PP: EstimateCovarianceMatrix<$s, T>>(&mut self, x: &mut X, p: &mut PP, h: &mut dyn FnMut(&[T], &mut [T])) {
            self.0.correct_nonlinear(x, p, |x, y| h(as_sl(x), as_ms(y)))
        }
    };
    (@one $name:ident, $w:ident, $hm:ident, $tr:ident, $geth:ident, [$($it:tt)*], |$c:ident: $ct:ty, $b:ident: $bt:ty| $slot:expr) => {
        pub struct $w<O>(pub O);
        impl<const S: usize, const N: usize, T: Sc, H, Z, R, Y, SS, K, TI, THP, TPH, TK> Obj<T> for $w<$name<S, N, T, H, Z, R, Y, SS, K, TI, THP, TPH, TK>>
        where
            H: $hm<N, S, T>,
            Z: MeasurementVectorMut<N, T>,
            R: MeasurementNoiseCovarianceMatrix<N, T>,
        {
            fn bufs(&self) -> Bufs<T> {
                vec![("H", sl(self.0.$geth())), ("z", sl(self.0.measurement_vector())), ("R", sl(self.0.measurement_noise_covariance()))]
            }
            fn slot(&mut self, $b: &str) -> Option<&mut [T]> {
                let $c = &mut self.0;
                $slot
            }
            fn dims(&self) -> (usize, usize) {
                (self.0.states(), self.0.measurements())
            }
        }
        impl<const S: usize, const N: usize, T: Sc, H, Z, R, Y, SS, K, TI, THP, TPH, TK> $tr<T, S $($it)*> for $w<$name<S, N, T, H, Z, R, Y, SS, K, TI, THP, TPH, TK>>
        where
            H: $hm<N, S, T>,
            Z: MeasurementVectorMut<N, T>,
            R: MeasurementNoiseCovarianceMatrix<N, T>,
            Y: InnovationVector<N, T>,
            SS: InnovationCovarianceMatrix<N, T>,
            K: KalmanGainMatrix<S, N, T>,
            TI: TemporaryResidualCovarianceInvertedMatrix<N, T>,
            THP: TemporaryHPMatrix<N, S, T>,
            TPH: TemporaryPHTMatrix<S, N, T>,
            TK: TemporaryKHPMatrix<S, T>,
        {
            type O = $name<S, N, T, H, Z, R, Y, SS, K, TI, THP, TPH, TK>;
            fn it(&mut self) -> &mut Self::O {
                &mut self.0
            }
            obs_obj!(@direct $tr, S);
        }
    };
}
obs_obj!(RegularObservation, OwnO, RoO, Obs, observation_matrix, observation_matrix_mut,);
obs_obj!(ExtendedObservation, OwnN, RoN, NObs, observation_jacobian_matrix, observation_jacobian_matrix_mut, , N);

fn tb_obs<const S: usize, const N: usize, T: Sc, C: KalmanFilterObservation<S, N, T>>(c: &C) -> Bufs<T> {
    vec![
        ("H", sl(KalmanFilterObservationTransformation::observation_matrix(c))),
        ("z", sl(KalmanFilterMeasurementVector::measurement_vector(c))),
        ("R", sl(KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(c))),
    ]
}
fn ts_obs<'a, const S: usize, const N: usize, T: Sc, C>(c: &'a mut C, b: &str) -> Option<&'a mut [T]>
where
    C: KalmanFilterObservation<S, N, T> + KalmanFilterObservationTransformationMut<S, N, T>,
{
    Some(match b {
        "H" => ms(KalmanFilterObservationTransformationMut::observation_matrix_mut(c)),
        "z" => ms(KalmanFilterObservationVectorMut::measurement_vector_mut(c)),
        "R" => ms(KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(c)),
        _ => return None,
    })
}
pub struct GenO<C, const S: usize, const N: usize>(pub C);
impl<T: Sc, const S: usize, const N: usize, C> Obj<T> for GenO<OwnO<C>, S, N>
where
    C: KalmanFilterObservation<S, N, T> + KalmanFilterObservationTransformationMut<S, N, T>,
    OwnO<C>: Obj<T>,
{
    fn bufs(&self) -> Bufs<T> {
        self.0.bufs()
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        ts_obs(&mut self.0 .0, b)
    }
    fn alt(&self) -> Bufs<T> {
        tb_obs(&self.0 .0)
    }
    fn dims(&self) -> (usize, usize) {
        let n = KalmanFilterNumObservations::<N>::observations(&self.0 .0);
        (
            KalmanFilterNumStates::<S>::states(&self.0 .0),
            if <C as KalmanFilterNumObservations<N>>::NUM_OBSERVATIONS == n { n } else { usize::MAX >> 40 },
        )
    }
}
impl<T: Sc, const S: usize, const N: usize, C> Obs<T, S> for GenO<OwnO<C>, S, N>
where
    C: KalmanFilterObservation<S, N, T> + KalmanFilterObservationTransformationMut<S, N, T>,
    OwnO<C>: Obj<T>,
{
    type O = C;
    fn it(&mut self) -> &mut C {
        &mut self.0 .0
    }
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P) {
        KalmanFilterObservationCorrectFilter::correct(&mut self.0 .0, x, p)
    }
}
fn tb_nobs<const S: usize, const N: usize, T: Sc, C: ExtendedKalmanFilterObservation<S, N, T>>(c: &C) -> Bufs<T> {
    vec![
        ("H", sl(ExtendedKalmanFilterObservationTransformation::observation_jacobian_matrix(c))),
        ("z", sl(KalmanFilterMeasurementVector::measurement_vector(c))),
        ("R", sl(KalmanFilterMeasurementNoiseCovariance::measurement_noise_covariance(c))),
    ]
}
fn ts_nobs<'a, const S: usize, const N: usize, T: Sc, C>(c: &'a mut C, b: &str) -> Option<&'a mut [T]>
where
    C: ExtendedKalmanFilterObservation<S, N, T> + ExtendedKalmanFilterObservationTransformationMut<S, N, T>,
{
    Some(match b {
        "H" => ms(ExtendedKalmanFilterObservationTransformationMut::observation_jacobian_matrix_mut(c)),
        "z" => ms(KalmanFilterObservationVectorMut::measurement_vector_mut(c)),
        "R" => ms(KalmanFilterMeasurementNoiseCovarianceMut::measurement_noise_covariance_mut(c)),
        _ => return None,
    })
}
pub struct GenN<C, const S: usize, const N: usize>(pub C);
impl<T: Sc, const S: usize, const N: usize, C> Obj<T> for GenN<OwnN<C>, S, N>
where
    C: ExtendedKalmanFilterObservation<S, N, T> + ExtendedKalmanFilterObservationTransformationMut<S, N, T>,
    OwnN<C>: Obj<T>,
{
    fn bufs(&self) -> Bufs<T> {
        self.0.bufs()
    }
    fn slot(&mut self, b: &str) -> Option<&mut [T]> {
        ts_nobs(&mut self.0 .0, b)
    }
    fn alt(&self) -> Bufs<T> {
        tb_nobs(&self.0 .0)
    }
    fn dims(&self) -> (usize, usize) {
        let n = KalmanFilterNumObservations::<N>::observations(&self.0 .0);
        (
            KalmanFilterNumStates::<S>::states(&self.0 .0),
            if <C as KalmanFilterNumObservations<N>>::NUM_OBSERVATIONS == n { n } else { usize::MAX >> 40 },
        )
    }
}
impl<T: Sc, const S: usize, const N: usize, C> NObs<T, S, N> for GenN<OwnN<C>, S, N>
where
    C: ExtendedKalmanFilterObservation<S, N, T> + ExtendedKalmanFilterObservationTransformationMut<S, N, T>,
    OwnN<C>: Obj<T>,
{
    type O = C;
    fn it(&mut self) -> &mut C {
        &mut self.0 .0
    }
    fn direct<X: StateVectorMut<S, T>, P: EstimateCovarianceMatrix<S, T>>(&mut self, x: &mut X, p: &mut P, h: &mut dyn FnMut(&[T], &mut [T])) {
        KalmanFilterNonlinearObservationCorrectFilter::correct_nonlinear(&mut self.0 .0, x, p, |x, y| h(as_sl(x), as_ms(y)))
    }
}

// --------------------------------------------------------------------------------------------- construction

/// Library role buffers over storages of one kind.
pub mod buffers {
    use super::*;
    macro_rules! filter {
        ($f:ident, $b:ident, $ty:ident) => {
            pub fn $f<K: Kit, T: Sc, const S: usize>(
                e: &mut Env<T>,
                n: &str,
                i: &FInit<T>,
            ) -> $ty<
                S,
                T,
                StateTransitionMatrixMutBuffer<S, T, K::M<S, S, T>>,
                StateVectorBuffer<S, T, K::M<S, 1, T>>,
                EstimateCovarianceMatrixBuffer<S, T, K::M<S, S, T>>,
                DirectProcessNoiseCovarianceMatrixMutBuffer<S, T, K::M<S, S, T>>,
                PredictedStateEstimateVectorBuffer<S, T, K::M<S, 1, T>>,
                TemporaryStateMatrixBuffer<S, T, K::M<S, S, T>>,
            > {
                $b::new::<S, T>(
                    StateTransitionMatrixMutBuffer::new(K::mk(e, &format!("{n}.A"), Some(&i.a))),
                    StateVectorBuffer::new(K::mk(e, &format!("{n}.x"), Some(&i.x))),
                    EstimateCovarianceMatrixBuffer::new(K::mk(e, &format!("{n}.P"), Some(&i.p))),
                    DirectProcessNoiseCovarianceMatrixMutBuffer::new(K::mk(e, &format!("{n}.Q"), Some(&i.q))),
                    PredictedStateEstimateVectorBuffer::new(K::mk(e, &format!("{n}.px"), None)),
                    TemporaryStateMatrixBuffer::new(K::mk(e, &format!("{n}.tP"), None)),
                )
            }
        };
    }
    filter!(reg, RegularKalmanBuilder, RegularKalman);
    filter!(ext, ExtendedKalmanBuilder, ExtendedKalman);
    pub fn raw<K: Kit, T: Sc, const S: usize>(
        e: &mut Env<T>,
        n: &str,
        i: &FInit<T>,
    ) -> Raw<StateVectorBuffer<S, T, K::M<S, 1, T>>, EstimateCovarianceMatrixBuffer<S, T, K::M<S, S, T>>, S> {
        Raw(
            StateVectorBuffer::new(K::mk(e, &format!("{n}.x"), Some(&i.x))),
            EstimateCovarianceMatrixBuffer::new(K::mk(e, &format!("{n}.P"), Some(&i.p))),
        )
    }
    pub fn ctl<K: Kit, T: Sc, const S: usize, const N: usize>(
        e: &mut Env<T>,
        n: &str,
        i: &CInit<T>,
    ) -> Control<
        S,
        N,
        T,
        ControlMatrixMutBuffer<S, N, T, K::M<S, N, T>>,
        ControlVectorBuffer<N, T, K::M<N, 1, T>>,
        ControlProcessNoiseCovarianceMatrixMutBuffer<N, T, K::M<N, N, T>>,
        TemporaryBQMatrixBuffer<S, N, T, K::M<S, N, T>>,
    > {
        ControlBuilder::new::<S, N, T>(
            ControlMatrixMutBuffer::new(K::mk(e, &format!("{n}.B"), Some(&i.b))),
            ControlVectorBuffer::new(K::mk(e, &format!("{n}.u"), Some(&i.u))),
            ControlProcessNoiseCovarianceMatrixMutBuffer::new(K::mk(e, &format!("{n}.Q"), Some(&i.q))),
            TemporaryBQMatrixBuffer::new(K::mk(e, &format!("{n}.tBQ"), None)),
        )
    }
    macro_rules! observation {
        ($f:ident, $b:ident, $ty:ident) => {
            pub fn $f<K: Kit, T: Sc, const S: usize, const N: usize>(
                e: &mut Env<T>,
                n: &str,
                i: &OInit<T>,
            ) -> $ty<
                S,
                N,
                T,
                ObservationMatrixMutBuffer<N, S, T, K::M<N, S, T>>,
                MeasurementVectorBuffer<N, T, K::M<N, 1, T>>,
                MeasurementNoiseCovarianceMatrixBuffer<N, T, K::M<N, N, T>>,
                InnovationVectorBuffer<N, T, K::M<N, 1, T>>,
                InnovationCovarianceMatrixBuffer<N, T, K::M<N, N, T>>,
                KalmanGainMatrixBuffer<S, N, T, K::M<S, N, T>>,
                TemporaryResidualCovarianceInvertedMatrixBuffer<N, T, K::M<N, N, T>>,
                TemporaryHPMatrixBuffer<N, S, T, K::M<N, S, T>>,
                TemporaryPHTMatrixBuffer<S, N, T, K::M<S, N, T>>,
                TemporaryKHPMatrixBuffer<S, T, K::M<S, S, T>>,
            > {
                $b::new::<S, N, T>(
                    ObservationMatrixMutBuffer::new(K::mk(e, &format!("{n}.H"), Some(&i.h))),
                    MeasurementVectorBuffer::new(K::mk(e, &format!("{n}.z"), Some(&i.z))),
                    MeasurementNoiseCovarianceMatrixBuffer::new(K::mk(e, &format!("{n}.R"), Some(&i.r))),
                    InnovationVectorBuffer::new(K::mk(e, &format!("{n}.y"), None)),
                    InnovationCovarianceMatrixBuffer::new(K::mk(e, &format!("{n}.S"), None)),
                    KalmanGainMatrixBuffer::new(K::mk(e, &format!("{n}.K"), None)),
                    TemporaryResidualCovarianceInvertedMatrixBuffer::new(K::mk(e, &format!("{n}.tSi"), None)),
                    TemporaryHPMatrixBuffer::new(K::mk(e, &format!("{n}.tHP"), None)),
                    TemporaryPHTMatrixBuffer::new(K::mk(e, &format!("{n}.tPHt"), None)),
                    TemporaryKHPMatrixBuffer::new(K::mk(e, &format!("{n}.tKHP"), None)),
                )
            }
        };
    }
    observation!(obs, RegularObservationBuilder, RegularObservation);
    observation!(nobs, ExtendedObservationBuilder, ExtendedObservation);
}

/// Read-only storage for everything that is constant in a model.
pub mod readonly {
    use super::*;
    use crate::kit::Slice;
    type Ro<const R: usize, const C: usize, T> = MatrixDataRef<'static, R, C, T>;
    type Mu<const R: usize, const C: usize, T> = MatrixDataMut<'static, R, C, T>;
    macro_rules! filter {
        ($f:ident, $b:ident, $ty:ident) => {
            pub fn $f<T: Sc, const S: usize>(
                e: &mut Env<T>,
                n: &str,
                i: &FInit<T>,
            ) -> $ty<
                S,
                T,
                StateTransitionMatrixBuffer<S, T, Ro<S, S, T>>,
                StateVectorBuffer<S, T, Mu<S, 1, T>>,
                EstimateCovarianceMatrixBuffer<S, T, Mu<S, S, T>>,
                DirectProcessNoiseCovarianceMatrixBuffer<S, T, Ro<S, S, T>>,
                PredictedStateEstimateVectorBuffer<S, T, Mu<S, 1, T>>,
                TemporaryStateMatrixBuffer<S, T, Mu<S, S, T>>,
            > {
                $b::new::<S, T>(
                    StateTransitionMatrixBuffer::from(&*e.lend(&format!("{n}.A"), Some(&i.a), S * S)),
                    StateVectorBuffer::from(e.lend(&format!("{n}.x"), Some(&i.x), S)),
                    EstimateCovarianceMatrixBuffer::from(e.lend(&format!("{n}.P"), Some(&i.p), S * S)),
                    DirectProcessNoiseCovarianceMatrixBuffer::from(&*e.lend(&format!("{n}.Q"), Some(&i.q), S * S)),
                    PredictedStateEstimateVectorBuffer::from(e.lend(&format!("{n}.px"), None, S)),
                    TemporaryStateMatrixBuffer::from(e.lend(&format!("{n}.tP"), None, S * S)),
                )
            }
        };
    }
    filter!(reg, RegularKalmanBuilder, RegularKalman);
    filter!(ext, ExtendedKalmanBuilder, ExtendedKalman);
    pub fn raw<T: Sc, const S: usize>(e: &mut Env<T>, n: &str, i: &FInit<T>) -> Raw<StateVectorBuffer<S, T, Mu<S, 1, T>>, EstimateCovarianceMatrixBuffer<S, T, Mu<S, S, T>>, S> {
        super::buffers::raw::<Slice, T, S>(e, n, i)
    }
    pub fn ctl<T: Sc, const S: usize, const N: usize>(
        e: &mut Env<T>,
        n: &str,
        i: &CInit<T>,
    ) -> Control<
        S,
        N,
        T,
        ControlMatrixBuffer<S, N, T, Ro<S, N, T>>,
        ControlVectorBuffer<N, T, Mu<N, 1, T>>,
        ControlProcessNoiseCovarianceMatrixBuffer<N, T, Ro<N, N, T>>,
        TemporaryBQMatrixBuffer<S, N, T, Mu<S, N, T>>,
    > {
        ControlBuilder::new::<S, N, T>(
            ControlMatrixBuffer::from(&*e.lend(&format!("{n}.B"), Some(&i.b), S * N)),
            ControlVectorBuffer::from(e.lend(&format!("{n}.u"), Some(&i.u), N)),
            ControlProcessNoiseCovarianceMatrixBuffer::from(&*e.lend(&format!("{n}.Q"), Some(&i.q), N * N)),
            TemporaryBQMatrixBuffer::from(e.lend(&format!("{n}.tBQ"), None, S * N)),
        )
    }
    macro_rules! observation {
        ($f:ident, $b:ident, $ty:ident) => {
            pub fn $f<T: Sc, const S: usize, const N: usize>(
                e: &mut Env<T>,
                n: &str,
                i: &OInit<T>,
            ) -> $ty<
                S,
                N,
                T,
                ObservationMatrixBuffer<N, S, T, Ro<N, S, T>>,
                MeasurementVectorBuffer<N, T, Mu<N, 1, T>>,
                MeasurementNoiseCovarianceMatrixBuffer<N, T, Mu<N, N, T>>,
                InnovationVectorBuffer<N, T, Mu<N, 1, T>>,
                InnovationCovarianceMatrixBuffer<N, T, Mu<N, N, T>>,
                KalmanGainMatrixBuffer<S, N, T, Mu<S, N, T>>,
                TemporaryResidualCovarianceInvertedMatrixBuffer<N, T, Mu<N, N, T>>,
                TemporaryHPMatrixBuffer<N, S, T, Mu<N, S, T>>,
                TemporaryPHTMatrixBuffer<S, N, T, Mu<S, N, T>>,
                TemporaryKHPMatrixBuffer<S, T, Mu<S, S, T>>,
            > {
                $b::new::<S, N, T>(
                    ObservationMatrixBuffer::from(&*e.lend(&format!("{n}.H"), Some(&i.h), N * S)),
                    MeasurementVectorBuffer::from(e.lend(&format!("{n}.z"), Some(&i.z), N)),
                    MeasurementNoiseCovarianceMatrixBuffer::from(e.lend(&format!("{n}.R"), Some(&i.r), N * N)),
                    InnovationVectorBuffer::from(e.lend(&format!("{n}.y"), None, N)),
                    InnovationCovarianceMatrixBuffer::from(e.lend(&format!("{n}.S"), None, N * N)),
                    KalmanGainMatrixBuffer::from(e.lend(&format!("{n}.K"), None, S * N)),
                    TemporaryResidualCovarianceInvertedMatrixBuffer::from(e.lend(&format!("{n}.tSi"), None, N * N)),
                    TemporaryHPMatrixBuffer::from(e.lend(&format!("{n}.tHP"), None, N * S)),
                    TemporaryPHTMatrixBuffer::from(e.lend(&format!("{n}.tPHt"), None, S * N)),
                    TemporaryKHPMatrixBuffer::from(e.lend(&format!("{n}.tKHP"), None, S * S)),
                )
            }
        };
    }
    observation!(obs, RegularObservationBuilder, RegularObservation);
    observation!(nobs, ExtendedObservationBuilder, ExtendedObservation);
}

/// User-defined types in every role.
pub mod userdef {
    use super::*;
    fn st<T: Sc>(e: &mut Env<T>, i: Option<&[T]>, n: usize) -> Store<T> {
        let extra = e.r.us(4);
        Store(e.fill(i, n, extra))
    }
    macro_rules! filter {
        ($f:ident, $b:ident, $ty:ident) => {
            pub fn $f<T: Sc, const S: usize>(e: &mut Env<T>, _: &str, i: &FInit<T>) -> $ty<S, T, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>> {
                let s2 = S * S;
                $b::new::<S, T>(st(e, Some(&i.a), s2), st(e, Some(&i.x), S), st(e, Some(&i.p), s2), st(e, Some(&i.q), s2), st(e, None, S), st(e, None, s2))
            }
        };
    }
    filter!(reg, RegularKalmanBuilder, RegularKalman);
    filter!(ext, ExtendedKalmanBuilder, ExtendedKalman);
    pub fn raw<T: Sc, const S: usize>(e: &mut Env<T>, _: &str, i: &FInit<T>) -> Raw<Store<T>, Store<T>, S> {
        Raw(st(e, Some(&i.x), S), st(e, Some(&i.p), S * S))
    }
    pub fn ctl<T: Sc, const S: usize, const N: usize>(e: &mut Env<T>, _: &str, i: &CInit<T>) -> Control<S, N, T, Store<T>, Store<T>, Store<T>, Store<T>> {
        ControlBuilder::new::<S, N, T>(st(e, Some(&i.b), S * N), st(e, Some(&i.u), N), st(e, Some(&i.q), N * N), st(e, None, S * N))
    }
    macro_rules! observation {
        ($f:ident, $b:ident, $ty:ident) => {
            #[allow(clippy::type_complexity)]
            pub fn $f<T: Sc, const S: usize, const N: usize>(
                e: &mut Env<T>,
                _: &str,
                i: &OInit<T>,
            ) -> $ty<S, N, T, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>, Store<T>> {
                $b::new::<S, N, T>(
                    st(e, Some(&i.h), N * S),
                    st(e, Some(&i.z), N),
                    st(e, Some(&i.r), N * N),
                    st(e, None, N),
                    st(e, None, N * N),
                    st(e, None, S * N),
                    st(e, None, N * N),
                    st(e, None, N * S),
                    st(e, None, S * N),
                    st(e, None, S * S),
                )
            }
        };
    }
    observation!(obs, RegularObservationBuilder, RegularObservation);
    observation!(nobs, ExtendedObservationBuilder, ExtendedObservation);
}
