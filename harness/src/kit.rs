//! Matrix storages to build filters from.
use crate::rng::Rng;
use crate::scalar::Sc;
use core::ops::{Index, IndexMut};
use minikalman::matrix::*;
use minikalman::prelude::*;

/// Where storages come from: fills what the user does not set, remembers what was lent.
pub struct Env<T> {
    pub r: Rng,
    /// borrowed storages: name, pointer, length, extent, contents at the start
    pub lent: Vec<(String, *mut T, usize, usize, Vec<T>)>,
    pub prefix: String,
    /// the cells temporary memory is in, and who is in which
    pub cells: Option<([*mut T; 5], &'static [usize; 6])>,
}
impl<T: Sc> Env<T> {
    pub fn new(r: Rng, prefix: &str) -> Self {
        Env { r, lent: vec![], prefix: prefix.into(), cells: None }
    }
    /// `init` (or poison) followed by `extra` elements of poison.
    pub fn fill(&mut self, init: Option<&[T]>, n: usize, extra: usize) -> Vec<T> {
        let mut v: Vec<T> = match init {
            Some(i) => {
                assert_eq!(i.len(), n);
                i.to_vec()
            }
            None => (0..n).map(|_| T::poison(&mut self.r)).collect(),
        };
        for _ in 0..extra {
            v.push(T::poison(&mut self.r));
        }
        v
    }
    /// A slice owned by nobody, with a random surplus; its contents can be inspected later.
    pub fn lend(&mut self, name: &str, init: Option<&[T]>, n: usize) -> &'static mut [T] {
        let extra = [0, 0, 1, 2, 7][self.r.us(5)];
        let v = self.fill(init, n, extra).into_boxed_slice();
        let was = v.to_vec();
        let len = v.len();
        let p = Box::into_raw(v) as *mut T;
        self.lent.push((format!("{}{}", self.prefix, name), p, len, n, was));
        // SAFETY: the allocation is leaked; it is read again only after its user is gone
        unsafe { std::slice::from_raw_parts_mut(p, len) }
    }
}

/// A kind of storage for matrices of any shape; `init` is `None` for working buffers.
pub trait Kit {
    type M<const R: usize, const C: usize, T: Sc>: MatrixMut<R, C, T>;
    const NAME: &'static str;
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, name: &str, init: Option<&[T]>) -> Self::M<R, C, T>;
}

#[cfg(any(feature = "alloc", feature = "std"))]
pub struct Boxed;
#[cfg(any(feature = "alloc", feature = "std"))]
impl Kit for Boxed {
    type M<const R: usize, const C: usize, T: Sc> = MatrixDataBoxed<R, C, T>;
    const NAME: &'static str = "boxed";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        MatrixData::new_boxed::<R, C, T, Vec<T>>(env.fill(init, R * C, 0))
    }
}
/// Storage of exactly the right size: the library's, where there is an allocator.
pub struct Plain;
impl Kit for Plain {
    #[cfg(any(feature = "alloc", feature = "std"))]
    type M<const R: usize, const C: usize, T: Sc> = MatrixDataBoxed<R, C, T>;
    #[cfg(not(any(feature = "alloc", feature = "std")))]
    type M<const R: usize, const C: usize, T: Sc> = Store<T>;
    const NAME: &'static str = "plain";
    #[cfg(any(feature = "alloc", feature = "std"))]
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        MatrixData::new_boxed::<R, C, T, Vec<T>>(env.fill(init, R * C, 0))
    }
    #[cfg(not(any(feature = "alloc", feature = "std")))]
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        Store(env.fill(init, R * C, 0))
    }
}
/// Arrays of `TOTAL` elements: more than any of the shapes needs.
pub struct Array<const TOTAL: usize = 67>;
impl<const TOTAL: usize> Kit for Array<TOTAL> {
    type M<const R: usize, const C: usize, T: Sc> = MatrixDataArray<R, C, TOTAL, T>;
    const NAME: &'static str = "array";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        let v = env.fill(init, R * C, TOTAL - R * C);
        let a: [T; TOTAL] = v.try_into().ok().unwrap();
        MatrixData::new_array::<R, C, TOTAL, T>(a)
    }
}
pub struct Slice;
impl Kit for Slice {
    type M<const R: usize, const C: usize, T: Sc> = MatrixDataMut<'static, R, C, T>;
    const NAME: &'static str = "slice";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, name: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        MatrixData::new_mut::<R, C, T>(env.lend(name, init, R * C))
    }
}

/// User-provided storage: a vector which may be longer than needed.
pub struct Store<T>(pub Vec<T>);
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for Store<T> {
    fn as_slice(&self) -> &[T] {
        &self.0
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for Store<T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        &mut self.0
    }
}
impl<T> Index<usize> for Store<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.0[i]
    }
}
impl<T> IndexMut<usize> for Store<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.0[i]
    }
}
impl<T> AsRef<[T]> for Store<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for Store<T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for Store<T> {}

pub struct Wrapped;
impl Kit for Wrapped {
    type M<const R: usize, const C: usize, T: Sc> = MatrixDataRowMajorMut<R, C, Store<T>, T>;
    const NAME: &'static str = "wrapped";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        let extra = env.r.us(4);
        MatrixData::new_mut_from::<R, C, T, Store<T>>(Store(env.fill(init, R * C, extra)))
    }
}
/// User-provided storage used directly.
pub struct User;
impl Kit for User {
    type M<const R: usize, const C: usize, T: Sc> = Store<T>;
    const NAME: &'static str = "user";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, _: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        let extra = env.r.us(4);
        Store(env.fill(init, R * C, extra))
    }
}

/// User-provided storage whose temporaries share memory: between all objects, and within them where that is allowed.
///
/// Slices of a cell exist only while an element or the whole of one temporary is being accessed.
pub struct Shared<T>(*mut T, usize);
impl<const R: usize, const C: usize, T> RowMajorSequentialData<R, C, T> for Shared<T> {
    fn as_slice(&self) -> &[T] {
        // SAFETY: leaked memory, long enough; see above
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl<const R: usize, const C: usize, T> RowMajorSequentialDataMut<R, C, T> for Shared<T> {
    fn as_mut_slice(&mut self) -> &mut [T] {
        // SAFETY: the same
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl<T> Index<usize> for Shared<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.1);
        // SAFETY: within the memory
        unsafe { &*self.0.add(i) }
    }
}
impl<T> IndexMut<usize> for Shared<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.1);
        // SAFETY: within the memory
        unsafe { &mut *self.0.add(i) }
    }
}
impl<T> AsRef<[T]> for Shared<T> {
    fn as_ref(&self) -> &[T] {
        // SAFETY: as above
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}
impl<const R: usize, const C: usize, T> Matrix<R, C, T> for Shared<T> {}
impl<const R: usize, const C: usize, T> MatrixMut<R, C, T> for Shared<T> {}

const TEMPORARY: [&str; 6] = ["tSi", "tHP", "tPHt", "tKHP", "tP", "tBQ"];
/// The sharings of KalmanImpl's `Allowed`; the filter's and the control's are in one of the observation's, too.
const SHARINGS: [[usize; 6]; 9] = [
    [0, 1, 2, 3, 4, 4],
    [0, 1, 2, 0, 4, 4],
    [0, 0, 2, 3, 4, 4],
    [0, 1, 1, 3, 4, 4],
    [0, 1, 2, 2, 0, 4],
    [0, 1, 1, 0, 4, 4],
    [0, 0, 1, 1, 4, 4],
    [0, 1, 1, 0, 0, 1],
    [0, 0, 1, 1, 1, 1],
];
impl Kit for Shared<()> {
    type M<const R: usize, const C: usize, T: Sc> = Shared<T>;
    const NAME: &'static str = "shared";
    fn mk<const R: usize, const C: usize, T: Sc>(env: &mut Env<T>, name: &str, init: Option<&[T]>) -> Self::M<R, C, T> {
        let leak = |v: Vec<T>| Box::into_raw(v.into_boxed_slice()) as *mut T;
        let t = TEMPORARY.iter().position(|t| name.ends_with(&format!(".{t}")));
        let Some(t) = t else {
            return Shared(leak(env.fill(init, R * C, 0)), R * C);
        };
        if env.cells.is_none() {
            let s = &SHARINGS[env.r.us(SHARINGS.len())];
            let cells = core::array::from_fn(|_| leak(env.fill(None, 512, 0)));
            env.cells = Some((cells, s));
        }
        assert!(R * C <= 512);
        let (cells, s) = env.cells.as_ref().unwrap();
        Shared(cells[s[t]], R * C)
    }
}

/// User-defined types in the library's roles, without the library's buffer types.
mod roles {
    use super::*;
    impl<const R: usize, const C: usize, T> AsMatrix<R, C, T> for Store<T> {
        type Target = Store<T>;
        fn as_matrix(&self) -> &Store<T> {
            self
        }
    }
    impl<const R: usize, const C: usize, T> AsMatrixMut<R, C, T> for Store<T> {
        type TargetMut = Store<T>;
        fn as_matrix_mut(&mut self) -> &mut Store<T> {
            self
        }
    }
    macro_rules! vecs { ($($t:ident)*) => { $( impl<const N: usize, T> $t<N, T> for Store<T> {} )* } }
    vecs!(StateVector StateVectorMut ControlVector ControlVectorMut PredictedStateEstimateVector MeasurementVector MeasurementVectorMut InnovationVector);
    macro_rules! mats {
        ($($t:ident [$($n:ident)*])*) => { $(
            impl<$(const $n: usize,)* T> $t<$($n,)* T> for Store<T> {
                type Target = Store<T>;
                type TargetMut = Store<T>;
                fn as_matrix(&self) -> &Store<T> { self }
                fn as_matrix_mut(&mut self) -> &mut Store<T> { self }
            }
        )* }
    }
    mats!(EstimateCovarianceMatrix[N] TemporaryStateMatrix[N] TemporaryBQMatrix[N M] MeasurementNoiseCovarianceMatrix[N]
          InnovationCovarianceMatrix[N] KalmanGainMatrix[N M] TemporaryResidualCovarianceInvertedMatrix[N]
          TemporaryHPMatrix[N M] TemporaryPHTMatrix[N M] TemporaryKHPMatrix[N]);
    macro_rules! pairs {
        ($($t:ident $m:ident [$($n:ident)*])*) => { $(
            impl<$(const $n: usize,)* T> $t<$($n,)* T> for Store<T> {
                type Target = Store<T>;
                fn as_matrix(&self) -> &Store<T> { self }
            }
            impl<$(const $n: usize,)* T> $m<$($n,)* T> for Store<T> {
                type TargetMut = Store<T>;
                fn as_matrix_mut(&mut self) -> &mut Store<T> { self }
            }
        )* }
    }
    pairs!(StateTransitionMatrix StateTransitionMatrixMut [N] ControlMatrix ControlMatrixMut [N M]
           DirectProcessNoiseCovarianceMatrix DirectProcessNoiseCovarianceMatrixMut [N]
           ControlProcessNoiseCovarianceMatrix ControlProcessNoiseCovarianceMatrixMut [N]
           ObservationMatrix ObservationMatrixMut [N M]);
}
