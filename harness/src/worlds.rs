//! Worlds of every construction the library offers.
use crate::gen::{CInit, FInit, OInit, Units};
use crate::kit::{Env, Kit};
use crate::obj::{buffers, readonly, userdef, *};
use crate::rng::Rng;
use crate::scalar::Sc;
use crate::world::{World, W};

/// Initial contents of all objects of a world.
#[derive(Clone)]
pub struct Inits<T> {
    pub f: Vec<FInit<T>>,
    pub c: Vec<CInit<T>>,
    pub o: Vec<OInit<T>>,
}
#[derive(Clone, Copy, Debug)]
pub struct Dim {
    pub s: usize,
    pub c1: usize,
    pub c2: usize,
    pub m1: usize,
    pub m2: usize,
}
impl<T: Sc> Inits<T> {
    pub fn gen(r: &mut Rng, u: &Units, d: Dim) -> Self {
        Inits {
            f: (0..5).map(|_| FInit::gen(r, u, d.s)).collect(),
            c: [d.c1, d.c2].iter().map(|c| CInit::gen(r, u, d.s, *c)).collect(),
            o: [d.m1, d.m2, d.m1, d.m2].iter().map(|m| OInit::gen(r, u, d.s, *m)).collect(),
        }
    }
    pub fn zero(d: Dim) -> Self {
        let z = |n: usize| vec![T::dy(0, 0); n];
        let s2 = d.s * d.s;
        Inits {
            f: (0..5).map(|_| FInit { x: z(d.s), a: z(s2), p: z(s2), q: z(s2) }).collect(),
            c: [d.c1, d.c2].iter().map(|c| CInit { b: z(d.s * c), u: z(*c), q: z(c * c) }).collect(),
            o: [d.m1, d.m2, d.m1, d.m2].iter().map(|m| OInit { h: z(d.s * m), z: z(*m), r: z(m * m) }).collect(),
        }
    }
}

macro_rules! world {
    ($e:ident, $i:ident, [$S:ident $C1:ident $C2:ident $M1:ident $M2:ident], $m:ident, [$($k:ident)?], $wf:expr, $wx:expr, $wca:expr, $wcb:expr, $woa:expr, $wob:expr, $wna:expr, $wnb:expr) => {
        Box::new(W::<_, _, _, _, _, _, _, _, _, _, $S, $C1, $C2, $M1, $M2> {
            f1: $wf($m::reg::<$($k,)? T, $S>($e, "f1", &$i.f[0])),
            f2: $wf($m::reg::<$($k,)? T, $S>($e, "f2", &$i.f[1])),
            r1: $m::raw::<$($k,)? T, $S>($e, "r1", &$i.f[2]),
            e1: $wx($m::ext::<$($k,)? T, $S>($e, "e1", &$i.f[3])),
            e2: $wx($m::ext::<$($k,)? T, $S>($e, "e2", &$i.f[4])),
            c1: $wca($m::ctl::<$($k,)? T, $S, $C1>($e, "c1", &$i.c[0])),
            c2: $wcb($m::ctl::<$($k,)? T, $S, $C2>($e, "c2", &$i.c[1])),
            o1: $woa($m::obs::<$($k,)? T, $S, $M1>($e, "o1", &$i.o[0])),
            o2: $wob($m::obs::<$($k,)? T, $S, $M2>($e, "o2", &$i.o[1])),
            n1: $wna($m::nobs::<$($k,)? T, $S, $M1>($e, "n1", &$i.o[2])),
            n2: $wnb($m::nobs::<$($k,)? T, $S, $M2>($e, "n2", &$i.o[3])),
        })
    };
}
type Bx<T> = Box<dyn World<T>>;

/// The library's buffers over one kind of storage, used through the concrete types.
pub fn own<K: Kit + 'static, T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>(e: &mut Env<T>, i: &Inits<T>) -> Bx<T> {
    world!(e, i, [S C1 C2 M1 M2], buffers, [K], Own, Own, OwnC, OwnC, OwnO, OwnO, OwnN, OwnN)
}
/// The same, used through the library's traits.
pub fn gen<K: Kit + 'static, T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>(e: &mut Env<T>, i: &Inits<T>) -> Bx<T> {
    world!(
        e, i, [S C1 C2 M1 M2], buffers, [K], |f| Gen::<_, S>(Own(f)), |f| Gen::<_, S>(Own(f)),
        |c| GenC::<_, S, C1>(OwnC(c)), |c| GenC::<_, S, C2>(OwnC(c)), |o| GenO::<_, S, M1>(OwnO(o)), |o| GenO::<_, S, M2>(OwnO(o)),
        |o| GenN::<_, S, M1>(OwnN(o)), |o| GenN::<_, S, M2>(OwnN(o))
    )
}
/// Constant model data in read-only storage.
pub fn ro<T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>(e: &mut Env<T>, i: &Inits<T>) -> Bx<T> {
    world!(e, i, [S C1 C2 M1 M2], readonly, [], RoReg, RoExt, RoC, RoC, RoO, RoO, RoN, RoN)
}
/// User-defined types in every role.
pub fn user<T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>(e: &mut Env<T>, i: &Inits<T>) -> Bx<T> {
    world!(e, i, [S C1 C2 M1 M2], userdef, [], Own, Own, OwnC, OwnC, OwnO, OwnO, OwnN, OwnN)
}
/// Objects made by the library's builders; everything is zero.
#[cfg(any(feature = "alloc", feature = "std"))]
pub fn built<T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>() -> Bx<T> {
    use crate::obj::Raw;
    use minikalman::prelude::BufferBuilder;
    use minikalman::{extended, regular};
    let r = regular::builder::KalmanFilterBuilder::<S, T>::default();
    let x = extended::builder::KalmanFilterBuilder::<S, T>::default();
    Box::new(W::<_, _, _, _, _, _, _, _, _, _, S, C1, C2, M1, M2> {
        f1: Own(r.build()),
        f2: Own(r.build()),
        r1: Raw::<_, _, S>(BufferBuilder::state_vector_x::<S>().new::<T>(), BufferBuilder::estimate_covariance_P::<S>().new::<T>()),
        e1: Own(x.build()),
        e2: Own(x.build()),
        c1: OwnC(r.controls().build::<C1>()),
        c2: OwnC(r.controls().build::<C2>()),
        o1: OwnO(r.observations().build::<M1>()),
        o2: OwnO(r.observations().build::<M2>()),
        n1: OwnN(x.observations().build::<M1>()),
        n2: OwnN(x.observations().build::<M2>()),
    })
}
