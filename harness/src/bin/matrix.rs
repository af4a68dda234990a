//! Matrices of every shape, storage and scalar, under random operations.
use kh::gf::Gf;
use kh::kit::{Array, Boxed, Slice, User, Wrapped};
use kh::log::Log;
use kh::matrices::scenario;
use kh::rng::Rng;
use kh::scalar::Sc;

/// N: elements of the arrays
fn kits<T: Sc, const R: usize, const K: usize, const U: usize, const N: usize>() -> Vec<Box<dyn Fn(&mut Log, &mut Rng, usize, &str)>> {
    macro_rules! k { ($($a:ty: $c:ty),*) => { vec![$(Box::new(|l: &mut Log, r: &mut Rng, s: usize, f: &str| scenario::<T, $a, $c, R, K, U>(l, r, s, f))),*] } }
    k!(Boxed: Boxed, Slice: Array<N>, Array<N>: Slice, Wrapped: User, User: Wrapped, Boxed: Slice)
}
fn run<T: Sc>(all: Vec<Vec<Box<dyn Fn(&mut Log, &mut Rng, usize, &str)>>>, a: &kh::Args) {
    let mut log = Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge"));
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let focus = a.opt("focus").unwrap_or_default();
    for k in 0..a.num("n", 30) {
        let d = &all[k % all.len()];
        let f = &d[(k / all.len() + k) % d.len()];
        log.scenario(|log| f(log, &mut r, a.num("steps", 40), &focus));
    }
    log.flush();
    println!("{} scenarios, {} events", log.scenarios(), log.lines);
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    macro_rules! dims { ($t:ty; $($r:literal $k:literal $u:literal / $n:literal),*) => { run::<$t>(vec![$(kits::<$t, $r, $k, $u, $n>()),*], &a) } }
    match a.get("scalar").as_str() {
        "gf" => dims!(Gf; 2 3 4 / 21, 1 1 1 / 6, 3 2 1 / 14, 4 4 4 / 21, 1 5 2 / 30, 5 1 3 / 30, 6 3 5 / 39, 3 6 2 / 39, 8 9 2 / 84, 2 1 10 / 103, 17 2 3 / 292),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => dims!(f32; 2 3 4 / 21, 3 1 2 / 14, 5 4 1 / 30),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => dims!(f64; 3 2 3 / 14, 4 5 2 / 30),
        #[cfg(feature = "fixed")]
        "i16f16" => dims!(minikalman::prelude::I16F16; 3 2 4 / 21, 4 3 1 / 21),
        #[cfg(feature = "fixed")]
        "i32f32" => dims!(minikalman::prelude::I32F32; 2 4 3 / 21, 5 2 2 / 30),
        s => panic!("scalar {s}"),
    }
}
