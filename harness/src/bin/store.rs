//! The same histories on different kinds of storage, and through the generic traits.
use kh::gf::Gf;
use kh::kit::{Array, Boxed, Env, Shared, Slice, User, Wrapped};
use kh::log::Log;
use kh::rng::Rng;
use kh::scalar::Sc;
use kh::scen::*;
use kh::statics::*;
use kh::world::*;
use kh::worlds::*;

type Mk<T> = fn(&mut Env<T>, &Inits<T>) -> Box<dyn World<T>>;
/// What a model with constant data lets the user write.
const FEW: &[&str] = &["x", "P", "u", "z", "R"];

fn makes<T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>() -> (Dim, Vec<(&'static str, Mk<T>)>) {
    (
        Dim { s: S, c1: C1, c2: C2, m1: M1, m2: M2 },
        vec![
            ("boxed", own::<Boxed, T, S, C1, C2, M1, M2> as Mk<T>),
            ("array", own::<Array, T, S, C1, C2, M1, M2> as Mk<T>),
            ("slice", own::<Slice, T, S, C1, C2, M1, M2> as Mk<T>),
            ("wrapped", own::<Wrapped, T, S, C1, C2, M1, M2> as Mk<T>),
            ("stored", own::<User, T, S, C1, C2, M1, M2> as Mk<T>),
            ("roles", user::<T, S, C1, C2, M1, M2> as Mk<T>),
            ("readonly", ro::<T, S, C1, C2, M1, M2> as Mk<T>),
            ("traits", gen::<Boxed, T, S, C1, C2, M1, M2> as Mk<T>),
            ("traits-slice", gen::<Slice, T, S, C1, C2, M1, M2> as Mk<T>),
            ("shared", own::<Shared<()>, T, S, C1, C2, M1, M2> as Mk<T>),
            ("built", of_builders::<T, S, C1, C2, M1, M2> as Mk<T>),
        ],
    )
}
fn of_builders<T: Sc, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize>(_: &mut Env<T>, _: &Inits<T>) -> Box<dyn World<T>> {
    built::<T, S, C1, C2, M1, M2>()
}
/// Worlds on declared storage, for the same dimensions.
fn and<T: Sc>(mut m: (Dim, Vec<(&'static str, Mk<T>)>), l: Mk<T>, s: Mk<T>) -> (Dim, Vec<(&'static str, Mk<T>)>) {
    m.1.push(("declared", l));
    m.1.push(("static", s));
    m
}
fn run<T: Sc>(dims: Vec<(Dim, Vec<(&'static str, Mk<T>)>)>, a: &kh::Args) {
    let mut log = Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge"));
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let kinds = a.list("kinds");
    let o = Opts { steps: a.num("steps", 12), focus: a.list("focus"), zero: a.opt("zero").is_some() };
    let alt = a.opt("alt").is_some();
    for k in 0..a.num("n", 8) {
        let (d, ms) = &dims[k % dims.len()];
        let kind = &kinds[(k / dims.len()) % kinds.len()];
        let find = |n: &str| ms.iter().find(|m| m.0 == n).map(|m| m.1);
        let of = |n: &str| find(n).unwrap_or_else(|| panic!("kind {n}"));
        if find(kind).is_none() {
            continue;
        }
        let (base, other) = (of("boxed"), of(kind));
        let w = if kind == "readonly" { FEW } else { ALL };
        let why = format!("boxed and {kind}");
        log.scenario(|log| twin_alt(log, *d, &base, &other, &mut r, &o, &why, w, false, true, alt));
    }
    log.flush();
    println!("{} scenarios, {} events", log.scenarios(), log.lines);
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => run::<Gf>(
            vec![
                and(makes::<Gf, 2, 1, 3, 2, 1>(), gf::let21321, gf::static21321),
                and(makes::<Gf, 3, 2, 1, 4, 3>(), gf::let32143, gf::static32143),
                and(makes::<Gf, 4, 3, 5, 1, 6>(), gf::let43516, gf::static43516),
                and(makes::<Gf, 1, 2, 1, 3, 1>(), gf::let12131, gf::static12131),
                makes::<Gf, 3, 2, 0, 4, 3>(),
                makes::<Gf, 6, 2, 4, 3, 8>(),
                makes::<Gf, 7, 1, 2, 2, 1>(),
            ],
            &a,
        ),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => run::<f64>(
            vec![
                and(makes::<f64, 2, 1, 3, 2, 1>(), f64s::let21321, f64s::static21321),
                and(makes::<f64, 3, 2, 1, 4, 3>(), f64s::let32143, f64s::static32143),
            ],
            &a,
        ),
        #[cfg(feature = "fixed")]
        "i16f16" => run::<minikalman::prelude::I16F16>(vec![and(makes::<minikalman::prelude::I16F16, 3, 1, 2, 2, 4>(), i16f16::let31224, i16f16::static31224)], &a),
        s => panic!("scalar {s}"),
    }
}
