//! The same executions, whatever the features of the library.
use kh::gf::Gf;
use kh::kit::{Array, Env, Plain, Slice};
use kh::log::Log;
use kh::rng::Rng;
use kh::scalar::Sc;
use kh::scen::*;
use kh::world::World;
use kh::worlds::*;

type Mk<T> = fn(&mut Env<T>, &Inits<T>) -> Box<dyn World<T>>;
type Mx = fn(&mut Log, &mut Rng, usize, &str);
fn run<T: Sc>(ms: Vec<(Dim, Mk<T>)>, xs: Vec<Mx>, a: &kh::Args) {
    let mut log = Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge"));
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let o = Opts { steps: a.num("steps", 12), focus: vec![], zero: false };
    for k in 0..a.num("n", 8) {
        if a.get("mode") == "matrix" {
            log.scenario(|log| xs[k % xs.len()](log, &mut r, o.steps, ""));
        } else {
            let (d, m) = ms[k % ms.len()];
            log.scenario(|log| history(log, d, &m, &mut r, &o, None));
        }
    }
    log.flush();
    println!("{} scenarios, {} events", log.scenarios(), log.lines);
}
const fn d(s: usize, c1: usize, c2: usize, m1: usize, m2: usize) -> Dim {
    Dim { s, c1, c2, m1, m2 }
}
fn all<T: Sc>(a: &kh::Args) {
    run::<T>(
        vec![
            (d(2, 1, 3, 2, 1), own::<Plain, T, 2, 1, 3, 2, 1> as Mk<T>),
            (d(3, 2, 1, 4, 2), own::<Slice, T, 3, 2, 1, 4, 2> as Mk<T>),
            (d(4, 3, 0, 1, 3), own::<Array, T, 4, 3, 0, 1, 3> as Mk<T>),
        ],
        vec![
            kh::matrices::scenario::<T, Plain, Array, 2, 3, 4>,
            kh::matrices::scenario::<T, Array, Slice, 3, 1, 2>,
            kh::matrices::scenario::<T, Slice, Plain, 4, 4, 4>,
        ],
        a,
    )
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => all::<Gf>(&a),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => all::<f32>(&a),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => all::<f64>(&a),
        #[cfg(feature = "fixed")]
        "i16f16" => all::<minikalman::prelude::I16F16>(&a),
        s => panic!("scalar {s}"),
    }
}
