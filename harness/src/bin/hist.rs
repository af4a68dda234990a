//! Recorded histories of filters sharing controls and observations (library buffers, boxed storage).
use kh::gf::Gf;
use kh::kit::Boxed;
use kh::log::Log;
use kh::rng::Rng;
use kh::scalar::Sc;
use kh::scen::*;
use kh::worlds::*;

type Mk<T> = fn(&mut kh::kit::Env<T>, &Inits<T>) -> Box<dyn kh::world::World<T>>;
macro_rules! dims {
    ($t:ty; $($s:literal $c1:literal $c2:literal $m1:literal $m2:literal;)*) => {
        vec![$((Dim { s: $s, c1: $c1, c2: $c2, m1: $m1, m2: $m2 }, own::<Boxed, $t, $s, $c1, $c2, $m1, $m2> as Mk<$t>)),*]
    };
}
fn run<T: Sc>(makes: Vec<(Dim, Mk<T>)>, a: &kh::Args) {
    let mut log = Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge"));
    let mode = a.get("mode");
    let o = Opts { steps: a.num("steps", 20), focus: a.list("focus"), zero: a.opt("zero").is_some() };
    let mut r = Rng::new(a.num("seed", 1) as u64);
    let plans: Vec<Vec<(String, String, String)>> = match a.opt("plans") {
        None => vec![],
        Some(p) => std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .map(|l| {
                l.split_whitespace()
                    .map(|t| {
                        let mut i = t.split(':').map(|s| s.to_string());
                        (i.next().unwrap(), i.next().unwrap(), i.next().unwrap_or_default())
                    })
                    .collect()
            })
            .collect(),
    };
    let n = if plans.is_empty() { a.num("n", 16) } else { plans.len() };
    let whole = |d: Dim| Dim { s: d.s, c1: d.c1 + d.c2, c2: d.c2, m1: d.m1 + d.m2, m2: d.m2 };
    let eq = |a: &Dim, b: &Dim| (a.s, a.c1, a.m1) == (b.s, b.c1, b.m1);
    for k in 0..n {
        let (d, mk) = makes[k % makes.len()];
        log.scenario(|log| match mode.as_str() {
            "history" => history(log, d, &mk, &mut r, &o, plans.get(k).map(|p| &p[..])),
            "scratch" => twin(log, d, &mk, &mk, &mut r, &o, "scratch", kh::world::ALL, true, true),
            "degenerate" => degenerate(log, d, &mk, &mut r, &o),
            "stacked" => {
                if let Some((d2, m2)) = makes.iter().find(|m| eq(&m.0, &whole(d))) {
                    stacked(log, d, &mk, *d2, m2, &mut r)
                }
            }
            m => equal(log, d, &mk, &mut r, m),
        });
    }
    log.flush();
    println!("{} scenarios, {} events", log.scenarios(), log.lines);
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => run::<Gf>(
            dims!(Gf; 1 1 2 1 3; 2 1 3 2 1; 3 2 1 2 4; 4 3 0 3 2; 5 2 6 1 6; 6 0 4 5 1; 8 3 1 2 9; 2 4 1 3 2; 3 3 2 6 3; 1 3 1 4 1; 4 3 2 5 3; 10 2 3 10 2; 17 1 9 2 17;),
            &a,
        ),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => run::<f32>(dims!(f32; 1 1 2 1 3; 2 1 3 2 1; 4 3 0 3 2; 6 2 1 1 4; 2 4 1 3 2; 4 3 2 5 1;), &a),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => run::<f64>(dims!(f64; 1 1 2 1 3; 2 1 3 2 1; 4 3 0 3 2; 6 2 1 1 4; 2 4 1 3 2; 4 3 2 5 1;), &a),
        #[cfg(feature = "fixed")]
        "i16f16" => run::<minikalman::prelude::I16F16>(dims!(minikalman::prelude::I16F16; 1 1 2 1 3; 2 1 3 2 1; 4 3 0 3 2; 2 4 1 3 2;), &a),
        #[cfg(feature = "fixed")]
        "i32f32" => run::<minikalman::prelude::I32F32>(dims!(minikalman::prelude::I32F32; 1 1 2 1 3; 2 1 3 2 1; 4 3 0 3 2; 2 4 1 3 2;), &a),
        s => panic!("scalar {s}"),
    }
}
