//! Reciprocals and square roots of the supplied scalar types on the back-end of this build.
use kh::log::{esc, Log};
use kh::rng::Rng;
use kh::scalar::Sc;
#[allow(unused_imports)]
use minikalman::matrix::MatrixDataType;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Acc {
    recip: &'static str,
    root: &'static str,
    floor: &'static str,
}
fn run<T: Sc>(a: &kh::Args, acc: Acc, recips: &[T], roots: &[T]) {
    let mut log = Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge"));
    // of both signs
    let mut recips = recips.to_vec();
    for k in (0..recips.len()).step_by(3) {
        recips.push(-recips[k]);
    }
    for (op, rel, vs) in [("recip", acc.recip, &recips[..]), ("sqrt", acc.root, roots)] {
        for part in vs.chunks(200) {
            let mut t = T::tol();
            t.rel = rel.into();
            t.floor = acc.floor.into();
            log.begin(&t, op);
            for &v in part {
                let res = catch_unwind(AssertUnwindSafe(|| if op == "recip" { MatrixDataType::recip(v) } else { v.square_root() }));
                match res {
                    Ok(x) => log.line(&format!("{{\"e\":\"scalar\",\"op\":\"{op}\",\"a\":{},\"v\":{}}}", v.js(), x.js())),
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().unwrap_or_default();
                        log.line(&format!("{{\"e\":\"panic\",\"op\":\"{op}\",\"msg\":\"{}\"}}", esc(&m)));
                        break;
                    }
                }
            }
        }
    }
    log.flush();
    println!("{} scenarios, {} events", log.scenarios(), log.lines);
}
#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
const APPROXIMATE: bool = !cfg!(any(feature = "std", feature = "libm"));

/// Every exponent between lo and hi, with edge and random mantissas of `man` bits.
#[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
fn floats<T: Copy>(n: usize, seed: u64, man: u32, lo: i32, hi: i32, step: usize, bits: &dyn Fn(u64) -> T) -> Vec<T> {
    let mut r = Rng::new(seed);
    let bias = if man == 23 { 127 } else { 1023 };
    let all = (1u64 << man) - 1;
    let mut v = vec![];
    let start = r.us(step) as i32;
    for e in (lo..=hi).skip(start as usize).step_by(step).chain(-4..=4).chain([lo, hi]) {
        let mut ms = vec![0, 1, all, all / 2 + 1, all / 2];
        ms.extend((0..n).map(|_| r.below(all)));
        for m in ms {
            // below the normal range: denormal numbers
            let b = if e + bias > 0 { ((e + bias) as u64) << man | m } else { (1 << man | m) >> (1 - e - bias).min(63) };
            if b > 0 {
                v.push(bits(b));
            }
        }
    }
    v
}
#[cfg(feature = "fixed")]
fn fixeds<T>(n: usize, seed: u64, width: u32, frac: u32, of: &dyn Fn(u64) -> T) -> (Vec<T>, Vec<T>) {
    let mut r = Rng::new(seed);
    let mut raw = vec![];
    for e in 0..width - 1 {
        let p = 1u64 << e;
        raw.extend([p, p + 1, p - 1, p + p / 2]);
        raw.extend((0..n).map(|_| p + r.below(p)));
    }
    raw.extend(1..40u64);
    raw.extend((1..40u64).map(|k| k * k << frac));
    raw.retain(|b| *b > 0 && *b < 1 << (width - 1));
    // 1/a is representable if 2^(2 frac) / raw < 2^(width - 1)
    let rec: Vec<u64> = raw.iter().copied().filter(|b| (1u128 << (2 * frac)) / (*b as u128) + 1 < 1 << (width - 1)).collect();
    (rec.into_iter().map(of).collect(), raw.into_iter().map(of).collect())
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    let n = a.num("n", 4);
    let seed = a.num("seed", 1) as u64;
    let _ = (n, seed);
    match a.get("scalar").as_str() {
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => {
            let of = |b: u64| f32::from_bits(b as u32);
            if APPROXIMATE {
                let v = floats(n, seed, 23, -125, 124, 1, &of);
                run::<f32>(&a, Acc { recip: "1p-14", root: "1p-4", floor: "0" }, &v, &v)
            } else {
                let acc = Acc { recip: "1p-22", root: "1p-22", floor: "1p-148" };
                run::<f32>(&a, acc, &floats(n, seed, 23, -127, 127, 1, &of), &floats(n, seed, 23, -149, 127, 1, &of))
            }
        }
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => {
            let of = |b: u64| f64::from_bits(b);
            let rec = floats(n, seed, 52, -1023, 1023, 3, &of);
            if APPROXIMATE {
                let acc = Acc { recip: "1p-51", root: "1p-4", floor: "1p-1073" };
                run::<f64>(&a, acc, &rec, &floats(n, seed, 52, -125, 124, 1, &of))
            } else {
                let acc = Acc { recip: "1p-51", root: "1p-51", floor: "1p-1073" };
                run::<f64>(&a, acc, &rec, &floats(n, seed, 52, -1074, 1023, 3, &of))
            }
        }
        #[cfg(feature = "fixed")]
        "i16f16" => {
            let (rec, all) = fixeds(n, seed, 32, 16, &|b| minikalman::prelude::I16F16::from_bits(b as i32));
            run(&a, Acc { recip: "0", root: "0", floor: "1p-16" }, &rec, &all)
        }
        #[cfg(feature = "fixed")]
        "i32f32" => {
            let (rec, all) = fixeds(n, seed, 64, 32, &|b| minikalman::prelude::I32F32::from_bits(b as i64));
            run(&a, Acc { recip: "0", root: "0", floor: "1p-32" }, &rec, &all)
        }
        s => panic!("scalar {s}"),
    }
}
