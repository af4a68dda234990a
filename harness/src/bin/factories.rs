//! The buffer factories.
#![allow(unused_macros, dead_code)]
include!("../bufs.in.rs");
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => sizes(&a, &factories!(Gf; 2 3 4, 3 1 2, 1 2 3, 4 4 4, 5 2 1, 2 5 3, 3 4 6, 6 3 2, 1 1 1, 4 0 2, 7 2 5)),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => sizes(&a, &factories!(f32; 3 2 4, 2 5 1)),
        s => panic!("{s:?}"),
    }
}
