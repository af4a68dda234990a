//! The macros that declare static buffers, and those that give their sizes.
#![allow(unused_macros, dead_code)]
include!("../bufs.in.rs");
const fn g(a: u32) -> Gf {
    Gf { a, b: 0 }
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => sizes(&a, &declarations!(Gf; 2 3 4 = g(0), 3 1 2 = g(5), 4 2 1 = g(7), 5 4 6 = g(1))),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => sizes(&a, &declarations!(f32; 3 2 4 = 0.0, 2 5 3 = 1.5)),
        #[cfg(feature = "fixed")]
        "i16f16" => sizes(&a, &declarations!(I16F16; 2 4 3 = I16F16::ZERO, 3 2 5 = I16F16::ONE)),
        s => panic!("{s:?}"),
    }
}
