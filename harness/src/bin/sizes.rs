//! Every role and storage over lengths that fit and lengths that do not.
#![allow(unused_macros, dead_code)]
include!("../bufs.in.rs");
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => sizes(&a, &roles!(Gf; 2 3 4, 4 1 2, 2 0 3)),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => sizes(&a, &roles!(f32; 1 2 3)),
        s => panic!("{s:?}"),
    }
}
