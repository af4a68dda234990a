//! Matrices seen through nalgebra.
use kh::gf::Gf;
use kh::log::{vals, Log};
use kh::probe::val;
use kh::rng::Rng;
use kh::scalar::Sc;
use minikalman::matrix::*;
use nalgebra as na;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Cx {
    log: Log,
    r: Rng,
}
impl Cx {
    fn shows<T: Sc>(&mut self, op: &str, via: &str, q: [usize; 4], v: &[T]) {
        self.log.line(&format!("{{\"e\":\"shows\",\"a\":\"m\",\"op\":\"{op}\",\"via\":\"{via}\",\"q\":{q:?},\"v\":{},\"d\":{{}}}}", vals(v)));
    }
    fn with<T: Sc>(&mut self, op: &str, via: &str, b: &[T], v: &[T]) {
        self.log.line(&format!("{{\"e\":\"combined\",\"a\":\"m\",\"op\":\"{op}\",\"via\":\"{via}\",\"b\":{},\"v\":{},\"d\":{{}}}}", vals(b), vals(v)));
    }
    fn flat<T: Sc>(&mut self, via: &str, v: &[T]) {
        self.log.line(&format!("{{\"e\":\"flat\",\"a\":\"m\",\"via\":\"{via}\",\"v\":{},\"d\":{{}}}}", vals(v)));
    }
    fn truth(&mut self, via: &str, b: &[String], yes: bool) {
        self.log.line(&format!("{{\"e\":\"equal\",\"a\":\"m\",\"via\":\"{via}\",\"b\":[{}],\"yes\":{yes},\"d\":{{}}}}", b.join(",")));
    }
}
fn seq<'a, T: Copy + 'a>(i: impl Iterator<Item = &'a T>) -> Vec<T> {
    i.copied().collect()
}
trait Elem: Sc + na::Scalar + na::ClosedAdd + na::ClosedSub + na::ClosedMul {}
impl<T: Sc + na::Scalar + na::ClosedAdd + na::ClosedSub + na::ClosedMul> Elem for T {}

fn visit<T: Elem, const R: usize, const C: usize, const N: usize>(cx: &mut Cx) {
    let v: Vec<T> = (0..N).map(|_| val(&mut cx.r, 0)).collect();
    cx.log.begin(&T::tol(), &format!("{R} x {C} over {N}"));
    let mut m = MatrixData::new_array::<R, C, N, T>(std::array::from_fn(|k| v[k]));
    cx.log.line(&format!("{{\"e\":\"mat\",\"o\":\"m\",\"r\":{R},\"c\":{C},\"v\":{}}}", vals(&v)));
    if N < R * C {
        // too short a storage must not be read beyond its end
        let pos = R * C - 1;
        for k in 0..3 {
            let mm = MatrixData::new_array::<R, C, N, T>(std::array::from_fn(|k| v[k]));
            let (via, res) = match k {
                0 => ("nalgebra (i, j)", catch_unwind(AssertUnwindSafe(|| na::Matrix::from_data(mm)[(R - 1, C - 1)]))),
                1 => ("nalgebra iter", catch_unwind(AssertUnwindSafe(|| *na::Matrix::from_data(mm).iter().last().unwrap()))),
                _ => ("nalgebra column", catch_unwind(AssertUnwindSafe(|| na::Matrix::from_data(mm).column(C - 1)[R - 1]))),
            };
            cx.log.line(&format!("{{\"e\":\"beyond\",\"a\":\"m\",\"via\":\"{via}\",\"i\":{pos},\"ok\":{},\"d\":{{}}}}", res.is_ok()));
        }
        return;
    }
    // written through the library first, some of the time
    for _ in 0..cx.r.us(3) {
        let (i, j, s) = (cx.r.us(R), cx.r.us(C), val::<T>(&mut cx.r, 0));
        m.set_at(i, j, s);
        let st: &[T] = m.as_slice();
        cx.log.line(&format!("{{\"e\":\"write\",\"op\":\"element\",\"via\":\"set_at\",\"a\":\"m\",\"i\":{i},\"j\":{j},\"s\":{},\"d\":{{\"m\":{}}}}}", s.js(), vals(st)));
    }
    let m = na::Matrix::from_data(m);
    let z = [0; 4];
    let ty = |n: usize| n as i64;
    let dims: Vec<i64> = vec![ty(m.nrows()), ty(m.ncols()), ty(m.len()), m.shape().0 as i64, m.shape().1 as i64, m.is_empty() as i64, m.is_square() as i64];
    cx.log.line(&format!("{{\"e\":\"nshape\",\"a\":\"m\",\"v\":{dims:?}}}"));
    let (i, j) = (cx.r.us(R), cx.r.us(C));
    cx.shows("element", "(i, j)", [i, j, 0, 0], &[m[(i, j)]]);
    cx.shows("element", "get((i, j))", [i, j, 0, 0], &[*m.get((i, j)).unwrap()]);
    // SAFETY: in range
    cx.shows("element", "get_unchecked", [i, j, 0, 0], &[unsafe { *m.get_unchecked((i, j)) }]);
    let k = cx.r.us(R * C);
    let at = m.vector_to_matrix_index(k);
    cx.shows("element", "[k]", [at.0, at.1, 0, 0], &[m[k]]);
    cx.shows("all", "(i, j) everywhere", z, &(0..R * C).map(|k| m[(k % R, k / R)]).collect::<Vec<_>>());
    cx.shows("all", "[k] everywhere", z, &(0..R * C).map(|k| m[k]).collect::<Vec<_>>());
    cx.shows("all", "iter", z, &seq(m.iter()));
    cx.shows("all", "iter rev", z, &{
        let mut v = seq(m.iter().rev());
        v.reverse();
        v
    });
    cx.shows("all", "into_iter of a reference", z, &seq((&m).into_iter()));
    cx.shows("row", "row", [i, 0, 0, 0], &seq(m.row(i).iter()));
    cx.shows("column", "column", [0, j, 0, 0], &seq(m.column(j).iter()));
    cx.shows("row", "row_iter", [i, 0, 0, 0], &seq(m.row_iter().nth(i).unwrap().iter()));
    cx.shows("column", "column_iter", [0, j, 0, 0], &seq(m.column_iter().nth(j).unwrap().iter()));
    let (h, w) = (1 + cx.r.us(R - i), 1 + cx.r.us(C - j));
    cx.shows("window", "view", [i, j, h, w], &seq(m.view((i, j), (h, w)).iter()));
    cx.shows("window", "fixed_view clone_owned", [0, 0, R, C], &seq(m.fixed_view::<R, C>(0, 0).clone_owned().iter()));
    cx.shows("window", "rows", [i, 0, h, C], &seq(m.rows(i, h).iter()));
    cx.shows("window", "columns", [0, j, R, w], &seq(m.columns(j, w).iter()));
    cx.shows("window", "index ranges", [i, j, h, w], &seq(m.index((i..i + h, j..j + w)).iter()));
    cx.shows("window", "fixed_view", [0, 0, R, C], &seq(m.fixed_view::<R, C>(0, 0).iter()));
    cx.shows("transposed", "transpose", z, &seq(m.transpose().iter()));
    let mut t = na::SMatrix::<T, C, R>::from_element(T::zero());
    m.transpose_to(&mut t);
    cx.shows("transposed", "transpose_to", z, &seq(t.iter()));
    let mut t = na::SMatrix::<T, C, R>::from_element(T::zero());
    t.tr_copy_from(&m);
    cx.shows("transposed", "tr_copy_from", z, &seq(t.iter()));
    let mut t = na::SMatrix::<T, R, C>::from_element(T::zero());
    t.copy_from(&m);
    cx.shows("all", "copy_from", z, &seq(t.iter()));
    cx.shows("all", "map", z, &seq(m.map(|v| v).iter()));
    cx.shows("all", "map_with_location", z, &seq(m.map_with_location(|i, j, _| m[(i, j)]).iter()));
    cx.shows("all", "fold", z, &m.fold(vec![], |mut a, v| {
        a.push(v);
        a
    }));
    cx.shows("all", "dynamic view", z, &seq(m.view((0, 0), (R, C)).iter()));
    // with ordinary matrices
    let b: Vec<T> = (0..R * C).map(|_| val(&mut cx.r, 0)).collect();
    let o = na::SMatrix::<T, R, C>::from_column_slice(&b);
    let whole = m.fixed_view::<R, C>(0, 0);
    cx.with("left", "zip_map", &b, &seq(m.zip_map(&o, |a, _| a).iter()));
    cx.with("right", "zip_map", &b, &seq(m.zip_map(&o, |_, b| b).iter()));
    cx.with("left", "zip_map of an ordinary one", &b, &seq(o.zip_map(&m, |_, a| a).iter()));
    cx.with("left", "zip_fold", &b, &m.zip_fold(&o, vec![], |mut v, a, _| {
        v.push(a);
        v
    }));
    cx.with("sum", "zip_map +", &b, &seq(m.zip_map(&o, |a, b| a + b).iter()));
    cx.with("product", "zip_map *", &b, &seq(m.zip_map(&o, |a, b| a * b).iter()));
    cx.with("sum", "view + ordinary", &b, &seq((&whole + &o).iter()));
    cx.with("sum", "ordinary + view", &b, &seq((&o + &whole).iter()));
    cx.with("difference", "view - ordinary", &b, &seq((&whole - &o).iter()));
    cx.with("product", "component_mul of a view", &b, &seq(whole.component_mul(&o).iter()));
    let mut acc = o.clone();
    acc += &whole;
    cx.with("sum", "ordinary += view", &b, &seq(acc.iter()));
    // equality with an ordinary matrix
    let mut same = na::SMatrix::<T, R, C>::from_fn(|i, j| m[(i, j)]);
    if cx.r.chance(1, 2) {
        same[(i, j)] = same[(i, j)] + T::one();
    }
    let s: Vec<String> = same.iter().map(|v| v.js()).collect();
    cx.truth("==", &s, m == same);
    cx.truth("== (reversed)", &s, same == m);
    // as one piece of memory
    cx.flat("as_slice", m.as_slice());
}
macro_rules! fields {
    ($cx:ident, $t:ty, [$R:literal, $C:literal, $N:literal], $($f:ident)*) => {{
        let v: Vec<$t> = (0..$N).map(|_| val(&mut $cx.r, 0)).collect();
        $cx.log.begin(&<$t as Sc>::tol(), concat!(stringify!($R), " x ", stringify!($C), " fields"));
        let m = na::Matrix::from_data(MatrixData::new_array::<$R, $C, $N, $t>(std::array::from_fn(|k| v[k])));
        $cx.log.line(&format!("{{\"e\":\"mat\",\"o\":\"m\",\"r\":{},\"c\":{},\"v\":{}}}", $R, $C, vals(&v)));
        $cx.flat("coordinate fields", &[$(m.$f),*]);
    }};
}
fn scenario(c: &mut Cx, f: fn(&mut Cx)) {
    if catch_unwind(AssertUnwindSafe(|| f(c))).is_err() {
        c.log.aborted()
    }
}
fn run<T: Elem>(a: &kh::Args) {
    let mut cx = Cx { log: Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge")), r: Rng::new(a.num("seed", 1) as u64) };
    let c = &mut cx;
    for _ in 0..a.num("n", 4) {
        scenario(c, visit::<T, 1, 1, 1>);
        scenario(c, visit::<T, 1, 4, 4>);
        scenario(c, visit::<T, 5, 1, 5>);
        scenario(c, visit::<T, 2, 2, 4>);
        scenario(c, visit::<T, 2, 3, 6>);
        scenario(c, visit::<T, 3, 2, 6>);
        scenario(c, visit::<T, 3, 3, 9>);
        scenario(c, visit::<T, 4, 3, 12>);
        scenario(c, visit::<T, 3, 5, 15>);
        scenario(c, visit::<T, 6, 4, 24>);
        scenario(c, visit::<T, 2, 7, 14>);
        scenario(c, visit::<T, 2, 3, 9>);
        scenario(c, visit::<T, 4, 2, 9>);
        scenario(c, visit::<T, 1, 3, 7>);
        scenario(c, visit::<T, 3, 1, 4>);
        scenario(c, visit::<T, 2, 3, 4>);
        scenario(c, visit::<T, 3, 2, 5>);
        scenario(c, visit::<T, 3, 3, 1>);
        scenario(c, visit::<T, 4, 1, 2>);
        fields!(c, T, [2, 3, 6], m11 m21 m12 m22 m13 m23);
        fields!(c, T, [3, 2, 7], m11 m21 m31 m12 m22 m32);
        fields!(c, T, [2, 2, 4], m11 m21 m12 m22);
        fields!(c, T, [3, 1, 3], x y z);
        fields!(c, T, [4, 1, 5], x y z w);
    }
    cx.log.flush();
    println!("{} scenarios, {} events", cx.log.scenarios(), cx.log.lines);
}
fn main() {
    let a = kh::args();
    std::panic::set_hook(Box::new(|_| {}));
    kh::gf::set_prime(a.num("prime", 46337) as u32);
    match a.get("scalar").as_str() {
        "gf" => run::<Gf>(&a),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f32" => run::<f32>(&a),
        #[cfg(any(feature = "std", feature = "libm", feature = "micromath"))]
        "f64" => run::<f64>(&a),
        s => panic!("scalar {s}"),
    }
}
