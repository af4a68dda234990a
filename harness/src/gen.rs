//! Random models: exact field elements, or well-conditioned numbers in range of the type.
use crate::rng::Rng;
use crate::scalar::Sc;

/// Powers of two by which the units of a problem are scaled (all zero for most types).
#[derive(Clone, Default)]
pub struct Units {
    pub state: Vec<i32>,
    pub meas: i32,
    pub ctl: i32,
    /// whether covariances and measurements may be of another magnitude, too
    pub wild: bool,
}
impl Units {
    pub fn none(s: usize) -> Units {
        Units { state: vec![0; s], meas: 0, ctl: 0, wild: false }
    }
    pub fn pick<T: Sc>(r: &mut Rng, s: usize) -> Units {
        if T::SCALE == 0 || r.chance(1, 2) {
            return Units { wild: true, ..Units::none(s) };
        }
        let k = [1, 6, 20, T::SCALE][r.us(4)];
        let base = r.sym(k) as i32;
        let uniform = r.chance(1, 2);
        Units {
            state: (0..s).map(|_| if uniform { base } else { r.sym(k) as i32 }).collect(),
            meas: if uniform { base } else { r.sym(k) as i32 },
            ctl: r.sym(k) as i32,
            wild: true,
        }
    }
}
fn scaled<T: Sc>(v: T, e: i32) -> T {
    if e == 0 {
        v
    } else {
        v * T::dy(1, e)
    }
}

/// A number of magnitude at most `2^(hi)`: zero, a small integer, a short dyadic or a full mantissa.
fn num<T: Sc>(r: &mut Rng, style: u64) -> T {
    if T::EXACT {
        return match style {
            0 => T::dy(r.sym(2), 0),
            1 => if r.chance(1, 3) { T::full(r) } else { T::dy(0, 0) },
            _ => T::full(r),
        };
    }
    match style {
        0 => T::dy(r.sym(2), -1),
        1 => if r.chance(1, 3) { T::dy(r.sym(64), -6) } else { T::dy(0, 0) },
        2 => T::dy(r.sym(64), -6),
        _ => T::full(r),
    }
}
/// A matrix with some structure, which a shortcut might rely on: with elements in [-1, 1].
fn shaped<T: Sc>(r: &mut Rng, rows: usize, cols: usize) -> Vec<T> {
    let (zero, one) = (T::dy(0, 0), T::dy(1, 0));
    if rows * cols == 0 {
        return vec![];
    }
    let style = r.below(5);
    let (a, b) = (r.us(rows), r.us(cols));
    let mut m: Vec<T> = (0..rows * cols).map(|_| num(r, style)).collect();
    let each = |m: Vec<T>, f: &dyn Fn(usize, usize, T) -> T| -> Vec<T> { m.into_iter().enumerate().map(|(k, v)| f(k / cols, k % cols, v)).collect() };
    let id = |i: usize, j: usize| if i == j { one } else { zero };
    match r.below(16) {
        // unit triangular
        0 => each(m, &|i, j, v| if i > j { v } else { id(i, j) }),
        1 => each(m, &|i, j, v| if i < j { v } else { id(i, j) }),
        // the identity but for one element, one row, one column
        2 => each(m, &|i, j, v| if (i, j) == (a, b) { v } else { id(i, j) }),
        3 => each(m, &|i, j, v| if i == a { v } else { id(i, j) }),
        4 => each(m, &|i, j, v| if j == b { v } else { id(i, j) }),
        // a single element
        5 => each(m, &|i, j, v| if (i, j) == (a, b) { v } else { zero }),
        // zero in one row, one column, one element
        6 => each(m, &|i, _, v| if i == a { zero } else { v }),
        7 => each(m, &|_, j, v| if j == b { zero } else { v }),
        8 => each(m, &|i, j, v| if (i, j) == (a, b) { zero } else { v }),
        // equal rows
        9 => {
            for i in 0..rows {
                for j in 0..cols {
                    m[i * cols + j] = m[a * cols + j];
                }
            }
            m
        }
        // diagonal, bidiagonal, strictly triangular, one value, symmetric
        10 => each(m, &|i, j, v| if i == j { v } else { zero }),
        11 => each(m, &|i, j, v| if i == j || i + 1 == j { v } else { zero }),
        12 => each(m, &|i, j, v| if i > j { v } else { zero }),
        13 => vec![m[0]; rows * cols],
        14 if rows == cols => {
            mirror(&mut m, rows);
            m
        }
        // one selected component per row
        _ => (0..rows).flat_map(|_| { let s = r.us(cols); (0..cols).map(move |j| if j == s { one } else { zero }) }).collect(),
    }
}
/// A general matrix with entries in [-1, 1].
pub fn mat<T: Sc>(r: &mut Rng, rows: usize, cols: usize) -> Vec<T> {
    let style = r.below(5);
    if r.chance(1, 3) {
        return shaped(r, rows, cols);
    }
    match r.below(12) {
        0 => vec![T::dy(0, 0); rows * cols],
        1 => (0..rows * cols).map(|k| T::dy((k / cols == k % cols) as i64, 0)).collect(),
        2 => (0..rows * cols).map(|k| if (k / cols + 1) % rows.max(1) == k % cols { num(r, 4) } else { T::dy(0, 0) }).collect(),
        3 => (0..rows * cols).map(|k| if k / cols <= k % cols { num(r, style) } else { T::dy(0, 0) }).collect(),
        _ => (0..rows * cols).map(|_| num(r, style)).collect(),
    }
}
pub fn vec<T: Sc>(r: &mut Rng, n: usize) -> Vec<T> {
    let style = r.below(5);
    if r.chance(1, 12) {
        return vec![T::dy(0, 0); n];
    }
    if r.chance(1, 6) {
        return shaped(r, n, 1);
    }
    (0..n).map(|_| num(r, style)).collect()
}
/// A state transition that keeps numbers in range over a history.
pub fn trans<T: Sc>(r: &mut Rng, n: usize) -> Vec<T> {
    if T::EXACT {
        return mat(r, n, n);
    }
    let sh = [0, 1, 2, 2, 3, 3, 3, 3, 3][n.min(8)];
    let style = r.below(5);
    match r.below(6) {
        0 | 5 => mat(r, n, n).iter().map(|v: &T| *v * T::dy(1, -sh)).collect(),
        1 => (0..n * n).map(|k| T::dy((k / n == k % n) as i64, 0)).collect(),
        2 => (0..n * n).map(|k| if (k / n + 1) % n == k % n { T::dy(if r.chance(1, 2) { -1 } else { 1 }, 0) } else { T::dy(0, 0) }).collect(),
        // as of a moving body: the identity and something above the diagonal
        3 => shaped::<T>(r, n, n).into_iter().enumerate().map(|(k, v)| if k / n == k % n { T::dy(1, 0) } else if k / n < k % n { v * T::dy(1, -1) } else { T::dy(0, 0) }).collect(),
        _ => (0..n * n)
            .map(|k| {
                let v = num::<T>(r, style) * T::dy(1, -sh - 1);
                if k / n == k % n { T::dy(1, 0) + v * T::dy(1, -1) } else { v }
            })
            .collect(),
    }
}
fn mirror<T: Sc>(m: &mut [T], n: usize) {
    for i in 0..n {
        for j in 0..i {
            m[i * n + j] = m[j * n + i];
        }
    }
}
/// A symmetric matrix: anything in the field, positive semidefinite (if `pd`, definite) numbers.
pub fn sym<T: Sc>(r: &mut Rng, n: usize, pd: bool) -> Vec<T> {
    let z = T::dy(0, 0);
    if T::EXACT {
        let mut m: Vec<T> = match r.below(10) {
            0 if !pd => vec![z; n * n],
            3 | 4 => shaped(r, n, n),
            1 => (0..n * n).map(|k| if k / n == k % n { T::full(r) } else { z }).collect(),
            2 => (0..n * n).map(|k| T::dy((k / n == k % n) as i64, 0)).collect(),
            _ => (0..n * n).map(|_| T::full(r)).collect(),
        };
        mirror(&mut m, n);
        return m;
    }
    if n > 0 && r.chance(1, 5) {
        // nearly diagonal: one pair correlated, or one component known exactly
        let mut m = vec![z; n * n];
        for i in 0..n {
            m[i * n + i] = if r.chance(1, 2) { T::dy(1, 0) } else { T::dy(1, 0) + T::full(r) * T::dy(1, -2) };
        }
        let (a, b) = (r.us(n), r.us(n));
        if a != b {
            m[a * n + b] = T::full(r) * T::dy(1, -2);
            m[b * n + a] = m[a * n + b];
        } else if !pd {
            m[a * n + a] = z;
        }
        return m;
    }
    match r.below(if pd { 5 } else { 8 }) {
        // diagonally dominant, full mantissas
        0 | 1 => {
            let mut m: Vec<T> = (0..n * n)
                .map(|k| if k / n == k % n { T::dy(1, 0) + T::full(r) * T::dy(1, -2) } else { T::full(r) * T::dy(1, -3) })
                .collect();
            mirror(&mut m, n);
            for i in 0..n {
                m[i * n + i] = m[i * n + i] + T::dy(n as i64 - 1, -3);
            }
            m
        }
        2 => (0..n * n).map(|k| if k / n == k % n { T::dy(16 + r.below(64) as i64, -5) } else { z }).collect(),
        // Gram matrices; without the shift they may be singular
        k => {
            let rank = if k == 5 { 1 } else { n };
            let g: Vec<i64> = (0..n * rank).map(|_| r.sym(16)).collect();
            let shift = if pd || k == 3 { 64 } else { 0 };
            let mut m = vec![z; n * n];
            if k == 6 {
                return m;
            }
            for i in 0..n {
                for j in 0..n {
                    let s: i64 = (0..rank).map(|q| g[i * rank + q] * g[j * rank + q]).sum();
                    m[i * n + j] = T::dy(s + if i == j { shift } else { 0 }, -9);
                }
            }
            m
        }
    }
}

#[derive(Clone)]
pub struct FInit<T> {
    pub x: Vec<T>,
    pub a: Vec<T>,
    pub p: Vec<T>,
    pub q: Vec<T>,
}
#[derive(Clone)]
pub struct CInit<T> {
    pub b: Vec<T>,
    pub u: Vec<T>,
    pub q: Vec<T>,
}
#[derive(Clone)]
pub struct OInit<T> {
    pub h: Vec<T>,
    pub z: Vec<T>,
    pub r: Vec<T>,
}
/// One buffer of an object of the given kind, in the units of the problem.
pub fn buffer<T: Sc>(r: &mut Rng, u: &Units, b: &str, kind: &str, s: usize, m: usize) -> Vec<T> {
    let st = &u.state;
    let grid = |v: Vec<T>, cols: usize, e: &dyn Fn(usize, usize) -> i32| -> Vec<T> {
        v.into_iter().enumerate().map(|(k, x)| scaled(x, e(k / cols.max(1), k % cols.max(1)))).collect()
    };
    // now and then much more, or much less, than usual
    let off = |r: &mut Rng, least: i64, most: i64| -> i32 {
        if T::EXACT || !u.wild || !r.chance(1, 8) {
            return 0;
        }
        let (least, most) = if T::SCALE > 0 { (least, most) } else { (least.max(-3), most.min(2)) };
        (least + r.below((most - least + 1) as u64) as i64) as i32
    };
    match (kind, b) {
        (_, "x") => grid(vec(r, s), 1, &|i, _| st[i]),
        (_, "A") => grid(trans(r, s), s, &|i, j| st[i] - st[j]),
        (_, "P") => {
            let e = off(r, -10, 10);
            grid(sym(r, s, false), s, &|i, j| st[i] + st[j] + e)
        }
        ("ctl", "Q") => grid(sym(r, m, false), m, &|_, _| 2 * u.ctl),
        (_, "Q") => grid(sym(r, s, false), s, &|i, j| st[i] + st[j]),
        (_, "B") => grid(mat(r, s, m), m, &|i, _| st[i] - u.ctl),
        (_, "u") => grid(vec(r, m), 1, &|_, _| u.ctl),
        (_, "z") => {
            let e = off(r, 0, 8);
            grid(vec(r, m), 1, &|_, _| u.meas + e)
        }
        (_, "H") => grid(mat(r, m, s), s, &|_, j| u.meas - st[j]),
        (_, "R") => {
            let e = off(r, -10, 10);
            grid(sym(r, m, true), m, &|_, _| 2 * u.meas + e)
        }
        _ => unreachable!("{kind} {b}"),
    }
}
impl<T: Sc> FInit<T> {
    pub fn gen(r: &mut Rng, u: &Units, s: usize) -> Self {
        let mut g = |b| buffer(r, u, b, "reg", s, 0);
        FInit { x: g("x"), a: g("A"), p: g("P"), q: g("Q") }
    }
}
impl<T: Sc> CInit<T> {
    pub fn gen(r: &mut Rng, u: &Units, s: usize, m: usize) -> Self {
        let mut g = |b| buffer(r, u, b, "ctl", s, m);
        CInit { b: g("B"), u: g("u"), q: g("Q") }
    }
}
impl<T: Sc> OInit<T> {
    pub fn gen(r: &mut Rng, u: &Units, s: usize, m: usize) -> Self {
        let mut g = |b| buffer(r, u, b, "obs", s, m);
        OInit { h: g("H"), z: g("z"), r: g("R") }
    }
}
