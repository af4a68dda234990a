//! Recorded histories of matrices: arithmetic, access, decomposition, on every pairing of storages.
use crate::kit::{Env, Kit, Store};
use crate::heap;
use crate::log::{esc, vals, Log};
use crate::probe::*;
use crate::rng::Rng;
use crate::scalar::Sc;
use minikalman::matrix::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct W<T: Sc, KA: Kit, KC: Kit, const R: usize, const K: usize, const U: usize> {
    a: KA::M<R, K, T>,
    b: KA::M<K, U, T>,
    bt: KA::M<U, K, T>,
    c: KC::M<R, U, T>,
    x: KA::M<K, 1, T>,
    y: KC::M<R, 1, T>,
    d: KC::M<R, K, T>,
    e: KA::M<R, K, T>,
    sq: KC::M<R, R, T>,
    sq2: KA::M<R, R, T>,
    one: KC::M<1, 1, T>,
    rv: KA::M<1, K, T>,
    rf: MatrixDataRef<'static, R, K, T>,
    rr: MatrixDataRowMajor<K, U, Store<T>, T>,
    rx: MatrixDataRef<'static, K, 1, T>,
}
macro_rules! each {
    ($s:expr, $m:ident, $f:expr) => {{
        let $m = ("A", &$s.a);
        $f;
        let $m = ("B", &$s.b);
        $f;
        let $m = ("Bt", &$s.bt);
        $f;
        let $m = ("C", &$s.c);
        $f;
        let $m = ("x", &$s.x);
        $f;
        let $m = ("y", &$s.y);
        $f;
        let $m = ("D", &$s.d);
        $f;
        let $m = ("E", &$s.e);
        $f;
        let $m = ("S", &$s.sq);
        $f;
        let $m = ("S2", &$s.sq2);
        $f;
        let $m = ("one", &$s.one);
        $f;
        let $m = ("rv", &$s.rv);
        $f;
        let $m = ("ref", &$s.rf);
        $f;
        let $m = ("own", &$s.rr);
        $f;
        let $m = ("refx", &$s.rx);
        $f;
    }};
}
type Snap<T> = Vec<(&'static str, Vec<T>)>;
fn diff<T: Sc>(a: &Snap<T>, b: &Snap<T>) -> String {
    let same = |x: &[T], y: &[T]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.js() == q.js());
    let ch: Vec<_> = a.iter().zip(b).filter(|(p, q)| !same(&p.1, &q.1)).map(|(_, q)| format!("\"{}\":{}", q.0, vals(&q.1))).collect();
    format!("{{{}}}", ch.join(","))
}
fn fresh<T: Sc>(r: &mut Rng, n: usize, e: i32) -> Vec<T> {
    let dense = r.chance(2, 3);
    (0..n).map(|_| if dense && T::EXACT { T::full(r) } else { val(r, e) }).collect()
}
/// A symmetric matrix with known pivots; returns whether decomposing it is exact.
fn symmetric<T: Sc>(r: &mut Rng, n: usize, e: i32) -> (Vec<T>, bool) {
    if T::EXACT && r.chance(1, 4) {
        let mut v = vec![T::zero(); n * n];
        for i in 0..n {
            for j in 0..=i {
                let x = if r.chance(1, 4) { T::zero() } else { T::full(r) };
                v[i * n + j] = x;
                v[j * n + i] = x;
            }
        }
        return (v, true);
    }
    let exact = T::EXACT || r.chance(1, 2);
    let bad = if r.chance(1, 3) { r.us(n) } else { n };
    let mut l = vec![T::zero(); n * n];
    let mut d = vec![T::one(); n];
    for i in 0..n {
        for j in 0..i {
            l[i * n + j] = if T::EXACT { T::full(r) } else if exact { T::dy(r.sym(2), 0) } else { T::full(r) };
        }
        l[i * n + i] = T::one();
        d[i] = if T::EXACT {
            let s = T::full(r);
            if i == bad { T::zero() } else if r.chance(1, 8) { s } else { s * s }
        } else if i == bad {
            // a zero pivot is recognised for certain only when nothing rounds
            if exact && r.chance(1, 2) { T::zero() } else { T::dy(-(1 + r.us(4) as i64), -1) }
        } else if exact {
            T::dy([1, 4][r.us(2)], 0)
        } else {
            T::dy(1, -2) + T::full(r) * T::full(r)
        };
    }
    let q = T::dy(1, 2 * (e / 2));
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = T::zero();
            for k in 0..=j {
                s += l[i * n + k] * d[k] * l[j * n + k];
            }
            v[i * n + j] = s * q;
            v[j * n + i] = s * q;
        }
    }
    (v, exact)
}

#[allow(deprecated)]
pub fn scenario<T: Sc, KA: Kit, KC: Kit, const R: usize, const K: usize, const U: usize>(log: &mut Log, r: &mut Rng, steps: usize, focus: &str) {
    let e = if T::SCALE > 0 { [0, 0, 0, 20, -20, 6, T::SCALE as i32, -T::SCALE as i32][r.us(8)] } else { 0 };
    log.begin(&T::tol(), &format!("{R}x{K}x{U} on {} and {}, 2^{e}", KA::NAME, KC::NAME));
    let mut env = Env::<T>::new(r.fork(), "");
    fn mk<T: Sc, Q: Kit, const R: usize, const C: usize>(env: &mut Env<T>, r: &mut Rng, name: &str, e: i32) -> Q::M<R, C, T> {
        let v = fresh::<T>(r, R * C, e);
        Q::mk::<R, C, T>(env, name, Some(&v))
    }
    let rf: &'static [T] = {
        let v = fresh(r, R * K, e);
        env.lend("ref", Some(&v), R * K)
    };
    let rx: &'static [T] = {
        let v = fresh(r, K, e);
        env.lend("refx", Some(&v), K)
    };
    let rr = {
        let v = fresh(r, K * U, e);
        let extra = r.us(3);
        Store(env.fill(Some(&v), K * U, extra))
    };
    let mut w: W<T, KA, KC, R, K, U> = W {
        a: mk::<T, KA, R, K>(&mut env, r, "A", e),
        b: mk::<T, KA, K, U>(&mut env, r, "B", e),
        bt: mk::<T, KA, U, K>(&mut env, r, "Bt", e),
        c: KC::mk::<R, U, T>(&mut env, "C", None),
        x: mk::<T, KA, K, 1>(&mut env, r, "x", e),
        y: KC::mk::<R, 1, T>(&mut env, "y", None),
        d: KC::mk::<R, K, T>(&mut env, "D", None),
        e: mk::<T, KA, R, K>(&mut env, r, "E", e),
        sq: mk::<T, KC, R, R>(&mut env, r, "S", e),
        sq2: KA::mk::<R, R, T>(&mut env, "S2", None),
        one: mk::<T, KC, 1, 1>(&mut env, r, "one", e),
        rv: mk::<T, KA, 1, K>(&mut env, r, "rv", e),
        rf: MatrixData::new_ref::<R, K, T>(rf),
        rr: MatrixData::new_from::<K, U, T, Store<T>>(rr),
        rx: MatrixData::new_ref::<K, 1, T>(rx),
    };
    // how far values may have grown beyond magnitude one (uninitialised ones: unknown)
    let mut lv: HashMap<&'static str, u32> = HashMap::new();
    for n in ["A", "B", "Bt", "x", "E", "S", "one", "rv", "ref", "own", "refx"] {
        lv.insert(n, 1);
    }
    for n in ["C", "y", "D", "S2"] {
        lv.insert(n, 9);
    }
    let snap = |w: &W<T, KA, KC, R, K, U>| {
        let mut v: Snap<T> = vec![];
        each!(w, m, v.push((m.0, m.1.as_slice().to_vec())));
        v
    };
    fn dims<T, M: Matrix<R, C, T>, const R: usize, const C: usize>(_: &M) -> (usize, usize) {
        (R, C)
    }
    each!(w, m, {
        let (rows, cols) = dims(m.1);
        log.line(&format!("{{\"e\":\"mat\",\"o\":\"{}\",\"r\":{rows},\"c\":{cols},\"v\":{}}}", m.0, vals(m.1.as_slice())));
    });
    let mut fact = false; // S holds a factor
    for _ in 0..steps {
        let before = snap(&w);
        let op = match focus {
            "arith" => r.us(16),
            "access" => 16 + r.us(20),
            "chol" => [36, 37, 37, 38, 38, 38][r.us(6)],
            _ => r.us(39),
        };
        let mut go = |log: &mut Log, w: &mut W<T, KA, KC, R, K, U>, aspect: &str, f: &mut dyn FnMut(&mut W<T, KA, KC, R, K, U>) -> String| -> bool {
            match catch_unwind(AssertUnwindSafe(|| f(w))) {
                Ok(s) => {
                    log.line(&format!("{{{s},\"d\":{}}}", diff(&before, &snap(w))));
                    true
                }
                Err(p) => {
                    let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    log.line(&format!("{{\"e\":\"panic\",\"op\":\"{aspect}\",\"msg\":\"{}\"}}", esc(&msg)));
                    false
                }
            }
        };
        // operands that may have grown too much, or were never written, are written by the user first
        macro_rules! ready {
            ($f:ident $n:literal $max:expr) => {
                if !T::EXACT && lv[$n] > $max {
                    let n = w.$f.as_slice().len().min(dims(&w.$f).0 * dims(&w.$f).1);
                    let v = fresh::<T>(r, n, e);
                    let was = snap(&w);
                    w.$f.as_mut_slice()[..n].copy_from_slice(&v);
                    log.line(&format!("{{\"e\":\"put\",\"o\":\"{}\",\"d\":{}}}", $n, diff(&was, &snap(&w))));
                    lv.insert($n, 1);
                    continue;
                }
            };
        }
        fn ev(op: &str, via: &str, a: &str, b: &str, to: &str) -> String {
            format!("\"e\":\"op\",\"op\":\"{op}\",\"via\":\"{via}\",\"a\":\"{a}\",\"b\":\"{b}\",\"to\":\"{to}\"")
        }
        macro_rules! op {
            ($op:literal, $a:ident $an:literal, $b:ident $bn:literal, $to:literal, $level:expr, |$w:ident| $body:expr) => {{
                let l = $level;
                lv.insert($to, l);
                go(log, &mut w, "arith", &mut |$w| {
                    heap::take();
                    heap::watch(|| $body);
                    format!("{},\"heap\":{}", ev($op, $op, $an, $bn, $to), heap::take())
                })
            }};
        }
        let pick = r.us(3);
        let ok = match op {
            0 => {
                ready!(a "A" 2);
                ready!(b "B" 2);
                if pick == 0 {
                    op!("mult", rf "ref", b "B", "C", 1 + lv["B"], |w| w.rf.mult(&w.b, &mut w.c))
                } else if pick == 1 {
                    op!("mult", a "A", rr "own", "C", lv["A"] + 1, |w| w.a.mult(&w.rr, &mut w.c))
                } else {
                    op!("mult", a "A", b "B", "C", lv["A"] + lv["B"], |w| w.a.mult(&w.b, &mut w.c))
                }
            }
            1 => {
                ready!(d "D" 2);
                ready!(b "B" 2);
                op!("mult", d "D", b "B", "C", lv["D"] + lv["B"], |w| w.d.mult(&w.b, &mut w.c))
            }
            2 | 3 => {
                ready!(a "A" 2);
                ready!(b "B" 2);
                let mut aux: Vec<T> = (0..K).map(|_| T::poison(r)).collect();
                if pick == 0 {
                    op!("mult_buffered", a "A", rr "own", "C", lv["A"] + 1, |w| w.a.mult_buffered(&w.rr, &mut w.c, &mut aux))
                } else {
                    op!("mult_buffered", a "A", b "B", "C", lv["A"] + lv["B"], |w| w.a.mult_buffered(&w.b, &mut w.c, &mut aux))
                }
            }
            4 => {
                ready!(a "A" 2);
                ready!(bt "Bt" 2);
                if pick == 0 {
                    op!("mult_transb", rf "ref", bt "Bt", "C", 1 + lv["Bt"], |w| w.rf.mult_transb(&w.bt, &mut w.c))
                } else {
                    op!("mult_transb", a "A", bt "Bt", "C", lv["A"] + lv["Bt"], |w| w.a.mult_transb(&w.bt, &mut w.c))
                }
            }
            5 => {
                ready!(a "A" 2);
                ready!(e "E" 2);
                op!("mult_transb", a "A", e "E", "S", 4, |w| w.a.mult_transb(&w.e, &mut w.sq))
            }
            6 => {
                ready!(a "A" 2);
                ready!(bt "Bt" 2);
                ready!(c "C" 3);
                op!("multadd_transb", a "A", bt "Bt", "C", 1 + lv["C"].max(lv["A"] + lv["Bt"]), |w| w.a.multadd_transb(&w.bt, &mut w.c))
            }
            7 => {
                ready!(d "D" 2);
                ready!(a "A" 2);
                ready!(sq2 "S2" 3);
                op!("multadd_transb", d "D", a "A", "S2", 5, |w| w.d.multadd_transb(&w.a, &mut w.sq2))
            }
            8 => {
                ready!(a "A" 2);
                ready!(bt "Bt" 2);
                let s = val::<T>(r, 0);
                let l = lv["A"] + lv["Bt"];
                lv.insert("C", l);
                go(log, &mut w, "arith", &mut |w| {
                    w.a.multscale_transb(&w.bt, s, &mut w.c);
                    format!("{},\"s\":{}", ev("multscale_transb", "", "A", "Bt", "C"), s.js())
                })
            }
            9 => {
                ready!(a "A" 2);
                ready!(x "x" 2);
                if pick == 0 {
                    op!("mult_rowvector", a "A", rx "refx", "y", lv["A"] + 1, |w| w.a.mult_rowvector(&w.rx, &mut w.y))
                } else {
                    op!("mult_rowvector", a "A", x "x", "y", lv["A"] + lv["x"], |w| w.a.mult_rowvector(&w.x, &mut w.y))
                }
            }
            10 => {
                ready!(a "A" 2);
                ready!(x "x" 2);
                ready!(y "y" 3);
                op!("multadd_rowvector", a "A", x "x", "y", 1 + lv["y"].max(lv["A"] + lv["x"]), |w| w.a.multadd_rowvector(&w.x, &mut w.y))
            }
            11 => {
                ready!(a "A" 4);
                ready!(e "E" 4);
                if pick == 0 {
                    op!("sub", rf "ref", e "E", "D", 5, |w| w.rf.sub(&w.e, &mut w.d))
                } else {
                    op!("sub", a "A", e "E", "D", 5, |w| w.a.sub(&w.e, &mut w.d))
                }
            }
            12 => {
                ready!(a "A" 4);
                ready!(d "D" 4);
                match pick {
                    0 => op!("add_inplace_a", d "D", a "A", "D", 5, |w| w.d.add_inplace_a(&w.a)),
                    1 => op!("add_inplace_a", a "A", d "D", "A", 5, |w| w.a.add_inplace_a(&w.d)),
                    _ => op!("add_inplace_a", a "A", rf "ref", "A", 5, |w| w.a.add_inplace_a(&w.rf)),
                }
            }
            13 => {
                ready!(a "A" 4);
                ready!(d "D" 4);
                match pick {
                    0 => op!("sub_inplace_a", d "D", a "A", "D", 5, |w| w.d.sub_inplace_a(&w.a)),
                    1 => op!("sub_inplace_b", a "A", d "D", "D", 5, |w| w.a.sub_inplace_b(&mut w.d)),
                    _ => op!("sub_inplace_b", rf "ref", d "D", "D", 5, |w| w.rf.sub_inplace_b(&mut w.d)),
                }
            }
            14 => {
                ready!(a "A" 4);
                ready!(d "D" 4);
                match pick {
                    0 => op!("add_inplace_b", a "A", d "D", "D", 5, |w| w.a.add_inplace_b(&mut w.d)),
                    1 => op!("add_inplace_b", d "D", a "A", "A", 5, |w| w.d.add_inplace_b(&mut w.a)),
                    _ => op!("add_inplace_b", rf "ref", d "D", "D", 5, |w| w.rf.add_inplace_b(&mut w.d)),
                }
            }
            15 => match r.us(6) {
                0 => op!("copy", a "A", d "D", "D", lv["A"], |w| w.a.copy_to(&mut w.d)),
                1 => op!("copy", d "D", a "A", "A", lv["D"], |w| w.d.copy(&mut w.a)),
                2 => op!("copy", rf "ref", d "D", "D", 1, |w| w.rf.copy_to(&mut w.d)),
                3 => op!("copy", e "E", a "A", "D", lv["E"], |w| w.d.copy_from(&w.e)),
                4 => op!("copy", rr "own", b "B", "B", 1, |w| w.rr.copy_to(&mut w.b)),
                _ => op!("copy", sq "S", sq2 "S2", "S2", 9, |w| w.sq.copy_to(&mut w.sq2)),
            },
            16..=25 => {
                let mut q = r.fork();
                let which = r.us(15);
                go(log, &mut w, "access", &mut |w| match which {
                    0 => look::<T, _, R, K>(&w.a, "A", &mut q),
                    1 => look::<T, _, K, U>(&w.b, "B", &mut q),
                    2 => look::<T, _, U, K>(&w.bt, "Bt", &mut q),
                    3 => look::<T, _, R, U>(&w.c, "C", &mut q),
                    4 => look::<T, _, K, 1>(&w.x, "x", &mut q),
                    5 => look::<T, _, R, 1>(&w.y, "y", &mut q),
                    6 => look::<T, _, R, K>(&w.d, "D", &mut q),
                    7 => look::<T, _, R, K>(&w.e, "E", &mut q),
                    8 => look::<T, _, R, R>(&w.sq, "S", &mut q),
                    9 => look::<T, _, R, R>(&w.sq2, "S2", &mut q),
                    10 => look::<T, _, 1, 1>(&w.one, "one", &mut q),
                    11 => look::<T, _, 1, K>(&w.rv, "rv", &mut q),
                    12 => look::<T, _, R, K>(&w.rf, "ref", &mut q),
                    13 => look::<T, _, K, U>(&w.rr, "own", &mut q),
                    _ => look::<T, _, K, 1>(&w.rx, "refx", &mut q),
                })
            }
            26..=32 => {
                let mut q = r.fork();
                let s = val::<T>(r, e);
                let which = r.us(12);
                if which == 8 {
                    fact = false;
                }
                go(log, &mut w, "access", &mut |w| match which {
                    0 => touch::<T, _, R, K>(&mut w.a, "A", &mut q, s),
                    1 => touch::<T, _, K, U>(&mut w.b, "B", &mut q, s),
                    2 => touch::<T, _, U, K>(&mut w.bt, "Bt", &mut q, s),
                    3 => touch::<T, _, R, U>(&mut w.c, "C", &mut q, s),
                    4 => touch::<T, _, K, 1>(&mut w.x, "x", &mut q, s),
                    5 => touch::<T, _, R, 1>(&mut w.y, "y", &mut q, s),
                    6 => touch::<T, _, R, K>(&mut w.d, "D", &mut q, s),
                    7 => touch::<T, _, R, K>(&mut w.e, "E", &mut q, s),
                    8 => touch::<T, _, R, R>(&mut w.sq, "S", &mut q, s),
                    9 => touch::<T, _, R, R>(&mut w.sq2, "S2", &mut q, s),
                    10 => touch::<T, _, 1, 1>(&mut w.one, "one", &mut q, s),
                    _ => touch::<T, _, 1, K>(&mut w.rv, "rv", &mut q, s),
                })
            }
            33 => {
                // vectors and scalars
                let (i, s, which) = (r.us(K), val::<T>(r, e), r.us(6));
                let out = |rw: &str, via: &str, a: &str, i: usize, j: usize, v: T| {
                    if rw == "read" {
                        format!("\"e\":\"read\",\"op\":\"element\",\"via\":\"{via}\",\"a\":\"{a}\",\"i\":{i},\"j\":{j},\"v\":{}", vals(&[v]))
                    } else {
                        format!("\"e\":\"write\",\"op\":\"element\",\"via\":\"{via}\",\"a\":\"{a}\",\"i\":{i},\"j\":{j},\"s\":{}", v.js())
                    }
                };
                go(log, &mut w, "access", &mut |w| match which {
                    0 => out("read", "get_value", "one", 0, 0, w.one.get_value()),
                    1 => out("read", "get_row", "x", i, 0, w.x.get_row(i)),
                    2 => out("read", "get_col", "rv", 0, i, w.rv.get_col(i)),
                    3 => {
                        w.one.set_value(s);
                        out("write", "set_value", "one", 0, 0, s)
                    }
                    4 => {
                        w.x.set_row(i, s);
                        out("write", "set_row", "x", i, 0, s)
                    }
                    _ => {
                        w.rv.set_col(i, s);
                        out("write", "set_col", "rv", 0, i, s)
                    }
                })
            }
            34 | 35 => {
                let mut q = r.fork();
                let (s, off) = (val::<T>(r, e), val::<T>(r, e));
                let second = r.chance(1, 2);
                fact = fact && second;
                go(log, &mut w, "access", &mut |w| if second { square(&mut w.sq2, "S2", &mut q, s, off) } else { square(&mut w.sq, "S", &mut q, s, off) })
            }
            36 | 37 => {
                let (v, exact) = symmetric::<T>(r, R, e);
                w.sq.as_mut_slice()[..R * R].copy_from_slice(&v);
                log.line(&format!("{{\"e\":\"put\",\"o\":\"S\",\"d\":{}}}", diff(&before, &snap(&w))));
                let was = snap(&w);
                lv.insert("S", 9);
                heap::take();
                match catch_unwind(AssertUnwindSafe(|| heap::watch(|| w.sq.cholesky_decompose_lower()))) {
                    Ok(ret) => {
                        fact = ret;
                        let heap = heap::take();
                        log.line(&format!("{{\"e\":\"chol\",\"a\":\"S\",\"exact\":{exact},\"ret\":{ret},\"heap\":{heap},\"d\":{}}}", diff(&was, &snap(&w))));
                        true
                    }
                    Err(_) => {
                        log.line("{\"e\":\"panic\",\"op\":\"chol\",\"msg\":\"cholesky_decompose_lower\"}");
                        false
                    }
                }
            }
            _ => {
                if !fact {
                    continue;
                }
                lv.insert("S2", 9);
                if pick == 0 {
                    // stale contents of the destination
                    for k in 0..R * R {
                        w.sq2.as_mut_slice()[k] = T::poison(r);
                    }
                    log.line(&format!("{{\"e\":\"put\",\"o\":\"S2\",\"d\":{}}}", diff(&before, &snap(&w))));
                    let was = snap(&w);
                    match catch_unwind(AssertUnwindSafe(|| w.sq.invert_l_cholesky(&mut w.sq2))) {
                        Ok(()) => {
                            log.line(&format!("{{\"e\":\"inv\",\"a\":\"S\",\"to\":\"S2\",\"d\":{}}}", diff(&was, &snap(&w))));
                            true
                        }
                        Err(_) => {
                            log.line("{\"e\":\"panic\",\"op\":\"inv\",\"msg\":\"invert_l_cholesky\"}");
                            false
                        }
                    }
                } else {
                    go(log, &mut w, "inv", &mut |w| {
                        heap::take();
                        heap::watch(|| w.sq.invert_l_cholesky(&mut w.sq2));
                        format!("\"e\":\"inv\",\"a\":\"S\",\"to\":\"S2\",\"heap\":{}", heap::take())
                    })
                }
            }
        };
        if op == 5 {
            fact = false;
        }
        if !ok {
            break;
        }
    }
    drop(w);
    let fin: Vec<_> = env
        .lent
        .iter()
        .map(|(n, p, len, ext, was)| {
            // SAFETY: the borrower is gone
            let v = unsafe { Vec::from_raw_parts(*p, *len, *len) };
            (n.clone(), v, *ext, was.clone())
        })
        .collect();
    if !fin.is_empty() {
        let join = |f: &dyn Fn(&(String, Vec<T>, usize, Vec<T>)) -> String| fin.iter().map(|x| format!("\"{}\":{}", x.0, f(x))).collect::<Vec<_>>().join(",");
        log.line(&format!(
            "{{\"e\":\"final\",\"b\":{{{}}},\"n\":{{{}}},\"was\":{{{}}}}}",
            join(&|x| vals(&x.1)),
            join(&|x| x.2.to_string()),
            join(&|x| vals(&x.3))
        ));
    }
}
