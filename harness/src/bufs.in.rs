// Construction of buffers: every role, every constructor, storages of every length.
#[allow(unused_imports)]
use kh::gf::Gf;
use kh::kit::Store;
use kh::log::{esc, vals, Log};
use kh::probe::*;
use kh::rng::Rng;
use kh::scalar::Sc;
use minikalman::buffers::types::*;
use minikalman::matrix::*;
use minikalman::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Cx<T: 'static> {
    log: Log,
    r: Rng,
    lent: Vec<(*mut T, usize, Vec<T>)>,
}
const GUARD: usize = 5;
#[derive(Clone)]
struct Meta<T> {
    role: &'static str,
    dims: (usize, usize, usize),
    how: &'static str,
    via: String,
    given: Vec<T>,
    init: T,
}
/// Are sizes checked by a constructor of this sort in this build?
fn checking(how: &str) -> bool {
    let on = !cfg!(feature = "no_assert");
    match how {
        "checked" => on && cfg!(debug_assertions),
        _ => on,
    }
}
impl<T: Sc> Cx<T> {
    fn begin(&mut self, what: &str) {
        self.log.begin(&T::tol(), what)
    }
    fn given(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| val::<T>(&mut self.r, 0)).collect()
    }
    /// A slice in the middle of a larger allocation.
    fn lend(&mut self, v: &[T]) -> &'static mut [T] {
        let mut all = self.given(GUARD);
        all.extend_from_slice(v);
        all.extend(self.given(GUARD));
        let b = all.clone().into_boxed_slice();
        let p = Box::into_raw(b) as *mut T;
        self.lent.push((p, v.len(), all));
        // SAFETY: the allocation lives until `returned`, when its borrower is gone
        unsafe { std::slice::from_raw_parts_mut(p.add(GUARD), v.len()) }
    }
    fn returned(&mut self, name: &str) {
        for (p, n, was) in std::mem::take(&mut self.lent) {
            // SAFETY: made by `lend`
            let now = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, n + 2 * GUARD)) };
            let around = |v: &[T]| [&v[..GUARD], &v[n + GUARD..]].concat();
            self.log.line(&format!("{{\"e\":\"guard\",\"a\":\"{name}\",\"was\":{},\"now\":{}}}", vals(&around(&was)), vals(&around(&now))));
        }
    }
    /// Reports a construction and what the buffer says about itself.
    fn report<B: Matrix<R, C, T>, const R: usize, const C: usize>(&mut self, m: &Meta<T>, name: &str, b: Option<&B>, iq: Option<[usize; 3]>) {
        let (v, q) = match b {
            None => (vec![], vec![]),
            Some(b) => (
                b.as_slice().to_vec(),
                vec![RowMajorSequentialData::len(b), b.buffer_len(), RowMajorSequentialData::is_empty(b) as usize, RowMajorSequentialData::is_valid(b) as usize, b.rows(), b.cols()],
            ),
        };
        let d = m.dims;
        self.log.line(&format!(
            "{{\"e\":\"buf\",\"o\":\"{name}\",\"role\":\"{}\",\"S\":{},\"C\":{},\"M\":{},\"how\":\"{}\",\"via\":\"{}\",\"checking\":{},\"given\":{},\"init\":{},\"ok\":{},\"v\":{},\"q\":{q:?},\"iq\":{:?}}}",
            m.role, d.0, d.1, d.2, m.how, esc(&m.via), checking(m.how), vals(&m.given), m.init.js(), b.is_some(), vals(&v), iq.map(|q| q.to_vec()).unwrap_or_default()
        ));
    }
    fn event(&mut self, s: &str, d: &str) {
        self.log.line(&format!("{{{s},\"d\":{d}}}"));
    }
    /// Attempts to read outside of the storage.
    fn outside_ro<B: Matrix<R, C, T>, const R: usize, const C: usize>(&mut self, name: &str, b: &B) {
        let have = b.buffer_len();
        for k in 0..3 {
            let pos = have + if k == 0 { 0 } else { self.r.us(8) };
            let (i, j) = if C == 0 { (0, pos) } else { (pos / C, pos % C) };
            let which = self.r.us(3);
            let (via, res) = match which {
                0 => ("[]", catch_unwind(AssertUnwindSafe(|| b[pos]))),
                1 => ("get_at", catch_unwind(AssertUnwindSafe(|| b.get_at(i, j)))),
                _ => ("get", catch_unwind(AssertUnwindSafe(|| b.get(i, j)))),
            };
            self.event(&format!("\"e\":\"beyond\",\"a\":\"{name}\",\"via\":\"{via}\",\"i\":{pos},\"ok\":{}", res.is_ok()), "{}");
        }
    }
    fn ro<B: Matrix<R, C, T>, const R: usize, const C: usize>(&mut self, name: &str, b: &B) {
        if R * C > 0 && b.buffer_len() >= R * C {
            for _ in 0..5 {
                let s = look::<T, B, R, C>(b, name, &mut self.r);
                self.event(&s, "{}");
            }
        } else if b.buffer_len() > 0 && C > 0 {
            for _ in 0..2 {
                let k = self.r.us(b.buffer_len().min(R * C));
                let (i, j) = (k / C, k % C);
                let v = b.get_at(i, j);
                self.event(&format!("\"e\":\"read\",\"op\":\"element\",\"via\":\"get_at\",\"a\":\"{name}\",\"i\":{i},\"j\":{j},\"v\":{}", vals(&[v])), "{}");
            }
        }
        self.outside_ro(name, b);
    }
    /// Uses buffers that exist at the same time.
    fn rw<B: MatrixMut<R, C, T>, const R: usize, const C: usize>(&mut self, bs: &mut [(&str, &mut B)]) {
        let snap = |bs: &[(&str, &mut B)]| bs.iter().map(|b| b.1.as_slice().to_vec()).collect::<Vec<_>>();
        let diff = |bs: &[(&str, &mut B)], was: &[Vec<T>], now: &[Vec<T>]| {
            let ch: Vec<String> = (0..bs.len()).filter(|k| was[*k].len() != now[*k].len() || was[*k].iter().zip(&now[*k]).any(|(a, b)| !a.same(*b))).map(|k| format!("\"{}\":{}", bs[k].0, vals(&now[k]))).collect();
            format!("{{{}}}", ch.join(","))
        };
        let fits = R * C > 0 && bs[0].1.buffer_len() >= R * C;
        for _ in 0..if fits { 8 } else { 0 } {
            let k = self.r.us(bs.len());
            let was = snap(bs);
            let s = if self.r.chance(1, 2) {
                look::<T, B, R, C>(bs[k].1, bs[k].0, &mut self.r)
            } else {
                let v = val::<T>(&mut self.r, 0);
                touch::<T, B, R, C>(bs[k].1, bs[k].0, &mut self.r, v)
            };
            let d = diff(bs, &was, &snap(bs));
            self.event(&s, &d);
        }
        if !fits {
            self.ro::<B, R, C>(bs[0].0, bs[0].1);
        }
        let have = bs[0].1.buffer_len();
        for k in 0..3 {
            let pos = have + if k == 0 { 0 } else { self.r.us(8) };
            let (i, j) = if C == 0 { (0, pos) } else { (pos / C, pos % C) };
            let was = snap(bs);
            let v = val::<T>(&mut self.r, 0);
            let which = self.r.us(3);
            let b = &mut *bs[0].1;
            let (via, res) = match which {
                0 => ("[] =", catch_unwind(AssertUnwindSafe(|| b[pos] = v))),
                1 => ("set_at", catch_unwind(AssertUnwindSafe(|| b.set_at(i, j, v)))),
                _ => ("set", catch_unwind(AssertUnwindSafe(|| b.set(i, j, v)))),
            };
            let d = diff(bs, &was, &snap(bs));
            self.event(&format!("\"e\":\"beyond\",\"a\":\"{}\",\"via\":\"{via}\",\"i\":{pos},\"ok\":{}", bs[0].0, res.is_ok()), &d);
        }
        self.outside_ro::<B, R, C>(bs[0].0, bs[0].1);
    }
    fn inner(&mut self, name: &str, v: &[T]) {
        self.log.line(&format!("{{\"e\":\"inner\",\"a\":\"{name}\",\"v\":{}}}", vals(v)));
    }
}
fn attempt<B>(f: impl FnOnce() -> B) -> Option<B> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// Lengths of storage worth trying for `n` elements.
fn lengths(n: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![n.saturating_sub(1), n, n + 1, r.us(n + 1), n + r.us(9)];
    v.dedup();
    v
}

/// A construction: reported, used, taken apart.
macro_rules! case {
    ($cx:ident, $m:expr, [$R:expr, $C:expr], $use:ident, [$($inner:ident)?], $b:ident, $make:expr, $iq:expr) => {{
        let m: Meta<_> = $m;
        $cx.begin(&format!("{} via {} over {}", m.role, m.via, m.given.len()));
        let made = attempt(|| $make);
        let iq = made.as_ref().map(|$b| { let q: Option<[usize; 3]> = $iq; q }).unwrap_or(None);
        $cx.report::<_, { $R }, { $C }>(&m, "b", made.as_ref(), iq);
        if let Some(b) = made {
            case!(@$use $cx, b, $R, $C);
            $( $inner!($cx, b); )?
            #[allow(unreachable_code, clippy::drop_non_drop)]
            { }
        }
        $cx.returned("b");
    }};
    (@ro $cx:ident, $b:ident, $R:expr, $C:expr) => { $cx.ro::<_, { $R }, { $C }>("b", &$b); };
    // roles: also through the matrix inside
    (@rro $cx:ident, $b:ident, $R:expr, $C:expr) => {
        $cx.ro::<_, { $R }, { $C }>("b", &$b);
        $cx.ro::<_, { $R }, { $C }>("b", $b.as_matrix());
    };
    (@rrw $cx:ident, $b:ident, $R:expr, $C:expr) => {
        case!(@rw $cx, $b, $R, $C);
        $cx.ro::<_, { $R }, { $C }>("b", $b.as_matrix());
        $cx.rw::<_, { $R }, { $C }>(&mut [("b", $b.as_matrix_mut())]);
    };
    (@vrw $cx:ident, $b:ident, $R:expr, $C:expr) => {
        case!(@rrw $cx, $b, $R, $C);
        let was = $b.as_slice().to_vec();
        let all = AsRef::<[_]>::as_ref(&$b).to_vec();
        $cx.inner("b", &all);
        if !was.is_empty() {
            let (k, v) = ($cx.r.us(was.len()), val(&mut $cx.r, 0));
            AsMut::<[_]>::as_mut(&mut $b)[k] = v;
            let now = $b.as_slice().to_vec();
            let d = if was.iter().zip(&now).all(|(a, b)| a.same(*b)) { "{}".to_string() } else { format!("{{\"b\":{}}}", vals(&now)) };
            $cx.event(&format!("\"e\":\"write\",\"op\":\"index\",\"via\":\"as_mut\",\"a\":\"b\",\"i\":{k},\"s\":{}", v.js()), &d);
        }
    };
    (@rw $cx:ident, $b:ident, $R:expr, $C:expr) => { #[allow(unused_mut)] let mut $b = $b; $cx.rw::<_, { $R }, { $C }>(&mut [("b", &mut $b)]); };
}
macro_rules! takes {
    ($cx:ident, $b:ident) => {{
        let v = IntoInnerData::into_inner($b);
        let s: &[_] = AsRef::<[_]>::as_ref(&v);
        $cx.inner("b", s);
    }};
}
macro_rules! array {
    ($v:expr) => {
        arr(&$v)
    };
}
fn arr<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    std::array::from_fn(|i| v[i])
}
/// The type of a role's buffer over a storage.
macro_rules! over {
    ($b:ident [$($d:expr),*] $t:ty, $s:ty) => { $b<$($d,)* $t, $s> };
}
/// Everything about one role with the given buffer types.
macro_rules! role {
    ($cx:ident, $t:ty, $role:literal, $dims:expr, [$R:expr, $C:expr], $mu:ident $d:tt $(, ro $im:ident)? $(, vec $vec:tt)?) => {{
        const NEED: usize = $R * $C;
        let meta = |how: &'static str, via: &str, given: &Vec<$t>| Meta { role: $role, dims: $dims, how, via: via.into(), given: given.clone(), init: <$t as Sc>::dy(0, 0) };
        // borrowed storage
        for n in lengths(NEED, &mut $cx.r) {
            let v = $cx.given(n);
            let s = $cx.lend(&v);
            case!($cx, meta("checked", "From<&mut [T]>", &v), [$R, $C], rrw, [takes], b,
                <over!($mu $d $t, MatrixDataMut<'static, { $R }, { $C }, $t>)>::from(s), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
            $(
                let v = $cx.given(n);
                let s = $cx.lend(&v);
                case!($cx, meta("checked", "read-only From<&[T]>", &v), [$R, $C], rro, [], b,
                    <over!($im $d $t, MatrixDataRef<'static, { $R }, { $C }, $t>)>::from(&*s), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
                let v = $cx.given(n);
                let s = $cx.lend(&v);
                case!($cx, meta("checked", "read-only From<&mut [T]>", &v), [$R, $C], rro, [], b,
                    <over!($im $d $t, MatrixDataRef<'static, { $R }, { $C }, $t>)>::from(s), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
                let v = $cx.given(n);
                let s = $cx.lend(&v);
                case!($cx, meta("unchecked", "read-only new(slice)", &v), [$R, $C], rro, [], b,
                    <over!($im $d $t, _)>::new(MatrixData::new_ref::<{ $R }, { $C }, $t>(s)), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
            )?
            let v = $cx.given(n);
            case!($cx, meta("unchecked", "new(user storage)", &v), [$R, $C], rrw, [takes], b,
                <over!($mu $d $t, _)>::new(MatrixData::new_mut_from::<{ $R }, { $C }, $t, Store<$t>>(Store(v.clone()))), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
        }
        // arrays
        macro_rules! arrays {
            ($N:expr) => {{
                const N: usize = $N;
                role!(@array $cx, $t, meta, N, [$R, $C], $mu $d $(, ro $im)? $(, vec $vec)?);
                let v = $cx.given(N);
                case!($cx, meta("unchecked", "new(array)", &v), [$R, $C], rrw, [takes], b,
                    <over!($mu $d $t, _)>::new(MatrixData::new_array::<{ $R }, { $C }, N, $t>(array!(v))), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
            }};
        }
        arrays!(NEED.saturating_sub(1));
        arrays!(NEED / 2);
        arrays!(NEED);
        arrays!(NEED + 1);
        arrays!(NEED + 6);
    }};
    (@array $cx:ident, $t:ty, $meta:ident, $N:ident, [$R:expr, $C:expr], $mu:ident $d:tt, vec $vec:tt) => {
        if $N == NEED {
            let v = $cx.given(NEED);
            case!($cx, $meta("checked", "From<[T; N]>", &v), [$R, $C], vrw, [takes], b,
                <over!($mu $d $t, MatrixDataArray<{ $R }, { $C }, NEED, $t>)>::from(array!(v)), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
        }
    };
    (@array $cx:ident, $t:ty, $meta:ident, $N:ident, [$R:expr, $C:expr], $mu:ident $d:tt $(, ro $im:ident)?) => {
        let v = $cx.given($N);
        case!($cx, $meta("checked", "From<[T; N]>", &v), [$R, $C], rrw, [takes], b,
            <over!($mu $d $t, MatrixDataArray<{ $R }, { $C }, $N, $t>)>::from(array!(v)), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
        $(
            let v = $cx.given($N);
            case!($cx, $meta("checked", "read-only From<[T; N]>", &v), [$R, $C], rro, [takes], b,
                <over!($im $d $t, MatrixDataArray<{ $R }, { $C }, $N, $t>)>::from(array!(v)), Some([b.len(), b.is_empty() as usize, b.is_valid() as usize]));
        )?
    };
}
/// Plain matrices over every storage.
macro_rules! plain {
    ($cx:ident, $t:ty, [$R:literal, $C:literal]) => {{
        const NEED: usize = $R * $C;
        let meta = |how: &'static str, via: &str, given: &Vec<$t>| Meta { role: "matrix", dims: ($R, 0, $C), how, via: via.into(), given: given.clone(), init: <$t as Sc>::dy(0, 0) };
        for n in lengths(NEED, &mut $cx.r) {
            macro_rules! boxed {
                ($via:literal, $v:ident, $e:expr) => {{
                    let $v = $cx.given(n);
                    case!($cx, meta("strict", $via, &$v), [$R, $C], rw, [takes], b, $e, None);
                }};
            }
            boxed!("Boxed::new(Vec)", v, MatrixDataBoxed::<$R, $C, $t>::new(v.clone()));
            boxed!("Boxed::new(Box)", v, MatrixDataBoxed::<$R, $C, $t>::new(v.clone().into_boxed_slice()));
            boxed!("Boxed::from", v, MatrixDataBoxed::<$R, $C, $t>::from(v.clone()));
            boxed!("new_boxed", v, MatrixData::new_boxed::<$R, $C, $t, Vec<$t>>(v.clone()));
            macro_rules! lent {
                ($via:literal, $use:ident, $s:ident, $e:expr) => {{
                    let v = $cx.given(n);
                    let $s = $cx.lend(&v);
                    case!($cx, meta("unchecked", $via, &v), [$R, $C], $use, [takes], b, $e, None);
                }};
            }
            lent!("Ref::new", ro, s, MatrixDataRef::<$R, $C, $t>::new(s));
            lent!("Ref::from(&)", ro, s, MatrixDataRef::<$R, $C, $t>::from(&*s));
            lent!("Ref::from(&mut)", ro, s, MatrixDataRef::<$R, $C, $t>::from(s));
            lent!("new_ref", ro, s, MatrixData::new_ref::<$R, $C, $t>(s));
            lent!("Mut::new", rw, s, MatrixDataMut::<$R, $C, $t>::new(s));
            lent!("Mut::from", rw, s, MatrixDataMut::<$R, $C, $t>::from(s));
            lent!("new_mut", rw, s, MatrixData::new_mut::<$R, $C, $t>(s));
            let v = $cx.given(n);
            case!($cx, meta("unchecked", "new_from", &v), [$R, $C], ro, [takes], b, MatrixData::new_from::<$R, $C, $t, Store<$t>>(Store(v.clone())), None);
            let v = $cx.given(n);
            case!($cx, meta("unchecked", "new_mut_from", &v), [$R, $C], rw, [takes], b, MatrixData::new_mut_from::<$R, $C, $t, Store<$t>>(Store(v.clone())), None);
            let v = $cx.given(n);
            case!($cx, meta("unchecked", "user storage", &v), [$R, $C], rw, [], b, { let s: Store<$t> = Store(v.clone()); s }, None);
            // borrowed storage handed back as a slice
            let v = $cx.given(n);
            let s = $cx.lend(&v);
            $cx.begin("Ref into slice");
            let b = MatrixDataRef::<$R, $C, $t>::new(s);
            $cx.report::<_, $R, $C>(&meta("unchecked", "Ref::new", &v), "b", Some(&b), None);
            let s: &[$t] = b.into();
            $cx.inner("b", s);
            $cx.returned("b");
            let v = $cx.given(n);
            let s = $cx.lend(&v);
            $cx.begin("Mut into slice");
            let b = MatrixDataMut::<$R, $C, $t>::new(s);
            $cx.report::<_, $R, $C>(&meta("unchecked", "Mut::new", &v), "b", Some(&b), None);
            if $cx.r.chance(1, 2) {
                let s: &[$t] = b.into();
                $cx.inner("b", s);
            } else {
                let s: &mut [$t] = b.into();
                $cx.inner("b", s);
            }
            $cx.returned("b");
        }
        macro_rules! arrays {
            ($N:expr) => {{
                const N: usize = $N;
                macro_rules! array_of {
                    ($how:literal, $via:literal, $v:ident, $e:expr) => {{
                        let $v = $cx.given(N);
                        case!($cx, meta($how, $via, &$v), [$R, $C], rw, [takes], b, $e, None);
                    }};
                }
                array_of!("strict", "Array::new", v, MatrixDataArray::<$R, $C, N, $t>::new(array!(v)));
                array_of!("strict", "Array::from", v, MatrixDataArray::<$R, $C, N, $t>::from(array!(v)));
                array_of!("unchecked", "Array::new_unchecked", v, MatrixDataArray::<$R, $C, N, $t>::new_unchecked(array!(v)));
                array_of!("unchecked", "new_array", v, MatrixData::new_array::<$R, $C, N, $t>(array!(v)));
                let v = $cx.given(N);
                $cx.begin("array out of a matrix");
                let b = MatrixData::new_array::<$R, $C, N, $t>(array!(v));
                $cx.report::<_, $R, $C>(&meta("unchecked", "new_array", &v), "b", Some(&b), None);
                let a: [$t; N] = b.into();
                $cx.inner("b", &a);
            }};
        }
        arrays!(NEED.saturating_sub(1));
        arrays!(NEED / 2);
        arrays!(NEED);
        arrays!(NEED + 1);
        arrays!(NEED + 6);
        let init = val::<$t>(&mut $cx.r, 0);
        let mut m = meta("made", "MatrixData::new", &vec![init; NEED]);
        m.init = init;
        case!($cx, m, [$R, $C], rw, [takes], b, MatrixData::new::<$R, $C, $t>(init), None);
        case!($cx, Meta { role: "matrix", dims: (0, 0, 0), how: "made", via: "MatrixData::empty".into(), given: vec![], init }, [0, 0], rw, [takes], b, MatrixData::empty::<$t>(), None);
    }};
}
fn sizes<T: Sc + 'static>(a: &kh::Args, f: &dyn Fn(&mut Cx<T>)) {
    let mut cx = Cx { log: Log::new(&a.get("out"), &a.get("name"), a.num("files", 8), &a.list("judge")), r: Rng::new(a.num("seed", 1) as u64), lent: vec![] };
    for _ in 0..a.num("n", 1) {
        f(&mut cx);
    }
    cx.log.flush();
    println!("{} scenarios, {} events", cx.log.scenarios(), cx.log.lines);
}
/// Runs a statement in a function of its own, which compiles faster.
macro_rules! apart {
    ($cx:ident, $t:ty, $e:expr) => {{
        fn f($cx: &mut $t) {
            $e
        }
        if catch_unwind(AssertUnwindSafe(|| f($cx))).is_err() {
            $cx.log.aborted();
            $cx.lent.clear();
        }
    }};
}
macro_rules! roles {
    ($t:ty; $($S:literal $I:literal $M:literal),*) => { |cx: &mut Cx<$t>| {
        $({
            const D: (usize, usize, usize) = ($S, $I, $M);
            apart!(cx, Cx<$t>, role!(cx, $t, "x", D, [$S, 1], StateVectorBuffer[$S], vec ()));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_x", D, [$S, 1], PredictedStateEstimateVectorBuffer[$S], vec ()));
            apart!(cx, Cx<$t>, role!(cx, $t, "u", D, [$I, 1], ControlVectorBuffer[$I], vec ()));
            apart!(cx, Cx<$t>, role!(cx, $t, "z", D, [$M, 1], MeasurementVectorBuffer[$M], vec ()));
            apart!(cx, Cx<$t>, role!(cx, $t, "y", D, [$M, 1], InnovationVectorBuffer[$M], vec ()));
            apart!(cx, Cx<$t>, role!(cx, $t, "A", D, [$S, $S], StateTransitionMatrixMutBuffer[$S], ro StateTransitionMatrixBuffer));
            apart!(cx, Cx<$t>, role!(cx, $t, "Q_direct", D, [$S, $S], DirectProcessNoiseCovarianceMatrixMutBuffer[$S], ro DirectProcessNoiseCovarianceMatrixBuffer));
            apart!(cx, Cx<$t>, role!(cx, $t, "Q_control", D, [$I, $I], ControlProcessNoiseCovarianceMatrixMutBuffer[$I], ro ControlProcessNoiseCovarianceMatrixBuffer));
            apart!(cx, Cx<$t>, role!(cx, $t, "B", D, [$S, $I], ControlMatrixMutBuffer[$S, $I], ro ControlMatrixBuffer));
            apart!(cx, Cx<$t>, role!(cx, $t, "H", D, [$M, $S], ObservationMatrixMutBuffer[$M, $S], ro ObservationMatrixBuffer));
            apart!(cx, Cx<$t>, role!(cx, $t, "P", D, [$S, $S], EstimateCovarianceMatrixBuffer[$S]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_P", D, [$S, $S], TemporaryStateMatrixBuffer[$S]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_KHP", D, [$S, $S], TemporaryKHPMatrixBuffer[$S]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_BQ", D, [$S, $I], TemporaryBQMatrixBuffer[$S, $I]));
            apart!(cx, Cx<$t>, role!(cx, $t, "R", D, [$M, $M], MeasurementNoiseCovarianceMatrixBuffer[$M]));
            apart!(cx, Cx<$t>, role!(cx, $t, "S", D, [$M, $M], InnovationCovarianceMatrixBuffer[$M]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_S_inv", D, [$M, $M], TemporaryResidualCovarianceInvertedMatrixBuffer[$M]));
            apart!(cx, Cx<$t>, role!(cx, $t, "K", D, [$S, $M], KalmanGainMatrixBuffer[$S, $M]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_PHt", D, [$S, $M], TemporaryPHTMatrixBuffer[$S, $M]));
            apart!(cx, Cx<$t>, role!(cx, $t, "temp_HP", D, [$M, $S], TemporaryHPMatrixBuffer[$M, $S]));
            apart!(cx, Cx<$t>, plain!(cx, $t, [$S, $M]));
            apart!(cx, Cx<$t>, plain!(cx, $t, [$I, $S]));
        })*
    } };
}

// ------------------------------------------------------------------------------------------ factories
macro_rules! factory {
    ($cx:ident, $t:ty, $role:literal, $dims:expr, [$R:expr, $C:expr], $f:ident [$($d:expr),*]) => {{
        for k in 0..2 {
            let init = if k == 0 { <$t as Sc>::dy(0, 0) } else { val::<$t>(&mut $cx.r, 0) };
            let via = if k == 0 { "new" } else { "new_with" };
            let m = Meta { role: $role, dims: $dims, how: "made", via: format!("{}.{via}", stringify!($f)), given: vec![init; $R * $C], init };
            $cx.begin(&m.via);
            let f = BufferBuilder::$f::<$($d),*>();
            let a = attempt(|| if k == 0 { f.new::<$t>() } else { f.new_with::<$t>(init) });
            let b = attempt(|| if k == 0 { f.new::<$t>() } else { f.new_with::<$t>(init) });
            macro_rules! own { ($x:ident) => { $x.as_ref().map(|$x| [$x.len(), $x.is_empty() as usize, $x.is_valid() as usize]) } }
            let (qa, qb) = (own!(a), own!(b));
            $cx.report::<_, { $R }, { $C }>(&m, "b1", a.as_ref(), qa);
            $cx.report::<_, { $R }, { $C }>(&m, "b2", b.as_ref(), qb);
            if let (Some(mut a), Some(mut b)) = (a, b) {
                $cx.rw::<_, { $R }, { $C }>(&mut [("b1", &mut a), ("b2", &mut b)]);
                for (n, v) in [("b1", a.into_inner()), ("b2", b.into_inner())] {
                    $cx.inner(n, &v);
                }
            }
        }
    }};
}
macro_rules! factories {
    ($t:ty; $($S:literal $I:literal $M:literal),*) => { |cx: &mut Cx<$t>| {
        $({
            const D: (usize, usize, usize) = ($S, $I, $M);
            apart!(cx, Cx<$t>, factory!(cx, $t, "x", D, [$S, 1], state_vector_x[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "A", D, [$S, $S], system_matrix_A[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "P", D, [$S, $S], estimate_covariance_P[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "Q_direct", D, [$S, $S], direct_process_noise_covariance_Q[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "u", D, [$I, 1], control_vector_u[$I]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "B", D, [$S, $I], control_matrix_B[$S, $I]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "Q_control", D, [$I, $I], control_process_noise_covariance_Q[$I]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "z", D, [$M, 1], measurement_vector_z[$M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "H", D, [$M, $S], observation_matrix_H[$M, $S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "R", D, [$M, $M], observation_covariance_R[$M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "y", D, [$M, 1], innovation_vector_y[$M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "S", D, [$M, $M], innovation_covariance_S[$M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "K", D, [$S, $M], kalman_gain_K[$S, $M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_x", D, [$S, 1], state_prediction_temp_x[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_P", D, [$S, $S], temp_system_covariance_P[$S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_BQ", D, [$S, $I], temp_BQ[$S, $I]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_S_inv", D, [$M, $M], temp_S_inv[$M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_HP", D, [$M, $S], temp_HP[$M, $S]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_PHt", D, [$S, $M], temp_PHt[$S, $M]));
            apart!(cx, Cx<$t>, factory!(cx, $t, "temp_KHP", D, [$S, $S], temp_KHP[$S]));
        })*
    } };
}

// --------------------------------------------------------------------------------------- declarations
macro_rules! declared {
    ($cx:ident, $t:ty, $v:expr, $role:literal, $dims:expr, [$R:expr, $C:expr], $mac:ident $size:ident [$($d:expr),*]) => {{
        let init: $t = $v;
        let meta = |form: &str| Meta { role: $role, dims: $dims, how: "made", via: format!("{}!({form})", stringify!($mac)), given: vec![init; $R * $C], init };
        macro_rules! own { ($x:ident) => { Some([$x.len(), $x.is_empty() as usize, $x.is_valid() as usize]) } }
        $cx.begin(stringify!($mac));
        $cx.log.line(&format!("{{\"e\":\"size\",\"role\":\"{}\",\"S\":{},\"C\":{},\"M\":{},\"n\":{}}}", $role, $dims.0, $dims.1, $dims.2, $size!($($d),*)));
        $mac!(b1, $($d,)* $t, $v);
        $cx.report::<_, { $R }, { $C }>(&meta("name"), "b1", Some(&b1), own!(b1));
        $cx.ro::<_, { $R }, { $C }>("b1", &b1);
        $mac!(let b2, $($d,)* $t, $v);
        $cx.report::<_, { $R }, { $C }>(&meta("let"), "b2", Some(&b2), own!(b2));
        $cx.ro::<_, { $R }, { $C }>("b2", &b2);
        $mac!(mut b3, $($d,)* $t, $v);
        $cx.report::<_, { $R }, { $C }>(&meta("mut"), "b3", Some(&b3), own!(b3));
        $mac!(let mut b4, $($d,)* $t, $v);
        $cx.report::<_, { $R }, { $C }>(&meta("let mut"), "b4", Some(&b4), own!(b4));
        $cx.rw::<_, { $R }, { $C }>(&mut [("b3", &mut b3), ("b4", &mut b4), ("b1", &mut { b1 }), ("b2", &mut { b2 })]);
        $cx.inner("b3", &b3.into_inner());
        $mac!(static B5, $($d,)* $t, $v);
        // what is declared as a static lives forever
        fn forever<X>(x: &'static X) -> &'static X {
            x
        }
        $cx.report::<_, { $R }, { $C }>(&meta("static"), "b5", Some(forever(&B5)), own!(B5));
        $cx.ro::<_, { $R }, { $C }>("b5", &B5);
        $mac!(static mut B6, $($d,)* $t, $v);
        // SAFETY: one thread
        #[allow(static_mut_refs)]
        let b6: &'static mut _ = unsafe { &mut B6 };
        if $cx.fresh {
            $cx.report::<_, { $R }, { $C }>(&meta("static mut"), "b6", Some(&*b6), own!(b6));
            $cx.rw::<_, { $R }, { $C }>(&mut [("b6", b6)]);
        }
    }};
}
struct Once<'a, T: 'static> {
    cx: &'a mut Cx<T>,
    /// the statics have not been written yet
    fresh: bool,
}
impl<T> std::ops::Deref for Once<'_, T> {
    type Target = Cx<T>;
    fn deref(&self) -> &Cx<T> {
        self.cx
    }
}
impl<T> std::ops::DerefMut for Once<'_, T> {
    fn deref_mut(&mut self) -> &mut Cx<T> {
        self.cx
    }
}
macro_rules! declarations {
    ($t:ty; $($S:literal $I:literal $M:literal = $v:expr),*) => { |cx: &mut Cx<$t>| {
        static USED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
        let cx = &mut Once { cx, fresh: !USED.swap(true, std::sync::atomic::Ordering::Relaxed) };
        $({
            const D: (usize, usize, usize) = ($S, $I, $M);
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "x", D, [$S, 1], impl_buffer_x size_buffer_x[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "A", D, [$S, $S], impl_buffer_A size_buffer_A[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "P", D, [$S, $S], impl_buffer_P size_buffer_P[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "Q_direct", D, [$S, $S], impl_buffer_Q_direct size_buffer_Q_direct[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "u", D, [$I, 1], impl_buffer_u size_buffer_u[$I]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "B", D, [$S, $I], impl_buffer_B size_buffer_B[$S, $I]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "Q_control", D, [$I, $I], impl_buffer_Q_control size_buffer_Q_control[$I]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "z", D, [$M, 1], impl_buffer_z size_buffer_z[$M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "H", D, [$M, $S], impl_buffer_H size_buffer_H[$M, $S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "R", D, [$M, $M], impl_buffer_R size_buffer_R[$M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "y", D, [$M, 1], impl_buffer_y size_buffer_y[$M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "S", D, [$M, $M], impl_buffer_S size_buffer_S[$M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "K", D, [$S, $M], impl_buffer_K size_buffer_K[$S, $M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_x", D, [$S, 1], impl_buffer_temp_x size_buffer_temp_x[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_P", D, [$S, $S], impl_buffer_temp_P size_buffer_temp_P[$S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_BQ", D, [$S, $I], impl_buffer_temp_BQ size_buffer_temp_BQ[$S, $I]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_S_inv", D, [$M, $M], impl_buffer_temp_S_inv size_buffer_temp_S_inv[$M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_HP", D, [$M, $S], impl_buffer_temp_HP size_buffer_temp_HP[$M, $S]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_PHt", D, [$S, $M], impl_buffer_temp_PHt size_buffer_temp_PHt[$S, $M]));
            apart!(cx, Once<'_, $t>, declared!(cx, $t, $v, "temp_KHP", D, [$S, $S], impl_buffer_temp_KHP size_buffer_temp_KHP[$S]));
        })*
    } };
}
