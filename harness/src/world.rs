//! A small world of filters sharing controls and observations, and recorded runs in it.
use crate::gen::{buffer, Units};
use crate::heap;
use crate::log::{esc, map, vals, Log};
use crate::obj::*;
use crate::rng::Rng;
use crate::scalar::Sc;
use minikalman::prelude::{EstimateCovarianceMatrix, StateVectorMut};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Call<'a, T> {
    pub op: &'a str,
    pub f: &'a str,
    pub o: &'a str,
    pub lam: T,
}
pub type Fun<'a, T> = dyn FnMut(&[T], &mut [T]) + 'a;

/// f1, f2 linear filters; r1 an estimate without a filter; e1, e2 extended filters;
/// c1, c2 controls; o1, o2 linear and n1, n2 nonlinear observations of two sizes.
pub trait World<T: Sc> {
    fn states(&self) -> usize;
    /// inputs or measurements of an object
    fn size(&self, o: &str) -> usize;
    fn obj(&mut self, name: &str) -> &mut dyn Obj<T>;
    fn has(&self, c: &Call<T>) -> bool;
    fn call(&mut self, c: &Call<T>, fun: &mut Fun<T>);
}
pub const NAMES: [(&str, &str); 11] = [
    ("f1", "reg"), ("f2", "reg"), ("r1", "raw"), ("e1", "ext"), ("e2", "ext"),
    ("c1", "ctl"), ("c2", "ctl"), ("o1", "obs"), ("o2", "obs"), ("n1", "eobs"), ("n2", "eobs"),
];
pub fn kind(o: &str) -> &'static str {
    NAMES.iter().find(|n| n.0 == o).unwrap().1
}

pub struct W<F, RX, RP, X, CA, CB, OA, OB, NA, NB, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize> {
    pub f1: F,
    pub f2: F,
    pub r1: Raw<RX, RP, S>,
    pub e1: X,
    pub e2: X,
    pub c1: CA,
    pub c2: CB,
    pub o1: OA,
    pub o2: OB,
    pub n1: NA,
    pub n2: NB,
}
impl<T: Sc, F, RX, RP, X, CA, CB, OA, OB, NA, NB, const S: usize, const C1: usize, const C2: usize, const M1: usize, const M2: usize> World<T>
    for W<F, RX, RP, X, CA, CB, OA, OB, NA, NB, S, C1, C2, M1, M2>
where
    F: Filt<T, S>,
    RX: StateVectorMut<S, T>,
    RP: EstimateCovarianceMatrix<S, T>,
    X: EFilt<T, S>,
    CA: Ctl<T, S>,
    CB: Ctl<T, S>,
    OA: Obs<T, S>,
    OB: Obs<T, S>,
    NA: NObs<T, S, M1>,
    NB: NObs<T, S, M2>,
{
    fn states(&self) -> usize {
        S
    }
    fn size(&self, o: &str) -> usize {
        match o {
            "c1" => C1,
            "c2" => C2,
            "o1" | "n1" => M1,
            "o2" | "n2" => M2,
            _ => 0,
        }
    }
    fn obj(&mut self, name: &str) -> &mut dyn Obj<T> {
        match name {
            "f1" => &mut self.f1,
            "f2" => &mut self.f2,
            "r1" => &mut self.r1,
            "e1" => &mut self.e1,
            "e2" => &mut self.e2,
            "c1" => &mut self.c1,
            "c2" => &mut self.c2,
            "o1" => &mut self.o1,
            "o2" => &mut self.o2,
            "n1" => &mut self.n1,
            "n2" => &mut self.n2,
            _ => panic!("no object {name}"),
        }
    }
    fn has(&self, c: &Call<T>) -> bool {
        match c.f {
            "f1" => self.f1.has(c.op),
            "f2" => self.f2.has(c.op),
            "r1" => !matches!(c.op, "predict" | "tuned"),
            "e1" => self.e1.has(c.op),
            _ => self.e2.has(c.op),
        }
    }
    fn call(&mut self, c: &Call<T>, fun: &mut Fun<T>) {
        macro_rules! lin {
            ($f:expr) => {
                match (c.op, c.o) {
                    ("predict", _) => $f.predict(),
                    ("tuned", _) => $f.tuned(c.lam),
                    ("control", "c1") => $f.control(self.c1.it()),
                    ("control", "c2") => $f.control(self.c2.it()),
                    ("correct", "o1") => $f.correct(self.o1.it()),
                    ("correct", "o2") => $f.correct(self.o2.it()),
                    ("ncorrect", "n1") => $f.ncorrect(self.n1.it(), fun),
                    ("ncorrect", "n2") => $f.ncorrect(self.n2.it(), fun),
                    _ => panic!("no operation {} {}", c.op, c.o),
                }
            };
        }
        macro_rules! ext {
            ($f:expr) => {
                match (c.op, c.o) {
                    ("npredict", _) => $f.npredict(fun),
                    ("ntuned", _) => $f.ntuned(c.lam, fun),
                    ("ncorrect", "n1") => $f.ncorrect(self.n1.it(), fun),
                    ("ncorrect", "n2") => $f.ncorrect(self.n2.it(), fun),
                    _ => panic!("no operation {} {}", c.op, c.o),
                }
            };
        }
        match c.f {
            "f1" => lin!(self.f1),
            "f2" => lin!(self.f2),
            "r1" => {
                let (x, p) = (&mut self.r1.0, &mut self.r1.1);
                match (c.op, c.o) {
                    ("control", "c1") => self.c1.direct(x, p),
                    ("control", "c2") => self.c2.direct(x, p),
                    ("correct", "o1") => self.o1.direct(x, p),
                    ("correct", "o2") => self.o2.direct(x, p),
                    ("ncorrect", "n1") => self.n1.direct(x, p, fun),
                    ("ncorrect", "n2") => self.n2.direct(x, p, fun),
                    _ => panic!("no operation {} {}", c.op, c.o),
                }
            }
            "e1" => ext!(self.e1),
            _ => ext!(self.e2),
        }
    }
}

/// What a user's function computes: `ret[i] = c[i] + sum_j w[i][j] x[j] + q x[i] x[i+1]`.
#[derive(Clone)]
pub struct UserFn<T> {
    pub c: Vec<T>,
    pub w: Vec<T>,
    pub q: T,
}
impl<T: Sc> UserFn<T> {
    pub fn none() -> Self {
        UserFn { c: vec![], w: vec![], q: T::dy(0, 0) }
    }
    pub fn eval(&self, x: &[T], ret: &mut [T]) {
        let s = x.len();
        for i in 0..ret.len() {
            let mut v = self.c[i];
            if !self.w.is_empty() {
                for j in 0..s {
                    v = v + self.w[i * s + j] * x[j];
                }
                v = v + self.q * x[i % s] * x[(i + 1) % s];
            }
            ret[i] = v;
        }
    }
}

/// One concrete step of a run.
#[derive(Clone)]
pub enum Step<T> {
    Set { b: String, v: Vec<T> },
    Call { op: String, f: String, o: String, lam: T, lams: String, fun: UserFn<T> },
}

pub struct Run<'a, T: Sc> {
    pub log: &'a mut Log,
    pub w: Box<dyn World<T>>,
    pub mem: BTreeMap<String, Vec<T>>,
    /// a call panicked: the world is not to be used any more
    pub dead: bool,
    pub only: Vec<String>,
}
impl<'a, T: Sc> Run<'a, T> {
    /// Announces the objects `only` (all, if empty) of the world.
    pub fn new(log: &'a mut Log, w: Box<dyn World<T>>, only: &[&str]) -> Self {
        let mut r = Run { log, w, mem: BTreeMap::new(), dead: false, only: only.iter().map(|s| s.to_string()).collect() };
        for (o, k) in NAMES {
            if !r.sees(o) {
                continue;
            }
            let bufs = r.w.obj(o).bufs();
            let (s, m) = (r.w.states(), r.w.size(o));
            let named: Vec<(String, Vec<T>)> = bufs.into_iter().map(|(b, v)| (format!("{o}.{b}"), v)).collect();
            let ext: Vec<String> = named.iter().map(|(n, _)| format!("\"{n}\":{}", extent(n, s, m))).collect();
            r.log.line(&format!(
                "{{\"e\":\"new\",\"o\":\"{o}\",\"k\":\"{k}\",\"S\":{s},\"M\":{m},\"b\":{},\"n\":{{{}}}}}",
                map(&named), ext.join(",")
            ));
            r.mem.extend(named);
        }
        r
    }
    pub fn sees(&self, o: &str) -> bool {
        self.only.is_empty() || self.only.iter().any(|n| n == o)
    }
    /// Buffers whose storage differs from the last look; remembers what it sees.
    fn changed(&mut self) -> Vec<(String, Vec<T>)> {
        let mut d = vec![];
        for (o, _) in NAMES {
            if !self.sees(o) {
                continue;
            }
            for (b, v) in self.w.obj(o).bufs() {
                let n = format!("{o}.{b}");
                let old = &self.mem[&n];
                if old.len() != v.len() || old.iter().zip(&v).any(|(a, b)| !a.same(*b)) {
                    self.mem.insert(n.clone(), v.clone());
                    d.push((n, v));
                }
            }
        }
        d
    }
    pub fn dims(&mut self) {
        for (o, _) in NAMES {
            if self.sees(o) {
                let (s, m) = self.w.obj(o).dims();
                self.log.line(&format!("{{\"e\":\"dims\",\"o\":\"{o}\",\"S\":{s},\"M\":{m}}}"));
            }
        }
    }
    /// Reads everything through the alternative accessors.
    pub fn read(&mut self) {
        for (o, _) in NAMES {
            if !self.sees(o) {
                continue;
            }
            for (b, v) in self.w.obj(o).alt() {
                let d = self.changed();
                self.log.line(&format!("{{\"e\":\"read\",\"b\":\"{o}.{b}\",\"via\":\"trait\",\"v\":{},\"d\":{}}}", vals(&v), map(&d)));
            }
        }
    }
    pub fn set(&mut self, b: &str, v: &[T], alt: bool) {
        if self.dead {
            return;
        }
        let (o, f) = b.split_once('.').unwrap();
        let obj = self.w.obj(o);
        let slot = if alt { obj.alt_slot(f) } else { None };
        let slot = match slot {
            Some(_) => obj.alt_slot(f),
            None => obj.slot(f),
        };
        let Some(s) = slot else { return };
        if s.len() < v.len() {
            // cannot be: the storage was big enough when the object was made
            let l = s.len();
            self.log.line(&format!("{{\"e\":\"panic\",\"op\":\"set\",\"msg\":\"{b} has {l} elements\"}}"));
            self.dead = true;
            return;
        }
        s[..v.len()].copy_from_slice(v);
        let d = self.changed();
        self.log.line(&format!("{{\"e\":\"set\",\"b\":\"{b}\",\"v\":{},\"d\":{}}}", vals(v), map(&d)));
    }
    /// Performs a call and records it; how it ended.
    pub fn call(&mut self, op: &str, f: &str, o: &str, lam: T, lams: &str, fun: &UserFn<T>) -> &'static str {
        let c = Call { op, f, o, lam };
        let (mut calls, mut seen, mut ret) = (0u32, vec![], vec![]);
        let s = self.w.states();
        let n = if op == "ncorrect" { self.w.size(o) } else { s };
        let w = &mut self.w;
        heap::take();
        let res = catch_unwind(AssertUnwindSafe(|| {
            heap::watch(|| {
                w.call(&c, &mut |x: &[T], r: &mut [T]| {
                    heap::pause(|| {
                        calls += 1;
                        seen = x[..s].to_vec();
                        fun.eval(&seen, &mut r[..n]);
                        ret = r[..n].to_vec();
                    })
                })
            })
        }));
        let heap = heap::take();
        if let Err(e) = res {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            self.log.line(&format!("{{\"e\":\"panic\",\"op\":\"{op}\",\"msg\":\"{}\"}}", esc(&msg)));
            self.dead = true;
            return "panic";
        }
        let d = map(&self.changed());
        let mut line = format!("{{\"e\":\"{op}\",\"f\":\"{f}\",\"heap\":{heap},\"d\":{d}");
        match op {
            "tuned" | "ntuned" => line += &format!(",\"lam\":{lams}"),
            "control" => line += &format!(",\"c\":\"{o}\""),
            "correct" | "ncorrect" => line += &format!(",\"o\":\"{o}\""),
            _ => {}
        }
        if op.starts_with('n') {
            line += &format!(",\"calls\":{calls},\"seen\":{},\"ret\":{}", vals(&seen), vals(&ret));
        }
        line.push('}');
        self.log.line(&line);
        "ok"
    }
    pub fn step(&mut self, s: &Step<T>) -> &'static str {
        match s {
            Step::Set { b, v } => {
                self.set(b, v, false);
                "ok"
            }
            Step::Call { op, f, o, lam, lams, fun } => self.call(op, f, o, *lam, lams, fun),
        }
    }
    pub fn mark(&mut self, f: &str, m: &str) {
        self.log.line(&format!("{{\"e\":\"mark\",\"p\":[[\"{f}.x\",\"{m}.{f}.x\"],[\"{f}.P\",\"{m}.{f}.P\"]]}}"));
    }
    pub fn same(&mut self, oa: &str, ob: &str, pairs: &[(String, String)], tol: &str, why: &str) {
        same(self.log, oa, ob, pairs, tol, why)
    }
    /// The world, unless a call in it panicked (then nothing in it is touched again).
    pub fn finish(self) {
        if self.dead {
            std::mem::forget(self.w);
        }
    }
}
pub fn same(log: &mut Log, oa: &str, ob: &str, pairs: &[(String, String)], tol: &str, why: &str) {
    same_as(log, "same", oa, ob, pairs, tol, why)
}
pub fn same_as(log: &mut Log, aspect: &str, oa: &str, ob: &str, pairs: &[(String, String)], tol: &str, why: &str) {
    let p: Vec<String> = pairs.iter().map(|(a, b)| format!("[\"{a}\",\"{b}\"]")).collect();
    log.line(&format!(
        "{{\"e\":\"same\",\"aspect\":\"{aspect}\",\"oa\":\"{oa}\",\"ob\":\"{ob}\",\"p\":[{}],\"tol\":\"{tol}\",\"why\":\"{}\"}}",
        p.join(","), esc(why)
    ));
}
/// Elements of a buffer of an object with s states and m inputs or measurements.
pub fn extent(n: &str, s: usize, m: usize) -> usize {
    let (o, b) = n.split_once('.').unwrap();
    match (kind(o), b) {
        (_, "x") => s,
        (_, "A" | "P") => s * s,
        ("ctl" | "obs" | "eobs", "Q" | "R") => m * m,
        (_, "Q") => s * s,
        (_, "u" | "z") => m,
        (_, "B" | "H") => s * m,
        _ => unreachable!(),
    }
}

/// Chooses steps at random, with data that keeps every number in range.
pub struct Planner<T> {
    pub r: Rng,
    pub u: Units,
    pub s: usize,
    /// buffers that may be rewritten between calls ("x", "H", ...)
    pub writes: &'static [&'static str],
    pub nl: bool,
    /// now and then an estimate is given which is no covariance
    pub indef: bool,
    _t: std::marker::PhantomData<T>,
}
pub const ALL: &[&str] = &["x", "A", "P", "Q", "B", "u", "H", "z", "R"];
pub const OFTEN: &[&str] = &["x", "P", "u", "z"];
impl<T: Sc> Planner<T> {
    pub fn new(r: Rng, u: Units, s: usize, writes: &'static [&'static str]) -> Self {
        Planner { r, u, s, writes, nl: true, indef: false, _t: std::marker::PhantomData }
    }
    pub fn data(&mut self, w: &dyn World<T>, o: &str, b: &str) -> Vec<T> {
        let m = w.size(o);
        let (s, u) = (self.s, self.u.clone());
        let mut v = buffer(&mut self.r, &u, b, kind(o), s, m);
        if b == "P" && self.indef && self.u.state.iter().all(|e| *e == 0) && self.r.chance(1, 4) {
            let k = self.r.us(s) * (s + 1);
            v[k] = T::dy(0, 0) - v[k];
        }
        v
    }
    pub fn lambda(&mut self) -> (T, String) {
        let r = &mut self.r;
        let v = if T::EXACT {
            loop {
                let v = if r.chance(1, 6) { T::dy(1, 0) } else { T::full(r) };
                if !v.same(T::dy(0, 0)) {
                    break v;
                }
            }
        } else {
            let v = match r.below(8) {
                0 | 1 => T::dy(1, 0),
                2 => T::dy(1, r.sym(2) as i32),
                3 => T::dy(3, -2),
                // any magnitude
                4 | 5 if T::SCALE > 0 => (T::dy(1, 0) + T::full(r) * T::dy(1, -1)) * T::dy(1, r.sym(12) as i32),
                _ => T::dy(1, 0) + T::full(r) * T::dy(1, -1),
            };
            // it enters the result squared
            if r.chance(1, 8) { T::dy(0, 0) - v } else { v }
        };
        (v, v.js())
    }
    /// A function of the state with `n` results in the units of buffer `b` of `o`.
    pub fn fun(&mut self, w: &dyn World<T>, o: &str, b: &str, n: usize) -> UserFn<T> {
        let c = self.data(w, o, b);
        let unscaled = self.u.state.iter().all(|e| *e == 0) && self.u.meas == 0;
        let (w, q) = if !unscaled || self.r.chance(1, 4) {
            (vec![], T::dy(0, 0))
        } else if T::EXACT {
            ((0..n * self.s).map(|_| T::full(&mut self.r)).collect(), T::full(&mut self.r))
        } else {
            ((0..n * self.s).map(|_| T::dy(self.r.sym(2), -2)).collect(), T::dy(self.r.sym(1), -5))
        };
        UserFn { c, w, q }
    }
    /// Is a buffer so large that the next steps could leave the comfortable range?
    fn large(&self, n: &str, v: &[T]) -> bool {
        if T::EXACT {
            return false;
        }
        let cols = if n.ends_with(".x") { 1 } else { self.s };
        let lim: i64 = if T::SCALE > 0 { 64 } else { 6 };
        v.iter().take(self.s * cols).enumerate().any(|(k, e)| {
            let st = &self.u.state;
            let x = if cols == 1 { st[k] } else { st[k / cols] + st[k % cols] };
            let l = T::dy(lim, x);
            // not a number counts as large
            !(*e <= l && T::dy(0, 0) - l <= *e)
        })
    }
    /// Rewrites of the estimate where it has grown too large.
    pub fn tame(&mut self, run: &Run<T>, f: &str) -> Vec<Step<T>> {
        let mut out = vec![];
        for b in ["x", "P"] {
            let n = format!("{f}.{b}");
            if self.large(&n, &run.mem[&n]) {
                let v = self.data(&*run.w, f, b);
                out.push(Step::Set { b: n, v });
            }
        }
        out
    }
    /// Data that is rewritten before a call involving the given object.
    pub fn rewrites(&mut self, w: &dyn World<T>, o: &str) -> Vec<Step<T>> {
        let mut out = vec![];
        let bs: &[&str] = match kind(o) {
            "reg" | "ext" => &["A", "Q", "P", "x"],
            "raw" => &["P", "x"],
            "ctl" => &["B", "u", "Q", "u"],
            _ => &["z", "H", "R", "z", "z"],
        };
        let k = [0, 1, 1, 2][self.r.us(4)];
        for _ in 0..k {
            let b = bs[self.r.us(bs.len())];
            if self.writes.contains(&b) {
                out.push(Step::Set { b: format!("{o}.{b}"), v: self.data(w, o, b) });
            }
        }
        out
    }
    pub fn pick_op(&mut self, w: &dyn World<T>) -> (String, String, String) {
        loop {
            let f = ["f1", "f1", "f2", "r1", "e1", "e1", "e2"][self.r.us(7)];
            let k = 1 + self.r.us(2);
            let (op, o) = if f.starts_with('e') {
                match self.r.below(5) {
                    0 | 1 => ("npredict", String::new()),
                    2 => ("ntuned", String::new()),
                    _ => ("ncorrect", format!("n{k}")),
                }
            } else {
                match self.r.below(8) {
                    0 | 1 => ("predict", String::new()),
                    2 => ("tuned", String::new()),
                    3 | 4 => ("control", format!("c{k}")),
                    7 => ("ncorrect", format!("n{k}")),
                    _ => ("correct", format!("o{k}")),
                }
            };
            if (!self.nl && op.starts_with('n')) || !w.has(&Call { op, f, o: &o, lam: T::dy(1, 0) }) {
                continue;
            }
            return (op.into(), f.into(), o);
        }
    }
    /// The steps of one operation: rewrites, then the call.
    pub fn steps(&mut self, run: &Run<T>, op: &str, f: &str, o: &str) -> Vec<Step<T>> {
        let w = &*run.w;
        let mut out = self.tame(run, f);
        out.extend(self.rewrites(w, f));
        if !o.is_empty() {
            out.extend(self.rewrites(w, o));
        }
        let (lam, lams) = self.lambda();
        let fun = match op {
            "npredict" | "ntuned" => self.fun(w, f, "x", self.s),
            "ncorrect" => self.fun(w, o, "z", w.size(o)),
            _ => UserFn::none(),
        };
        out.push(Step::Call { op: op.into(), f: f.into(), o: o.into(), lam, lams, fun });
        out
    }
}
