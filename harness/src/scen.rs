//! Scenarios: kinds of recorded runs.
use crate::gen::Units;
use crate::kit::Env;
use crate::log::{map, Log};
use crate::rng::Rng;
use crate::scalar::Sc;
use crate::world::*;
use crate::worlds::*;
use std::collections::BTreeMap;

pub type Make<'a, T> = &'a dyn Fn(&mut Env<T>, &Inits<T>) -> Box<dyn World<T>>;

pub struct Opts {
    pub steps: usize,
    /// operations to prefer
    pub focus: Vec<String>,
    /// objects start out zero, and are filled by the user
    pub zero: bool,
}

fn choose<T: Sc>(p: &mut Planner<T>, w: &dyn World<T>, o: &Opts) -> (String, String, String) {
    let want = !o.focus.is_empty() && p.r.chance(3, 4);
    loop {
        let c = p.pick_op(w);
        if !want || o.focus.contains(&c.0) {
            return c;
        }
    }
}

/// A random history; `plan` fixes the calls.
pub fn history<T: Sc>(log: &mut Log, d: Dim, mk: Make<T>, r: &mut Rng, o: &Opts, plan: Option<&[(String, String, String)]>) {
    let u = Units::pick::<T>(r, d.s);
    let init = Inits::gen(r, &u, d);
    let mut env = Env::new(r.fork(), "");
    log.begin(&T::tol(), &format!("history {} {:?}", T::NAME, d));
    let mut run = Run::new(log, mk(&mut env, &init), &[]);
    let mut p = Planner::new(r.fork(), u, d.s, ALL);
    p.indef = T::SCALE > 0;
    let n = plan.map_or(o.steps, |p| p.len());
    let mut refused: Vec<String> = vec![];
    for k in 0..n {
        let (op, f, ob) = match plan {
            Some(p) => p[k].clone(),
            None => choose(&mut p, &*run.w, o),
        };
        // "correct!" is a correction which is to be refused
        let (op, bad) = match op.strip_suffix('!') {
            Some(o) => (o.to_string(), true),
            None => (op, false),
        };
        for s in p.steps(&run, &op, &f, &ob) {
            if let Step::Call { .. } = s {
                if bad || refused.contains(&ob) {
                    model(&mut run, &mut p, &f, &ob, bad);
                    refused.retain(|o| *o != ob);
                    if bad {
                        refused.push(ob.clone());
                    }
                }
                let prior = ["x", "P"].map(|b| run.mem[&format!("{f}.{b}")].clone());
                if run.step(&s) == "ok" && plan.is_none() && p.r.chance(1, 3) {
                    again(&mut run, &mut p, &s, &prior);
                }
            } else {
                run.step(&s);
            }
        }
        if run.dead {
            break;
        }
    }
    if !run.dead {
        run.dims();
        run.read();
    }
    run.finish();
}

/// The same call from the same estimate once more, by the same or another filter, where at most a
/// detail differs: nothing of the first call may be left over.
fn again<T: Sc>(run: &mut Run<T>, p: &mut Planner<T>, s: &Step<T>, prior: &[Vec<T>; 2]) {
    let Step::Call { op, f, o, lam, lams, fun } = s else { return };
    let (n, m) = (run.w.states(), run.w.size(o));
    let mut g = f.clone();
    if p.r.chance(1, 3) {
        let like: &[&str] = if f.starts_with('e') { &["e1", "e2"] } else { &["f1", "f2", "r1"] };
        let t = like[p.r.us(like.len())];
        if run.w.has(&Call { op, f: t, o, lam: *lam }) {
            g = t.to_string();
        }
    }
    if g != *f && kind(&g) != "raw" && kind(f) != "raw" && p.r.chance(1, 2) {
        for b in ["A", "Q"] {
            let v = run.mem[&format!("{f}.{b}")][..n * n].to_vec();
            run.set(&format!("{g}.{b}"), &v, false);
        }
    }
    for (b, v) in ["x", "P"].iter().zip(prior) {
        run.set(&format!("{g}.{b}"), &v[..v.len().min(if *b == "x" { n } else { n * n })], false);
    }
    let bufs: &[&str] = match op.as_str() {
        "control" => &["B", "u", "Q", "x", "P"],
        "correct" => &["H", "z", "R", "x", "P", "P"],
        "ncorrect" => &["H", "z", "R", "x", "P"],
        _ => &["A", "Q", "x", "P"],
    };
    for _ in 0..p.r.us(3) {
        let b = bufs[p.r.us(bufs.len())];
        let t = if !o.is_empty() && !matches!(b, "x" | "P") { o } else { &g };
        if kind(t) == "raw" && !matches!(b, "x" | "P") {
            continue;
        }
        let name = format!("{t}.{b}");
        let k = extent(&name, n, m);
        if k == 0 {
            continue;
        }
        let mut v = run.mem[&name][..k].to_vec();
        vary(&mut p.r, &mut v, if matches!(b, "P" | "Q" | "R") { if k == n * n && t == &g { n } else { m } } else { 0 });
        run.set(&name, &v, false);
    }
    let fun = if !fun.c.is_empty() && p.r.chance(1, 2) {
        let mut c = fun.clone();
        vary(&mut p.r, &mut c.c, 0);
        c
    } else {
        fun.clone()
    };
    let (lam, lams) = if p.r.chance(1, 4) { p.lambda() } else { (*lam, lams.clone()) };
    run.call(op, &g, o, lam, &lams, &fun);
}
/// Changes one element; of a symmetric matrix with n > 0 rows, so that it stays symmetric and
/// (in the rounded types) positive semidefinite.
fn vary<T: Sc>(r: &mut Rng, v: &mut [T], n: usize) {
    let k = r.us(v.len());
    let half = |x: T| x * T::dy(1, -1);
    if n == 0 {
        v[k] = if T::EXACT { T::full(r) } else { half(v[k]) };
        return;
    }
    let (i, j) = (k / n, k % n);
    if T::EXACT {
        v[k] = T::full(r);
        v[j * n + i] = v[k];
    } else if i == j {
        v[k] = v[k] + half(v[k]);
    } else if n == 2 {
        v[k] = half(v[k]);
        v[j * n + i] = v[k];
    } else {
        // one component less correlated with all others
        for q in 0..n {
            if q != i {
                v[i * n + q] = half(v[i * n + q]);
                v[q * n + i] = v[i * n + q];
            }
        }
    }
}

/// What a run did and where it got: for a second run to be compared with.
pub struct Tape<T> {
    pub steps: Vec<Step<T>>,
    pub ends: Vec<&'static str>,
}
/// First run: records marks after every call.
pub fn first<T: Sc>(run: &mut Run<T>, p: &mut Planner<T>, o: &Opts) -> Tape<T> {
    let mut t = Tape { steps: vec![], ends: vec![] };
    let mut m = 0;
    if o.zero {
        for (ob, k) in NAMES {
            let bs: &[&str] = match k {
                "reg" | "ext" => &["x", "A", "P", "Q"],
                "raw" => &["x", "P"],
                "ctl" => &["B", "u", "Q"],
                _ => &["H", "z", "R"],
            };
            for b in bs {
                let s = Step::Set { b: format!("{ob}.{b}"), v: p.data(&*run.w, ob, b) };
                t.ends.push(run.step(&s));
                t.steps.push(s);
            }
        }
    }
    for _ in 0..o.steps {
        let (op, f, ob) = choose(p, &*run.w, o);
        for s in p.steps(run, &op, &f, &ob) {
            let e = run.step(&s);
            if e == "ok" {
                if let Step::Call { f, .. } = &s {
                    run.mark(f, &format!("m{m}"));
                    m += 1;
                }
            }
            t.steps.push(s);
            t.ends.push(e);
            if run.dead {
                return t;
            }
        }
    }
    t
}
/// Second run of the same steps, with `dirt` in between; compares with the marks.
pub fn second<T: Sc>(run: &mut Run<T>, t: &Tape<T>, tol: &str, why: &str, dirt: Option<&mut Rng>, alt: bool) {
    let mut m = 0;
    let mut dirt = dirt;
    for (s, ea) in t.steps.iter().zip(&t.ends) {
        if let (Some(r), Step::Call { .. }) = (dirt.as_deref_mut(), s) {
            if r.chance(2, 3) && !soil(run, r) {
                return;
            }
        }
        let eb = match s {
            Step::Set { b, v } => {
                run.set(b, v, alt);
                "ok"
            }
            Step::Call { .. } => run.step(s),
        };
        if let Step::Call { op, f, .. } = s {
            if eb != *ea || run.dead {
                run.same(ea, eb, &[], tol, &format!("{why}: {op}"));
                return;
            }
            let pairs: Vec<(String, String)> = ["x", "P"].iter().map(|b| (format!("{f}.{b}"), format!("m{m}.{f}.{b}"))).collect();
            m += 1;
            run.same("ok", "ok", &pairs, tol, &format!("{why}: {op}"));
        } else if run.dead {
            return;
        }
    }
}
/// Uses the working buffers for something else, then puts back everything a user can see.
fn soil<T: Sc>(run: &mut Run<T>, r: &mut Rng) -> bool {
    let calls: [(&str, &str, &str); 12] = [
        ("correct", "f2", "o1"), ("correct", "f2", "o2"), ("correct", "r1", "o1"), ("correct", "f1", "o2"), ("ncorrect", "e2", "n1"), ("ncorrect", "e1", "n2"),
        ("ncorrect", "r1", "n1"), ("control", "f2", "c1"), ("control", "r1", "c2"), ("predict", "f1", ""), ("tuned", "f2", ""), ("npredict", "e1", ""),
    ];
    let (op, f, o) = calls[r.us(calls.len())];
    let c = Call { op, f, o, lam: T::dy(1, 0) };
    if !run.w.has(&c) {
        return true;
    }
    let mut keep: Vec<String> = vec![format!("{f}.x"), format!("{f}.P")];
    let mut broken = vec![];
    if op.ends_with("correct") && r.chance(1, 2) {
        // an unusable measurement
        broken = vec![format!("{o}.H"), format!("{o}.R")];
        keep.extend(broken.clone());
    }
    let saved: Vec<(String, Vec<T>)> = keep.iter().map(|n| (n.clone(), run.mem[n].clone())).collect();
    for b in broken {
        let n = run.mem[&b].len();
        let (o, _) = b.split_once('.').unwrap();
        let n = n.min(extent(&b, run.w.states(), run.w.size(o)));
        run.set(&b, &vec![T::dy(0, 0); n], false);
    }
    let n = if op == "ncorrect" { run.w.size(o) } else { run.w.states() };
    let fun = UserFn { c: (0..n).map(|_| T::full(r)).collect(), w: vec![], q: T::dy(0, 0) };
    run.call(op, f, o, T::dy(1, 0), &T::dy(1, 0).js(), &fun);
    if run.dead {
        return false;
    }
    for (n, v) in saved {
        let (o, _) = n.split_once('.').unwrap();
        let k = extent(&n, run.w.states(), run.w.size(o));
        run.set(&n, &v[..k.min(v.len())], false);
    }
    !run.dead
}
/// Checks what was lent to a world after it is gone.
pub fn finals<T: Sc>(log: &mut Log, env: Env<T>) {
    let mut b = vec![];
    let mut was = vec![];
    let mut n = vec![];
    for (name, p, len, ext, w) in env.lent {
        // SAFETY: the slice made from this allocation is not in use any more
        let v = unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p, len)) };
        b.push((name.clone(), v.to_vec()));
        n.push(format!("\"{name}\":{ext}"));
        was.push((name, w));
    }
    if !b.is_empty() {
        log.line(&format!("{{\"e\":\"final\",\"b\":{},\"was\":{},\"n\":{{{}}}}}", map(&b), map(&was), n.join(",")));
    }
}
/// The same history in two worlds.
pub fn twin<T: Sc>(log: &mut Log, d: Dim, a: Make<T>, b: Make<T>, r: &mut Rng, o: &Opts, why: &str, writes: &'static [&'static str], dirt: bool, nl: bool) {
    twin_alt(log, d, a, b, r, o, why, writes, dirt, nl, false)
}
/// ... where the second run may write through the alternative accessors.
pub fn twin_alt<T: Sc>(log: &mut Log, d: Dim, a: Make<T>, b: Make<T>, r: &mut Rng, o: &Opts, why: &str, writes: &'static [&'static str], dirt: bool, nl: bool, alt: bool) {
    let u = Units::pick::<T>(r, d.s);
    let init = if o.zero { Inits::zero(d) } else { Inits::gen(r, &u, d) };
    log.begin(&T::tol(), &format!("{why} {} {:?}", T::NAME, d));
    let mut ea = Env::new(r.fork(), "");
    let wa = a(&mut ea, &init);
    let mut run = Run::new(log, wa, &[]);
    let mut p = Planner::new(r.fork(), u, d.s, writes);
    p.nl = nl;
    p.indef = T::SCALE > 0;
    let tape = first(&mut run, &mut p, o);
    run.finish();
    let mut eb = Env::new(r.fork(), "");
    let wb = b(&mut eb, &init);
    let mut run = Run::new(log, wb, &[]);
    let mut rr = r.fork();
    second(&mut run, &tape, &T::twin(), why, dirt.then_some(&mut rr), alt);
    if !run.dead {
        run.dims();
        run.read();
        drop(run.w);
        finals(log, eb);
    } else {
        run.finish();
    }
}

fn put<T: Sc>(run: &mut Run<T>, to: &str, v: &[T]) {
    run.set(to, v, false)
}
fn both(f: &str, g: &str) -> Vec<(String, String)> {
    ["x", "P"].iter().map(|b| (format!("{f}.{b}"), format!("{g}.{b}"))).collect()
}
/// Pairs of calls that are to end in the same estimate.
pub fn equal<T: Sc>(log: &mut Log, d: Dim, mk: Make<T>, r: &mut Rng, what: &str) {
    let u = if what == "order" { Units::none(d.s) } else { Units::pick::<T>(r, d.s) };
    let init = Inits::gen(r, &u, d);
    let mut env = Env::new(r.fork(), "");
    log.begin(&T::tol(), &format!("{what} {} {:?}", T::NAME, d));
    let mut run = Run::new(log, mk(&mut env, &init), &[]);
    let mut p = Planner::new(r.fork(), u, d.s, ALL);
    let one = T::dy(1, 0);
    let lin = |c: usize, w: &[T]| UserFn { c: vec![T::dy(0, 0); c], w: w.to_vec(), q: T::dy(0, 0) };
    let no = UserFn::none();
    for round in 0..3 {
        // the same model and estimate everywhere
        let data: BTreeMap<&str, Vec<T>> = ["x", "A", "P", "Q"].iter().map(|b| (*b, p.data(&*run.w, "f1", b))).collect();
        for f in ["f1", "f2", "e1", "e2"] {
            for (b, v) in &data {
                put(&mut run, &format!("{f}.{b}"), v);
            }
        }
        for k in ["1", "2"] {
            for b in ["H", "z", "R"] {
                let v = p.data(&*run.w, &format!("o{k}"), b);
                put(&mut run, &format!("o{k}.{b}"), &v);
                put(&mut run, &format!("n{k}.{b}"), &v);
            }
            for b in ["B", "u", "Q"] {
                let o = format!("c{k}");
                let v = p.data(&*run.w, &o, b);
                put(&mut run, &format!("{o}.{b}"), &v);
            }
        }
        let js1 = one.js();
        let hs: Vec<Vec<T>> = ["o1.H", "o2.H"].iter().map(|h| run.mem[*h].clone()).collect();
        let (m1, m2) = (d.m1, d.m2);
        let (lam, lams) = p.lambda();
        // (operation, filter, object, lambda, function), twice
        type C<'b, T> = (&'b str, &'b str, &'b str, T, String, UserFn<T>);
        let mut one_two: Vec<(Vec<C<T>>, Vec<C<T>>, &str)> = vec![];
        match what {
            "tuned1" => {
                one_two.push((vec![("predict", "f1", "", one, js1.clone(), no.clone())], vec![("tuned", "f2", "", one, js1.clone(), no.clone())], "tuned prediction with factor 1"));
                let f = p.fun(&*run.w, "e1", "x", d.s);
                one_two.push((vec![("npredict", "e1", "", one, js1.clone(), f.clone())], vec![("ntuned", "e2", "", one, js1.clone(), f)], "tuned nonlinear prediction with factor 1"));
                // linear and extended agree for any factor
                put(&mut run, "f1.x", &data["x"]);
                let a = lin(d.s, &data["A"]);
                one_two.push((vec![("tuned", "f1", "", lam, lams.clone(), no.clone())], vec![("ntuned", "e1", "", lam, lams, a)], "tuned prediction of the linear and the extended filter"));
            }
            "linear-predict" => {
                let a = lin(d.s, &data["A"]);
                one_two.push((vec![("predict", "f1", "", one, js1.clone(), no.clone())], vec![("npredict", "e1", "", one, js1.clone(), a.clone())], "nonlinear prediction with a linear function"));
            }
            "linear-correct" => {
                one_two.push((vec![("correct", "f1", "o1", one, js1.clone(), no.clone())], vec![("ncorrect", "e1", "n1", one, js1.clone(), lin(m1, &hs[0]))], "nonlinear correction with a linear function"));
                one_two.push((vec![("correct", "f2", "o2", one, js1.clone(), no.clone())], vec![("ncorrect", "e2", "n2", one, js1.clone(), lin(m2, &hs[1]))], "nonlinear correction with a linear function"));
            }
            _ => {
                one_two.push((
                    vec![("correct", "f1", "o1", one, js1.clone(), no.clone()), ("correct", "f1", "o2", one, js1.clone(), no.clone())],
                    vec![("correct", "f2", "o2", one, js1.clone(), no.clone()), ("correct", "f2", "o1", one, js1.clone(), no.clone())],
                    "corrections in either order",
                ));
                one_two.push((
                    vec![("ncorrect", "e1", "n1", one, js1.clone(), lin(m1, &hs[0])), ("ncorrect", "e1", "n2", one, js1.clone(), lin(m2, &hs[1]))],
                    vec![("ncorrect", "e2", "n2", one, js1.clone(), lin(m2, &hs[1])), ("ncorrect", "e2", "n1", one, js1.clone(), lin(m1, &hs[0]))],
                    "nonlinear corrections in either order",
                ));
                one_two.push((
                    vec![("control", "f1", "c1", one, js1.clone(), no.clone()), ("control", "f1", "c2", one, js1.clone(), no.clone())],
                    vec![("control", "f2", "c2", one, js1.clone(), no.clone()), ("control", "f2", "c1", one, js1.clone(), no.clone())],
                    "controls in either order",
                ));
            }
        }
        for (i, (a, b, why)) in one_two.iter().enumerate() {
            if i > 0 {
                // again the same estimate
                for f in ["f1", "f2", "e1", "e2"] {
                    for n in ["x", "P"] {
                        put(&mut run, &format!("{f}.{n}"), &data[n]);
                    }
                }
            }
            let mut ends = vec![];
            for side in [a, b] {
                let mut e = "ok";
                for (op, f, o, lam, lams, fun) in side {
                    if e == "ok" {
                        e = run.call(op, f, o, *lam, lams, fun);
                    }
                }
                ends.push(e);
                if run.dead {
                    // the world is unusable; a call that stops the program is not equal to one that does not
                    run.finish();
                    return;
                }
            }
            let (fa, fb) = (a[0].1, b[0].1);
            let tol = if what == "order" { T::order() } else { T::twin() };
            same_as(run.log, if what == "order" { "order" } else { "same" }, ends[0], ends[1], &both(fa, fb), &tol, why);
        }
        let _ = round;
    }
    run.finish();
}

fn block<T: Sc>(a: &[T], n: usize, b: &[T], m: usize) -> Vec<T> {
    let k = n + m;
    (0..k * k)
        .map(|q| {
            let (i, j) = (q / k, q % k);
            if i < n && j < n { a[i * n + j] } else if i >= n && j >= n { b[(i - n) * m + j - n] } else { T::dy(0, 0) }
        })
        .collect()
}
/// Two observations and controls one after the other, and both as one.
pub fn stacked<T: Sc>(log: &mut Log, d: Dim, parts: Make<T>, d2: Dim, whole: Make<T>, r: &mut Rng) {
    assert!(d2.m1 == d.m1 + d.m2 && d2.c1 == d.c1 + d.c2 && d2.s == d.s);
    let u = Units::none(d.s);
    let init = Inits::<T>::gen(r, &u, d);
    log.begin(&T::tol(), &format!("stacked {} {:?}", T::NAME, d));
    let mut env = Env::new(r.fork(), "");
    let mut run = Run::new(log, parts(&mut env, &init), &["f1", "f2", "e1", "o1", "o2", "n1", "n2", "c1", "c2"]);
    let (one, js1, no) = (T::dy(1, 0), T::dy(1, 0).js(), UserFn::none());
    let lin = |c: usize, w: &[T]| UserFn { c: vec![T::dy(0, 0); c], w: w.to_vec(), q: T::dy(0, 0) };
    let mut ok = true;
    for (op, f, o, fun) in [
        ("correct", "f1", "o1", no.clone()), ("correct", "f1", "o2", no.clone()),
        ("ncorrect", "e1", "n1", lin(d.m1, &init.o[2].h)), ("ncorrect", "e1", "n2", lin(d.m2, &init.o[3].h)),
        ("control", "f2", "c1", no.clone()), ("control", "f2", "c2", no.clone()),
    ] {
        ok = ok && run.call(op, f, o, one, &js1, &fun) == "ok";
    }
    if !ok {
        run.finish();
        return;
    }
    for f in ["f1", "f2", "e1"] {
        run.mark(f, "parts");
    }
    run.finish();
    let mut i2 = Inits::<T>::gen(r, &u, d2);
    i2.f = init.f.clone();
    let o = &init.o;
    for (k, (a, b)) in [(0, (0, 1)), (2, (2, 3))] {
        i2.o[k].h = [o[a].h.clone(), o[b].h.clone()].concat();
        i2.o[k].z = [o[a].z.clone(), o[b].z.clone()].concat();
        i2.o[k].r = block(&o[a].r, d.m1, &o[b].r, d.m2);
    }
    let c = &init.c;
    i2.c[0].u = [c[0].u.clone(), c[1].u.clone()].concat();
    i2.c[0].q = block(&c[0].q, d.c1, &c[1].q, d.c2);
    i2.c[0].b = (0..d.s).flat_map(|i| [&c[0].b[i * d.c1..(i + 1) * d.c1], &c[1].b[i * d.c2..(i + 1) * d.c2]].concat()).collect();
    let mut env = Env::new(r.fork(), "");
    let mut run = Run::new(log, whole(&mut env, &i2), &["f1", "f2", "e1", "o1", "n1", "c1"]);
    for (op, f, o, fun) in [("correct", "f1", "o1", no.clone()), ("ncorrect", "e1", "n1", lin(d2.m1, &i2.o[2].h)), ("control", "f2", "c1", no)] {
        if run.call(op, f, o, one, &js1, &fun) != "ok" {
            break;
        }
        let pairs: Vec<(String, String)> = ["x", "P"].iter().map(|b| (format!("{f}.{b}"), format!("parts.{f}.{b}"))).collect();
        same_as(run.log, "order", "ok", "ok", &pairs, &T::order(), &format!("stacked {op}"));
    }
    run.finish();
}

/// Measurements with an unusable innovation covariance between usable ones.
pub fn degenerate<T: Sc>(log: &mut Log, d: Dim, mk: Make<T>, r: &mut Rng, o: &Opts) {
    let u = Units::none(d.s);
    let init = Inits::<T>::gen(r, &u, d);
    let mut env = Env::new(r.fork(), "");
    log.begin(&T::tol(), &format!("degenerate {} {:?}", T::NAME, d));
    let mut run = Run::new(log, mk(&mut env, &init), &[]);
    let mut p = Planner::new(r.fork(), u, d.s, ALL);
    for _ in 0..o.steps {
        let (op, f, ob) = loop {
            let c = p.pick_op(&*run.w);
            if c.0.ends_with("correct") || p.r.chance(1, 6) {
                break c;
            }
        };
        for s in p.steps(&run, &op, &f, &ob) {
            if let Step::Call { .. } = s {
                if op.ends_with("correct") && p.r.chance(3, 4) {
                    model(&mut run, &mut p, &f, &ob, true);
                }
            }
            run.step(&s);
            if run.dead {
                break;
            }
        }
        if run.dead {
            break;
        }
        // in a rounded type, nothing may be left that is nearly unusable
        if op.ends_with("correct") && (!T::EXACT || p.r.chance(1, 2)) {
            // a usable measurement with the same objects
            model(&mut run, &mut p, &f, &ob, false);
        }
    }
    run.finish();
}
/// Makes an observation of a filter unusable or usable.
fn model<T: Sc>(run: &mut Run<T>, p: &mut Planner<T>, f: &str, ob: &str, bad: bool) {
    let (s, m) = (run.w.states(), run.w.size(ob));
    let data = if bad {
        bad_model::<T>(&mut p.r, s, m)
    } else {
        vec![("P", p.data(&*run.w, f, "P")), ("H", p.data(&*run.w, ob, "H")), ("R", p.data(&*run.w, ob, "R"))]
    };
    for (b, v) in data {
        run.set(&format!("{}.{b}", if b == "P" { f } else { ob }), &v, false);
    }
}
/// P, H and R for which H P H^T + R is exactly computed and not positive definite.
fn bad_model<T: Sc>(r: &mut Rng, s: usize, m: usize) -> Vec<(&'static str, Vec<T>)> {
    let z = T::dy(0, 0);
    let diag = |n: usize, f: &mut dyn FnMut(usize) -> T| -> Vec<T> { (0..n * n).map(|k| if k / n == k % n { f(k / n) } else { z }).collect() };
    // powers of four: their square roots are exact in every type
    let p4 = |r: &mut Rng| T::dy(1, 2 * r.sym(1) as i32);
    let quarter = |r: &mut Rng| if T::EXACT { T::full(r) } else { p4(r) };
    let p = diag(s, &mut |_| quarter(r));
    // unit rows
    let cols: Vec<usize> = (0..m).map(|_| r.us(s)).collect();
    let mut h: Vec<T> = (0..m * s).map(|k| if cols[k / s] == k % s { T::dy(1, 0) } else { z }).collect();
    match r.below(4) {
        // nothing measured, nothing uncertain (possibly in one component only)
        0 => {
            let dead = r.us(m);
            for j in 0..s {
                h[dead * s + j] = z;
            }
            let one = r.chance(1, 2);
            let rr = diag(m, &mut |i| if i == dead || one { z } else { p4(r) });
            vec![("P", p), ("H", h), ("R", rr)]
        }
        // two equal rows without noise (with one measurement: a known state)
        1 => {
            if m >= 2 {
                let (a, b) = (r.us(m), r.us(m));
                let b = if a == b { (b + 1) % m } else { b };
                for j in 0..s {
                    h[b * s + j] = h[a * s + j];
                }
                let rr = diag(m, &mut |i| if i == a || i == b { z } else { T::dy(3, 2) });
                // keep the other components clear of the pair
                for i in 0..m {
                    if i != a && i != b {
                        for j in 0..s {
                            h[i * s + j] = z;
                        }
                    }
                }
                vec![("P", p), ("H", h), ("R", rr)]
            } else {
                vec![("P", vec![z; s * s]), ("H", h), ("R", vec![z])]
            }
        }
        // negative noise (a field has no sign: anything goes)
        2 => {
            let k = r.us(m);
            let rr = diag(m, &mut |i| if i == k { z - T::dy(64, 0) } else { p4(r) });
            vec![("P", p), ("H", h), ("R", rr)]
        }
        // indefinite noise with positive diagonal
        _ => {
            if m >= 2 {
                let mut rr = diag(m, &mut |_| T::dy(4, 0));
                rr[1] = T::dy(64, 0);
                rr[m] = T::dy(64, 0);
                vec![("P", p), ("H", vec![z; m * s]), ("R", rr)]
            } else {
                vec![("P", p), ("H", vec![z; s]), ("R", vec![z])]
            }
        }
    }
}
