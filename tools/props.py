"""What is recorded and judged for each property."""
import hashlib
import itertools
import json
import os
import re
import shutil

GF = ("KalmanTraceGF", "KalmanTraceGF.cfg")
RAT = ("KalmanTraceRat", "KalmanTraceRat.cfg")
A = "libm,alloc"
B = "std,alloc,unsafe,fixed"
SC = {"gf": GF, "f32": RAT, "f64": RAT, "i16f16": RAT, "i32f32": RAT}
MGF = ("MatrixTraceGF", "MatrixTraceGF.cfg")
MRAT = ("MatrixTraceRat", "MatrixTraceRat.cfg")
MSC = {k: MGF if k == "gf" else MRAT for k in SC}
CHECKS = {}
META = {}
NA = {}


def check(pid):
    def f(g):
        CHECKS[pid] = g
        return g
    return f


# whether a scenario can be carried out at all is part of these
WHOLE = ["C14", "C16", "C17", "C18", "C19", "C21"]


def hist(c, feats, tag, judge, runs, b="hist", sc_spec=SC):
    """runs: (mode, scalar, n, extra arguments)"""
    bins = c.build(feats, [b])
    jobs = []
    for k, (mode, sc, n, kw) in enumerate(runs):
        kw = dict(kw)
        files = kw.pop("files", None)
        spec = kw.pop("spec", None) or sc_spec[sc]
        jobs += c.record(bins, b, f"{tag}-{mode}-{sc}-{k}", spec, files=files, mode=mode, scalar=sc, n=n,
                         judge=",".join(list(judge) + ["scenario"] * (c.pid in WHOLE)), seed=c.seed * 1000 + 17 * k + (500 if feats != A else 0), **kw)
    return jobs


def laws(c):
    """The specification of the calls has the laws users rely on."""
    if c.quick:
        c.laws("KalmanModelRat", "KalmanModelRat.cfg", "every history of 2 calls, rational numbers: all laws of KalmanModel in every state")
    else:
        c.laws("KalmanModelRat", "KalmanModelRat3.cfg", "every history of 3 calls, rational numbers: all laws of KalmanModel in every state")
        c.laws("KalmanModelGF", "KalmanModelGF.cfg", "GF(3): the algebraic laws for every covariance, noise, control and scalar measurement")


def refinement(c):
    """Carrying a call out in steps, in place and with working memory of any content, refines it."""
    c.laws("KalmanImplGF", c.n("KalmanImplGF.cfg", "KalmanImplGF3.cfg"),
           f"two filters sharing observations and controls, {c.n(2, 3)} calls in steps: refines KalmanModel, every call returns")
    c.faulty("KalmanImplGF", "KalmanImplGF.cfg",
             ["accumulates", "old gain", "sees the new state", "no look back", "gives up late", "wrong filter"])


def op_check(pid, judge, focus, extra_a=(), extra_b=()):
    @check(pid)
    def go(c):
        n = c.n
        laws(c)
        fo = {"focus": ",".join(focus)}
        jobs = hist(c, A, "a", judge, [
            ("history", "gf", n(130, 1300), dict(fo, steps=n(20, 40))),
            ("history", "f64", n(30, 240), dict(fo, steps=15)),
        ] + [(m, s, n(*k), kw) for m, s, k, kw in extra_a])
        jobs += hist(c, B, "b", judge, [
            ("history", "gf", n(52, 520), dict(fo, steps=n(15, 40))),
            ("history", "f32", n(30, 240), dict(fo, steps=15)),
            ("history", "i32f32", n(16, 160), dict(fo, steps=10)),
        ] + [(m, s, n(*k), kw) for m, s, k, kw in extra_b])
        c.binding(jobs, "value", [x for x in judge if x in focus])
        c.validate(jobs)
    return go


op_check("C01", ["predict"], ["predict"])
op_check("C02", ["tuned", "ntuned", "same"], ["tuned", "ntuned"],
         [("tuned1", "gf", (52, 520), {}), ("tuned1", "f32", (18, 180), {})],
         [("tuned1", "i16f16", (8, 80), {})])
op_check("C03", ["control"], ["control"])
op_check("C04", ["correct"], ["correct"])
op_check("C05", ["npredict", "same"], ["npredict"],
         [("linear-predict", "gf", (52, 520), {}), ("linear-predict", "f64", (18, 180), {})])
op_check("C06", ["ncorrect", "same"], ["ncorrect"],
         [("linear-correct", "gf", (52, 520), {}), ("linear-correct", "f64", (18, 180), {})])
OPS = ["predict", "tuned", "control", "correct", "npredict", "ntuned", "ncorrect"]


@check("C07")
def c07(c):
    n = c.n
    refinement(c)
    j = ["frame", "same"]
    jobs = hist(c, A, "a", j, [("scratch", "gf", n(78, 780), {"steps": n(15, 40)}), ("scratch", "f32", n(24, 200), {"steps": 12})])
    jobs += hist(c, B, "b", j, [("scratch", "gf", n(39, 390), {"steps": n(15, 40)}), ("scratch", "f64", n(24, 200), {"steps": 12}),
                                ("scratch", "i16f16", n(8, 80), {"steps": 10})])
    c.binding(jobs, "compared", OPS)
    c.binding(jobs, "frame", OPS)
    c.validate(jobs)


def plans(c, tag, count, want=lambda p: True, feats=A, judge=(), sc="gf", chunk=4000):
    """Has TLC enumerate the call sequences of KalmanPlan, and records and validates a sample of them (count = None: all)."""
    import random
    from check import Broken
    out = c.model("KalmanPlan", "KalmanPlan.cfg", "every transition of the left-over abstraction, as a shortest plan of calls", args=["-workers", "1"])
    ps = sorted({x[5:-1].strip() for x in out.splitlines() if x.startswith('"PLAN ')})
    if len(ps) < 20000:
        raise Broken(f"KalmanPlan: {len(ps)} plans only")
    ps = [p for p in ps if want(p)]
    if count:
        ps = random.Random(c.seed).sample(ps, count)
    c.cov["plans_replayed"] = c.cov.get("plans_replayed", 0) + len(ps)
    for k in range(0, len(ps), chunk):
        p = os.path.join(c.dir, f"{tag}-{k}.plans")
        with open(p, "w") as f:
            f.write("\n".join(ps[k:k + chunk]) + "\n")
        yield hist(c, feats, f"{tag}{k}", judge, [("history", sc, 1, {"plans": p})])


def replay(c, *a, **kw):
    for jobs in plans(c, *a, **kw):
        c.validate(jobs)
        for j in jobs:
            if os.path.exists(j[3]):
                os.remove(j[3])


@check("C08")
def c08(c):
    n = c.n
    refinement(c)
    j = OPS + ["frame", "set"]
    replay(c, "plan", n(320, None), feats=A, judge=j)
    jobs = hist(c, A, "a", j, [("history", "gf", n(104, 1040), {"steps": n(40, 100)}), ("history", "f32", n(18, 180), {"steps": 40})])
    jobs += hist(c, B, "b", j, [("history", "gf", n(39, 390), {"steps": n(40, 100)}), ("history", "i32f32", n(8, 80), {"steps": 30})])
    c.binding(jobs, "value", OPS)
    c.binding(jobs, "frame", OPS)
    c.validate(jobs)


@check("C09")
def c09(c):
    n = c.n
    laws(c)
    j = ["cov"]
    jobs = hist(c, A, "a", j, [("history", "f64", n(60, 600), {"steps": n(30, 80)}), ("history", "gf", n(52, 520), {"steps": 20})])
    jobs += hist(c, B, "b", j, [("history", "f32", n(60, 600), {"steps": n(30, 80)}), ("history", "i32f32", n(16, 160), {"steps": 20}),
                                ("history", "i16f16", n(16, 160), {"steps": 20})])
    c.binding(jobs, "asymmetric", OPS, which="-gf-")
    c.binding(jobs, "value", OPS, which="-f64-")
    c.validate(jobs)


@check("C10")
def c10(c):
    n = c.n
    laws(c)
    j = ["order"]
    jobs = hist(c, A, "a", j, [("order", "gf", n(52, 520), {}), ("order", "f64", n(18, 180), {}), ("stacked", "gf", n(260, 2600), {}),
                               ("stacked", "f64", n(60, 600), {})])
    jobs += hist(c, B, "b", j, [("order", "gf", n(26, 260), {}), ("order", "f32", n(18, 180), {}), ("stacked", "f32", n(60, 600), {}),
                                ("order", "i32f32", n(8, 80), {}), ("stacked", "gf", n(130, 1300), {})])
    c.binding(jobs, "compared", ["control", "correct", "ncorrect"])
    c.validate(jobs)


SMALL = ("KalmanTraceGF", "KalmanTraceGF13.cfg")


@check("C22")
def c22(c):
    n = c.n
    laws(c)
    refinement(c)
    j = ["degenerate"]
    replay(c, "plan", n(200, None), want=lambda p: "!" in p, feats=B, judge=j)
    jobs = hist(c, A, "a", j, [("degenerate", "gf", n(104, 1040), {"steps": 20}), ("degenerate", "f64", n(36, 360), {"steps": 15}),
                               ("history", "gf", n(130, 1300), {"steps": 30, "prime": 13, "focus": "correct,ncorrect", "spec": SMALL})])
    jobs += hist(c, B, "b", j, [("degenerate", "gf", n(52, 520), {"steps": 20}), ("degenerate", "f32", n(36, 360), {"steps": 15}),
                                ("degenerate", "i16f16", n(16, 160), {"steps": 12}), ("degenerate", "i32f32", n(16, 160), {"steps": 12})])
    c.binding([j for j in jobs if "degenerate" in j[0]], "not refused", ["correct", "ncorrect"], count=6)
    c.validate(jobs)


def matrix(c, feats, tag, judge, runs):
    """runs: (scalar, n, extra arguments)"""
    return hist(c, feats, tag, judge, [("matrix", sc, n, kw) for sc, n, kw in runs], "matrix", MSC)


def mat_check(pid, judge, focus):
    @check(pid)
    def go(c):
        n = c.n
        if pid == "C13":
            c.laws("CholeskyAlgGF", "CholeskyAlgGF2.cfg", "2 x 2 over GF(11): decomposition and inversion element by element; refusal, factor, inverse, ends")
            c.laws("CholeskyAlgGF", "CholeskyAlgGF3.cfg", "3 x 3 over GF(5): the same")
            if not c.quick:
                c.laws("CholeskyAlgGF", "CholeskyAlgGF4.cfg", "4 x 4 over GF(3): the same")
        else:
            c.laws("LinAlgLawsGF", "LinAlgLawsGF.cfg", "textbook laws of the linear algebra the specification is written in, all small matrices over GF(3)")
            c.laws("MatrixAlgGF", "MatrixAlgGF.cfg", "loops over row-major storage, longer than needed: result, frame, ends")
        f = {"focus": focus, "steps": 40}
        jobs = matrix(c, A, "a", judge, [("gf", n(528, 5280), f), ("f64", n(144, 1440), f)])
        jobs += matrix(c, B, "b", judge, [("gf", n(264, 2640), f), ("f32", n(144, 1440), f), ("i16f16", n(96, 960), f), ("i32f32", n(48, 480), f)])
        c.binding(jobs, *{"C11": ("value", ["op"]), "C12": ("value", ["write"]), "C13": ("inverse", ["inv"])}[pid])
        c.validate(jobs)
    return go


mat_check("C11", ["arith", "frame"], "arith")
mat_check("C12", ["access", "frame"], "access")
mat_check("C13", ["chol", "inv", "frame"], "chol")


KINDS = "array,slice,wrapped,stored,roles,readonly"


@check("C14")
def c14(c):
    n = c.n
    c.laws("MatrixAlgGF", "MatrixAlgGF.cfg", "loops over row-major storage, longer than needed: result, frame, ends")
    j = ["surplus", "same"]
    k = {"kinds": KINDS}
    jobs = hist(c, A, "a", j, [("store", "gf", n(96, 960), dict(k, steps=n(12, 30))), ("store", "f64", n(24, 240), dict(k, steps=10))], "store")
    jobs += hist(c, B, "b", j, [("store", "gf", n(72, 720), dict(k, steps=n(12, 30))), ("store", "i16f16", n(12, 120), dict(k, steps=8))], "store")
    jobs += matrix(c, A, "a", ["surplus"], [("gf", n(528, 5280), {"steps": 60}), ("f32", n(48, 480), {"steps": 40})])
    c.binding([j for j in jobs if "store" in j[0]], "surplus", OPS)
    c.binding([j for j in jobs if "matrix" in j[0]], "surplus", ["op", "write", "chol", "inv"])
    c.validate(jobs)


@check("C16")
def c16(c):
    n = c.n
    j = ["same", "read", "dims", "set", "evals"]
    k = {"kinds": "traits,traits-slice", "alt": 1}
    jobs = hist(c, A, "a", j, [("store", "gf", n(96, 960), dict(k, steps=n(12, 30))), ("store", "f64", n(128, 1280), dict(k, steps=10))], "store")
    jobs += hist(c, B, "b", j, [("store", "gf", n(48, 480), dict(k, steps=n(12, 30))), ("store", "f64", n(64, 640), dict(k, steps=10)), ("store", "i16f16", n(16, 160), dict(k, steps=8))], "store")
    c.binding(jobs, "compared", OPS)
    c.validate(jobs)


BGF = ("BufTraceGF", "BufTraceGF.cfg")
BRAT = ("BufTraceRat", "BufTraceRat.cfg")
BSC = {k: BGF if k == "gf" else BRAT for k in SC}
NOASSERT = "libm,alloc,no_assert"


def bufs(c, feats, tag, judge, b, runs):
    """runs: (scalar, rounds)"""
    return hist(c, feats, tag, judge, [("buffers", sc, n, {}) for sc, n in runs], b, BSC)


@check("C17")
def c17(c):
    n = c.n
    made = ["made", "access", "frame", "beyond"]
    fresh = ["init", "same", "dims", "read", "set", "frame"]
    k = {"kinds": "built", "zero": 1}
    for feats, tag in ((A, "a"), (B, "b")):
        jobs = bufs(c, feats, tag, made, "factories", [("gf", n(4, 40)), ("f32", n(2, 20))])
        jobs += hist(c, feats, tag, fresh, [("store", "gf", n(72, 720), dict(k, steps=n(12, 30))), ("store", "f64", n(24, 240), dict(k, steps=10))], "store")
        if tag == "a":
            c.binding([j for j in jobs if "store" in j[0]], "compared", OPS)
            c.binding([j for j in jobs if "buffers" in j[0]], "result", ["read"])
        c.validate(jobs)


@check("C18")
def c18(c):
    n = c.n
    made = ["made", "access", "frame", "beyond"]
    same = ["init", "same", "dims", "read", "set", "frame"]
    k = {"kinds": "built,declared,static", "zero": 1}
    for feats, tag in ((A, "a"), (B, "b")):
        jobs = bufs(c, feats, tag, made, "declarations", [("gf", n(3, 30)), ("f32", n(2, 20))] +
                    ([("i16f16", n(2, 20))] if feats == B else []))
        jobs += hist(c, feats, tag, same, [("store", "gf", n(48, 480), dict(k, steps=n(12, 30))), ("store", "f64", n(16, 160), dict(k, steps=10))] +
                     ([("store", "i16f16", n(8, 80), dict(k, steps=8))] if feats == B else []), "store")
        if tag == "a":
            c.binding([j for j in jobs if "store" in j[0]], "compared", OPS)
            c.binding([j for j in jobs if "buffers" in j[0]], "result", ["read"])
        c.validate(jobs)


@check("C19")
def c19(c):
    n = c.n
    j = ["size", "beyond", "access", "frame"]
    for feats, tag in ((A, "a"), (B, "b"), (NOASSERT, "n")):
        jobs = bufs(c, feats, tag, j, "sizes", [("gf", n(8, 80)), ("f32", n(6, 60))])
        if tag == "a":
            c.binding(jobs, "outcome", ["buf"])
        c.validate(jobs)


@check("C23")
def c23(c):
    n = c.n
    j = ["heap"]
    k = {"kinds": KINDS + ",built,static,traits"}
    for feats, tag in ((A, "a"), (B, "b")):
        jobs = hist(c, feats, tag, j, [("history", "gf", n(78, 780), {"steps": n(30, 60)}), ("degenerate", "gf", n(39, 390), {"steps": 20}),
                                       ("history", "f32", n(18, 180), {"steps": 30})] +
                    ([("history", "i32f32", n(8, 80), {"steps": 20})] if feats == B else []))
        jobs += hist(c, feats, tag, j, [("store", "gf", n(120, 1200), dict(k, steps=n(15, 30)))], "store")
        jobs += matrix(c, feats, tag, j, [("gf", n(264, 2640), {"steps": 60, "focus": f}) for f in ("arith", "chol")] + [("f64", n(96, 960), {"steps": 60})])
        if tag == "a":
            c.binding([x for x in jobs if "history" in x[0]], "heap", OPS)
            c.binding([x for x in jobs if "matrix" in x[0]], "heap", ["op", "chol", "inv"])
        c.validate(jobs)


@check("C26")
def c26(c):
    n = c.n
    c.laws("KalmanImplGF", c.n("KalmanImplShared.cfg", "KalmanImplShared2.cfg"),
           f"two filters sharing observations and controls, {n(1, 2)} calls in steps, temporaries in shared memory, every allowed sharing: refines KalmanModel")
    c.faulty("KalmanImplGF", "KalmanImplShared.cfg", ["no second HP", ("MC_Shared", "MC_Forbidden")])
    j = OPS + ["same", "frame"]
    k = {"kinds": "shared"}
    jobs = hist(c, A, "a", j, [("store", "gf", n(126, 1260), dict(k, steps=n(20, 50))), ("store", "f64", n(24, 240), dict(k, steps=15))], "store")
    jobs += hist(c, B, "b", j, [("store", "gf", n(63, 630), dict(k, steps=n(20, 50))), ("store", "i16f16", n(12, 120), dict(k, steps=10))], "store")
    c.binding(jobs, "compared", OPS)
    c.validate(jobs)


M = "micromath,alloc,fixed"
SCALARS = {k: ("ScalarTraceRat", "ScalarTraceRat.cfg") for k in SC}


@check("C15")
def c15(c):
    n = c.n
    st = n(25, 60)
    linear = ["predict", "tuned", "control", "npredict", "ntuned"]
    tight = {"env": {"KH_SHIFT": "12"}, "steps": st}       # these do not use the approximate square root
    for feats, tag, kinds, h in (
            (A, "a", ["f32", "f64"], [("f32", OPS, 60, {"steps": st}), ("f64", OPS, 60, {"steps": st})]),
            (B, "b", ["f32", "f64", "i16f16", "i32f32"],
             [("f32", OPS, 30, {"steps": st}), ("f64", OPS, 30, {"steps": st}), ("i16f16", OPS, 40, {"steps": st}), ("i32f32", OPS, 32, {"steps": st})]),
            (M, "m", ["f32", "f64", "i16f16", "i32f32"],
             [("f32", OPS, 40, {"steps": st}), ("f64", OPS, 40, {"steps": st}), ("f32", linear, 24, tight), ("f64", linear, 24, tight),
              ("i16f16", OPS, 16, {"steps": st}), ("i32f32", OPS, 16, {"steps": st})])):
        jobs = hist(c, feats, tag + "s", ["recip", "sqrt"], [("scalars", k, n(8, 400), {"files": n(2, 8)}) for k in kinds], "scalars", SCALARS)
        for sc, j, k, kw in h:
            jobs += hist(c, feats, tag + j[-1], j, [("history", sc, n(k, 10 * k), kw)])
        if tag == "a":
            c.binding(jobs, "scalar", ["scalar"], which="-f32-")
            c.binding(jobs, "value", OPS, which="-f64-")
        c.validate(jobs)


NALGEBRA = ["libm,alloc,nalgebra,unsafe", "std,fixed,nalgebra,unsafe,no_assert"]
NSC = {k: ("NalgebraTraceGF", "NalgebraTraceGF.cfg") if k == "gf" else ("NalgebraTraceRat", "NalgebraTraceRat.cfg") for k in SC}


@check("C21")
def c21(c):
    n = c.n
    for feats, tag in zip(NALGEBRA, "ab"):
        jobs = hist(c, feats, tag, ["view", "flat", "frame", "access", "beyond"],
                    [("nalgebra", "gf", n(60, 1200), {}), ("nalgebra", "f32", n(20, 400), {}), ("nalgebra", "f64", n(20, 400), {})], "nalg", NSC)
        if tag == "a":
            c.binding(jobs, "result", ["shows"])
        c.validate(jobs)


FEATURES = ["std", "libm", "micromath", "alloc", "fixed", "unsafe", "nalgebra", "no_assert"]
ALL = [",".join(c) for k in range(9) for c in itertools.combinations(FEATURES, k)]
# with and without an allocator, each back-end alone and with others, each remaining feature on and off
SOME = ["libm,alloc", "", "libm", "alloc,fixed", "libm,unsafe,no_assert", "libm,alloc,fixed,nalgebra", "std,fixed,no_assert", "std,unsafe,nalgebra",
        "micromath,alloc", "micromath,fixed,unsafe,nalgebra,no_assert", "libm,micromath,alloc,unsafe", "libm,alloc,no_assert,nalgebra,unsafe,fixed",
        ",".join(FEATURES)]


def backend(f):
    return next((b for b in ("std", "libm", "micromath") if b in f.split(",")), None)


def runs(c, feats, target, seed, count):
    """Records the executions of bin config under a feature set: {(scalar, mode): trace files}"""
    env = dict(c.CARGO, CARGO_TARGET_DIR=target)
    cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", feats, "--bin", "config"]
    from check import V, Broken
    r = c.sh(cmd, 600, env, os.path.join(V, "harness"))
    if r.returncode:
        return r.stdout
    exe = os.path.join(c.dir, "config-" + feats.replace(",", "-"))
    shutil.copy2(os.path.join(target, "debug", "config"), exe)
    out = {}
    scs = ["gf"] + (["f32", "f64"] if backend(feats) else []) + (["i16f16"] if "fixed" in feats.split(",") else [])
    for sc in scs:
        for mode, k, judge in (("history", count, OPS + ["frame", "set", "read", "dims"]), ("matrix", 2 * count, ["arith", "access", "frame"])):
            d = os.path.join(c.dir, "conf", feats.replace(",", "-") or "none")
            name = f"{sc}-{mode}"
            r = c.sh([exe, f"out={d}", f"name={name}", "files=1", f"mode={mode}", f"scalar={sc}", f"n={k}", "steps=14",
                      f"seed={seed}", "judge=" + ",".join(judge)], 300, cwd=c.dir)
            if r.returncode:
                raise Broken(f"config {feats} {sc} {mode}: {r.stdout[-800:]}")
            out[sc, mode] = os.path.join(d, f"{name}.0.ndjson")
    os.remove(exe)
    return out


def digests(trace):
    d, h = [], None
    with open(trace) as f:
        for line in f:
            if '"e":"begin"' in line:
                if h:
                    d.append(h.hexdigest()[:12])
                h = hashlib.sha256()
            h.update(re.sub('"heap":[0-9]+,?', '', line).encode())
    return d + [h.hexdigest()[:12]]


@check("C20")
def c20(c):
    from check import WORK
    repo = "/repo"

    def compiled(feats, target):
        r = c.sh(["cargo", "check", "-q", "-p", "minikalman", "--lib", "--offline", "--no-default-features", "--features", feats],
                 600, dict(c.CARGO, CARGO_TARGET_DIR=target), repo)
        err = next((x for x in r.stdout.splitlines() if x.startswith("error")), "")
        return {"e": "build", "f": [x for x in feats.split(",") if x], "ok": r.returncode == 0, "msg": err}

    events = c.configurations(ALL, compiled)
    some = [f for f in (SOME if c.quick else ALL) if next(e for e in events if e["f"] == [x for x in FEATURES if x in f.split(",")])["ok"]]
    got = c.configurations(some, lambda f, t: runs(c, f, t, c.seed, c.n(18, 40)))
    jobs, classes = [], set()
    for f, g in zip(some, got):
        fl = [x for x in f.split(",") if x]
        if isinstance(g, str):
            events.append({"e": "build", "f": fl, "ok": False, "msg": "a user of the library does not compile: " + next((x for x in g.splitlines() if x.startswith("error")), "?")})
            continue
        for (sc, mode), t in g.items():
            d = digests(t)
            events.append({"e": "run", "f": fl, "s": sc, "m": mode, "d": d})
            k = (None if sc in ("gf", "i16f16") else backend(f), sc, mode)
            if k not in classes:      # what agrees with this one need not be validated again
                classes.add(k)
                jobs.append((f"{f}-{sc}-{mode}", *(SC if mode == "history" else MSC)[sc], t))
    events.append({"e": "end"})
    p = os.path.join(c.dir, "features.ndjson")
    with open(p, "w") as o:
        o.writelines(json.dumps(e) + "\n" for e in events)
    c.cov["samples"].append([json.dumps(e)[:300] for e in events[:3] + events[256:260]])
    jobs.insert(0, ("features", "FeatureTrace", "FeatureTrace.cfg", p))
    c.binding(jobs[:1], "digest", ["run"], count=1, which="features")
    c.validate(jobs)
    for k in range(8):
        shutil.rmtree(os.path.join(WORK, f"conf-{k}"), ignore_errors=True)


PROBE = """#![no_std]
#![no_main]
extern crate %s;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
"""


def needs(c, name, args, cwd):
    """What a program needs that has nothing but this crate: (the standard library, an allocator), or the compiler's complaint."""
    from check import Broken
    src = os.path.join(cwd, "probe.rs")
    with open(src, "w") as f:
        f.write(PROBE % name)
    r = c.sh(["rustc", "--edition=2021", "--crate-type=bin", "--emit=metadata", "-C", "panic=abort", "-o", os.path.join(cwd, "probe.rmeta"), src] + args,
             120, c.CARGO, cwd)
    std, alloc = "duplicate lang item `panic_impl`" in r.stdout, "no global memory allocator" in r.stdout
    if (r.returncode == 0) == (std or alloc):
        raise Broken(f"cannot tell what {name} needs: " + r.stdout[-900:])
    return std, std or alloc


@check("C25")
def c25(c):
    from check import WORK, V, Broken
    import typeprogs
    c.java()
    d = os.path.join(c.dir, "probe")
    os.makedirs(d)
    if (needs(c, "core", [], d), needs(c, "alloc", [], d), needs(c, "std", [], d)) != ((False, False), (False, True), (True, True)):
        raise Broken("the compiler does not tell what a crate needs")

    def probed(feats, target):
        def build(*flags):
            return c.sh(["cargo", "rustc", "--profile", "check", "-p", "minikalman", "--lib", "--offline", "--no-default-features",
                         "--message-format=json", "--features", feats, "--", "-Awarnings"] + list(flags),
                        600, dict(c.CARGO, CARGO_TARGET_DIR=target), "/repo")
        fl = [x for x in feats.split(",") if x]
        r = build("-Funsafe_code")
        safe = r.returncode == 0
        msg = "" if safe else next((m for m in re.findall(r'"message":"([^"]*unsafe[^"]*)"', r.stdout)), "")
        r = r if safe else build()
        metas = typeprogs.rmetas(r.stdout)
        if r.returncode or not metas:
            return {"e": "env", "f": fl, "ok": False, "std": False, "alloc": False, "unsafe": False, "use": False, "msg": "does not build"}
        w = os.path.join(target, "probe")
        os.makedirs(w, exist_ok=True)
        lib = ["--extern", f"minikalman={metas[0]}", "-L", "dependency=" + os.path.dirname(metas[0])]
        std, alloc = needs(c, "minikalman", lib, w)
        has = {"float": backend(feats), "fixed": "fixed" in fl, "owned": backend(feats) and {"std", "alloc"} & set(fl)}
        r = c.sh(["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "-C", "panic=abort", "-Awarnings", "-o", os.path.join(w, "use.rmeta"),
                  os.path.join(V, "harness", "probe", "use.rs")] + lib + [x for k in has if has[k] for x in ("--cfg", k)], 120, c.CARGO, w)
        # the program brings its own panic handler, which is one too many if the library needs std
        err = [x for x in r.stdout.splitlines() if x.startswith("error") and "panic_impl" not in x and "aborting" not in x]
        return {"e": "env", "f": fl, "ok": True, "std": std, "alloc": alloc, "unsafe": not safe, "use": not err, "msg": msg or "".join(err[:1])}

    events = c.configurations(ALL, probed)
    built = sum(e["ok"] for e in events)
    if not built:
        raise Broken("nothing builds")
    c.cov["recordings"].append(f"{built} of {len(events)} configurations probed: {sum(e['std'] for e in events)} need std, "
                               f"{sum(e['alloc'] for e in events)} an allocator, {sum(e['unsafe'] for e in events)} contain unsafe code")
    p = os.path.join(c.dir, "needs.ndjson")
    with open(p, "w") as o:
        o.writelines(json.dumps(e) + "\n" for e in events + [{"e": "end"}])
    c.cov["samples"].append([json.dumps(e) for e in events[::40]])
    c.cov["traces_validated_against_impl"] += built
    jobs = [("needs", "FeatureTrace", "FeatureTrace.cfg", p)]
    c.binding(jobs, "need", ["env"], count=1, which="needs")
    c.validate(jobs)
    for k in range(8):
        shutil.rmtree(os.path.join(WORK, f"conf-{k}"), ignore_errors=True)


@check("C24")
def c24(c):
    import typeprogs
    from check import Broken, V
    c.java()
    plan = os.path.join(c.dir, "programs")
    r = c.tlc("TypePlan", "TypePlan.cfg", {"PLAN": plan}, 300)
    if r.returncode:
        raise Broken("no programs: " + r.stdout[-900:])
    programs = []
    for k in range(1, 100):
        if not os.path.exists(plan + str(k)):
            break
        with open(plan + str(k)) as f:
            programs += [json.loads(x) for x in f]
    jobs = []
    # what fits together depends on no feature: under all of these the verdicts are the same ones
    for feats in (A, B) if c.quick else (A, B, "libm", "micromath,alloc", "libm,no_assert", "std,fixed,nalgebra,unsafe,no_assert"):
        metas, rustc = crate_meta(c, feats)
        d = os.path.join(c.dir, re.sub(r"\W+", "-", feats))
        os.makedirs(d)
        ok, msg, bad = typeprogs.compiled(programs, rustc, d, 8, lambda cmd: c.sh(cmd, 600, c.CARGO, d))
        if bad:
            raise Broken("a crate that does not compile, for no program's fault: " + bad[0])
        p = os.path.join(c.dir, f"types-{len(jobs)}.ndjson")
        with open(p, "w") as f:
            for i, (q, o) in enumerate(zip(programs, ok)):
                f.write(json.dumps({"e": "prog", "p": q, "ok": o, "msg": msg.get(i, ""), "rust": typeprogs.render(q)}) + "\n")
            f.write('{"e":"end"}\n')
        jobs.append((f"types-{feats}", "TypeTrace", "TypeTrace.cfg", p))
        c.cov["recordings"].append(f"{feats}: {len(programs)} programs compiled, {sum(ok)} accepted")
        c.cov["traces_validated_against_impl"] += len(programs)
    c.cov["samples"].append([typeprogs.render(q) for q in programs[:: len(programs) // 10]])
    c.binding(jobs[:1], "verdict", ["prog"], count=1, which="types")
    c.validate(jobs)


def crate_meta(c, feats):
    """The library as the compiler sees it, and how to compile against it."""
    import typeprogs
    from check import Broken, V
    env = dict(c.CARGO, CARGO_TARGET_DIR=os.path.join(os.path.dirname(c.dir), "target"))
    r = c.sh(["cargo", "check", "--offline", "--no-default-features", "--features", feats, "--lib", "--message-format=json"],
             800, env, os.path.join(V, "harness"))
    metas = typeprogs.rmetas(r.stdout)
    if r.returncode or not metas:
        raise Broken(f"the library does not build with {feats}: " + r.stdout[-2000:])
    return metas, ["rustc", "--edition=2021", "--crate-type=lib", "--extern", f"minikalman={metas[0]}", "-L", "dependency=" + os.path.dirname(metas[0])]
