"""The programs of Types.tla as Rust, and what the compiler says to them."""
import json
import os
import re

# role -> type (constant, writable), interface (to read, to write)
NAMES = {
    "A": ("StateTransitionMatrixBuffer", "StateTransitionMatrixMutBuffer", "StateTransitionMatrix", "StateTransitionMatrixMut"),
    "x": (None, "StateVectorBuffer", "StateVector", "StateVectorMut"),
    "P": (None, "EstimateCovarianceMatrixBuffer", None, "EstimateCovarianceMatrix"),
    "Qd": ("DirectProcessNoiseCovarianceMatrixBuffer", "DirectProcessNoiseCovarianceMatrixMutBuffer",
           "DirectProcessNoiseCovarianceMatrix", "DirectProcessNoiseCovarianceMatrixMut"),
    "px": (None, "PredictedStateEstimateVectorBuffer", None, "PredictedStateEstimateVector"),
    "tP": (None, "TemporaryStateMatrixBuffer", None, "TemporaryStateMatrix"),
    "u": (None, "ControlVectorBuffer", "ControlVector", "ControlVectorMut"),
    "B": ("ControlMatrixBuffer", "ControlMatrixMutBuffer", "ControlMatrix", "ControlMatrixMut"),
    "Qc": ("ControlProcessNoiseCovarianceMatrixBuffer", "ControlProcessNoiseCovarianceMatrixMutBuffer",
           "ControlProcessNoiseCovarianceMatrix", "ControlProcessNoiseCovarianceMatrixMut"),
    "tBQ": (None, "TemporaryBQMatrixBuffer", None, "TemporaryBQMatrix"),
    "z": (None, "MeasurementVectorBuffer", "MeasurementVector", "MeasurementVectorMut"),
    "H": ("ObservationMatrixBuffer", "ObservationMatrixMutBuffer", "ObservationMatrix", "ObservationMatrixMut"),
    "R": (None, "MeasurementNoiseCovarianceMatrixBuffer", None, "MeasurementNoiseCovarianceMatrix"),
    "y": (None, "InnovationVectorBuffer", None, "InnovationVector"),
    "S": (None, "InnovationCovarianceMatrixBuffer", None, "InnovationCovarianceMatrix"),
    "K": (None, "KalmanGainMatrixBuffer", None, "KalmanGainMatrix"),
    "tSi": (None, "TemporaryResidualCovarianceInvertedMatrixBuffer", None, "TemporaryResidualCovarianceInvertedMatrix"),
    "tHP": (None, "TemporaryHPMatrixBuffer", None, "TemporaryHPMatrix"),
    "tPHt": (None, "TemporaryPHTMatrixBuffer", None, "TemporaryPHTMatrix"),
    "tKHP": (None, "TemporaryKHPMatrixBuffer", None, "TemporaryKHPMatrix"),
}
TWO = {"B", "tBQ", "H", "K", "tHP", "tPHt"}      # their types have two dimensions
AXES = {"A": "SS", "x": "S1", "P": "SS", "Qd": "SS", "px": "S1", "tP": "SS", "u": "C1", "B": "SC", "Qc": "CC", "tBQ": "SC",
        "z": "M1", "H": "MS", "R": "MM", "y": "M1", "S": "MM", "K": "SM", "tSi": "MM", "tHP": "MS", "tPHt": "SM", "tKHP": "SS"}
SLOTS = {"regular": ["A", "x", "P", "Qd", "px", "tP"], "control": ["B", "u", "Qc", "tBQ"],
         "linear": ["H", "z", "R", "y", "S", "K", "tSi", "tHP", "tPHt", "tKHP"]}
SLOTS["extended"], SLOTS["nonlinear"] = SLOTS["regular"], SLOTS["linear"]
BUILDERS = {"regular": "regular::RegularKalmanBuilder", "extended": "extended::ExtendedKalmanBuilder", "control": "regular::ControlBuilder",
            "linear": "regular::RegularObservationBuilder", "nonlinear": "extended::ExtendedObservationBuilder"}
TYPES = {"regular": "regular::RegularKalman", "extended": "extended::ExtendedKalman", "control": "regular::Control",
         "linear": "regular::RegularObservation", "nonlinear": "extended::ExtendedObservation"}
READ = {("regular", "A"): "state_transition", ("extended", "A"): "state_transition_jacobian", ("regular", "Qd"): "direct_process_noise",
        ("extended", "Qd"): "direct_process_noise", ("control", "B"): "control_matrix", ("control", "Qc"): "process_noise_covariance",
        ("linear", "H"): "observation_matrix", ("nonlinear", "H"): "observation_jacobian_matrix"}


def data(d):
    (r, c), t = d["sh"], d["t"]
    return {"array": f"MatrixDataArray<{r}, {c}, {r * c}, {t}>", "slice": f"MatrixDataRef<'static, {r}, {c}, {t}>",
            "slice mut": f"MatrixDataMut<'static, {r}, {c}, {t}>", "box": f"MatrixDataBoxed<{r}, {c}, {t}>"}[d["how"]]


def dims(role, sh):
    return f"{sh[0]}, {sh[1]}" if role in TWO else f"{sh[0]}"


def buffer(b, inner=None):
    name = NAMES[b["role"]][1 if b["w"] else 0]
    return f"{name}<{dims(b['role'], b['sh'])}, {b['t']}, {inner or data({'how': 'array', 'sh': b['sh'], 't': b['t']})}>"


def sized(role, n, t="f32", w=None):
    v = dict(zip("SCM", n), **{"1": 1})
    return {"role": role, "w": role not in ("A", "Qd", "B", "Qc", "H") if w is None else w, "sh": [v[a] for a in AXES[role]], "t": t}


def built(kind, n, t, slot=None, b=None):
    """The type of a filter, a control or an observation, with one buffer replaced."""
    bufs = [buffer(b if r == slot else sized(r, n, t)) for r in SLOTS[kind]]
    p = {"control": f"{n[0]}, {n[1]}, {t}", "linear": f"{n[0]}, {n[2]}, {t}", "nonlinear": f"{n[0]}, {n[2]}, {t}"}.get(kind, f"{n[0]}, {t}")
    return f"{TYPES[kind]}<{p}, {', '.join(bufs)}>"


OWNED = {"regular": "regular::builder::KalmanFilterType<{s}, {t}>", "extended": "extended::builder::KalmanFilterType<{s}, {t}>",
         "control": "regular::builder::KalmanFilterControlType<{s}, 1, {t}>", "linear": "regular::builder::KalmanFilterObservationType<{s}, 1, {t}>",
         "nonlinear": "extended::builder::KalmanFilterObservationType<{s}, 1, {t}>"}
CLOSURE = {"correct_nonlinear": ", |_, _| {}"}


def render(p):
    k = p["k"]
    if k == "role":
        i = p["as"]
        trait = NAMES[i["role"]][3 if i["w"] else 2]
        return f"fn need<B: {trait}<{dims(i['role'], i['sh'])}, {i['t']}>>(_: B) {{}} need(any::<{buffer(p['buf'])}>());"
    if k == "storage":
        b = p["buf"]
        name = NAMES[b["role"]][1 if b["w"] else 0]
        return f"let _ = {name}::<{dims(b['role'], b['sh'])}, {b['t']}, _>::new(any::<{data(p['data'])}>());"
    if k == "build":
        n, kind = p["n"], p["kind"]
        args = [f"any::<{buffer(p['buf'] if j + 1 == p['slot'] else sized(r, n, p['t']))}>()" for j, r in enumerate(SLOTS[kind])]
        g = {"control": f"{n[0]}, {n[1]}, {p['t']}", "linear": f"{n[0]}, {n[2]}, {p['t']}", "nonlinear": f"{n[0]}, {n[2]}, {p['t']}"}.get(kind, f"{n[0]}, {p['t']}")
        return f"let _ = {BUILDERS[kind]}::new::<{g}>({', '.join(args)});"
    if k == "call":
        who = "extended" if p["op"] == "correct_nonlinear" else "regular"
        return (f"any::<{OWNED[who].format(s=p['s'], t=p['t'])}>().{p['op']}(&mut any::<{OWNED[p['with']].format(s=p['ws'], t=p['wt'])}>()"
                f"{CLOSURE.get(p['op'], '')});")
    if k == "apply":
        kind, op = {"control": ("control", "apply_control"), "correct": ("linear", "correct"), "correct_nonlinear": ("nonlinear", "correct_nonlinear")}[p["op"]]
        return (f"let _ = any::<{built(kind, p['n'], p['t'])}>().{op}(&mut any::<{buffer(p['x'])}>(), &mut any::<{buffer(p['P'])}>()"
                f"{CLOSURE.get(p['op'], '')});")
    if k == "access":
        f = built(p["kind"], [2, 3, 4], "f32", p["role"], sized(p["role"], [2, 3, 4], "f32", p["w"]))
        return f"let _ = any::<{f}>().{READ[p['kind'], p['role']]}{'_mut' if p['write'] else ''}();"
    if k == "op3":
        a, b, c = (data(p[x]) for x in "abc")
        aux = {"mult_buffered": f", &mut any::<[{p['a']['t']}; 3]>()"}.get(p["op"], "")
        scale = {"multscale_transb": f", any::<{p['a']['t']}>()"}.get(p["op"], "")
        return f"any::<{a}>().{p['op']}(&any::<{b}>(){scale}, &mut any::<{c}>(){aux});"
    if k == "op2":
        ref = "&" if p["op"] in ("add_inplace_a", "sub_inplace_a", "copy_from") else "&mut "
        return f"any::<{data(p['a'])}>().{p['op']}({ref}any::<{data(p['b'])}>());"
    if k == "op1":
        a, t = p["a"], p["a"]["t"]
        v = f"any::<{t}>()"
        args = {"get": "0, 0", "set": f"0, 0, {v}", "set_all": v, "clear": "", "set_zero": "", "set_at": f"0, 0, {v}", "get_at": "0, 0",
                "as_slice": "", "as_mut_slice": "", "get_row_copy": f"0, &mut any::<[{t}; 3]>()", "get_column_copy": f"0, &mut any::<[{t}; 3]>()",
                "make_identity": "", "make_scalar": v, "make_comatrix": f"{v}, {v}", "set_diagonal_to_scalar": v,
                "invert_l_cholesky": f"&mut any::<MatrixDataArray<{a['sh'][0]}, {a['sh'][1]}, {a['sh'][0] * a['sh'][1]}, {t}>>()",
                "get_value": "", "set_value": v, "get_row": "0", "set_row": f"0, {v}", "get_col": "0", "set_col": f"0, {v}"}[p["op"]]
        return f"let _ = any::<{data(a)}>().{p['op']}({args});"
    if k == "from":
        b, t = p["buf"], p["t"]
        n = b["sh"][0] * b["sh"][1]
        src = {"exact": f"[{t}; {n}]", "longer": f"[{t}; {n + 1}]", "slice": f"&'static [{t}]", "slice mut": f"&'static mut [{t}]"}[p["src"]]
        how = {"exact": "array", "longer": "array", "slice": "slice", "slice mut": "slice mut" if b["w"] else "slice"}[p["src"]]
        inner = f"MatrixDataArray<{b['sh'][0]}, {b['sh'][1]}, {n + (p['src'] == 'longer')}, {b['t']}>" if how == "array" else data({"how": how, "sh": b["sh"], "t": b["t"]})
        return f"let _: {buffer(b, inner)} = any::<{src}>().into();"
    if k == "borrow":
        b = p["buf"]
        (r, c), n = b["sh"], b["sh"][0] * b["sh"][1]
        make = {"array": f"MatrixData::new_array::<{r}, {c}, {n}, f32>(d)", "slice": f"MatrixData::new_ref::<{r}, {c}, f32>(&d)",
                "slice mut": f"MatrixData::new_mut::<{r}, {c}, f32>(&mut d)", "box": f"MatrixData::new_boxed::<{r}, {c}, f32, _>(Box::new(d) as Box<[f32]>)"}[p["how"]]
        name = NAMES[b["role"]][1 if b["w"] else 0]
        new = f"let mut d = [0.0f32; {n}]; let b = {name}::<{dims(b['role'], b['sh'])}, f32, _>::new({make});"
        if p["do"] == "escape":
            return f"fn local() -> {buffer(b, data({'how': p['how'], 'sh': b['sh'], 't': 'f32'}))} {{ {new} b }}"
        return f"{new} {'d[0] = 1.0;' if p['do'] == 'write' else 'let e = d[0];'} use_it(&b);"
    if k == "auto":
        b = p["buf"]
        t = {"f32": "f32", "Cell": "core::cell::Cell<f32>", "Rc": "std::rc::Rc<f32>"}[p["t"]]
        return f"fn need<B: {p['marker']}>() {{}} need::<{buffer(dict(b, t=t), data({'how': p['how'], 'sh': b['sh'], 't': t}))}>();"
    if k == "interface":
        f = writable(p["kind"], p["const"])
        g = [str(p["n"][a]) for a in "SCM" if a in p["n"]] + ([p["t"]] if p["name"] not in ("KalmanFilterNumStates", "KalmanFilterNumControls", "KalmanFilterNumObservations") else [])
        return f"fn need<F: {p['name']}<{', '.join(g)}>>() {{}} need::<{f}>();"
    raise ValueError(k)


def writable(kind, const):
    """Everything writable but one."""
    n = [2, 3, 4]
    bufs = [buffer(sized(r, n, "f32", r != const)) for r in SLOTS[kind]]
    p = {"control": "2, 3, f32", "linear": "2, 4, f32", "nonlinear": "2, 4, f32"}.get(kind, "2, f32")
    return f"{TYPES[kind]}<{p}, {', '.join(bufs)}>"


HEAD = """#![allow(warnings)]
use minikalman::{buffers::types::*, extended, matrix::*, prelude::*, regular};
fn any<T>() -> T { loop {} }
fn use_it<T>(_: &T) {}
"""


def compiled(programs, rustc, d, workers, sh):
    """For each program, does the compiler accept it?  All of them are functions of a few crates; a function with an
    error in it is refused, and those that remain have to make a crate without any errors."""
    import concurrent.futures as cf
    code = [render(p) for p in programs]
    ok = [True] * len(code)
    msg = {}

    def crate(name, idx):
        path = os.path.join(d, name + ".rs")
        idx = list(idx)
        while True:
            here = [i for i in idx if ok[i]]
            with open(path, "w") as f:
                f.write(HEAD + "".join(f"pub fn p{i}() {{ {code[i]} }}\n" for i in here))
            r = sh(rustc + ["--crate-name", "programs", "--error-format=json", "--emit=metadata", "-o", path + ".meta", path])
            hit = set()
            for line in r.stdout.splitlines():
                if not line.startswith("{"):
                    continue
                m = json.loads(line)
                if m.get("level") != "error":
                    continue
                for s in m["spans"]:
                    k = s["line_start"] - 1 - HEAD.count("\n")
                    if s["is_primary"] and s["file_name"] == path and 0 <= k < len(here):
                        hit.add(here[k])
                        msg.setdefault(here[k], m["message"])
            for i in hit:
                ok[i] = False
            if r.returncode == 0:
                return None
            if not hit:
                return r.stdout[-1500:]

    with cf.ThreadPoolExecutor(workers) as ex:
        bad = [x for x in ex.map(lambda w: crate(f"programs{w}", range(w, len(code), workers)), range(workers)) if x]
    return ok, msg, bad


def rmetas(out):
    """The artifacts cargo reports."""
    for line in out.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "minikalman" and "lib" in m["target"]["kind"]:
                return [f for f in m["filenames"] if re.search(r"\.rmeta$", f)]
    return []
