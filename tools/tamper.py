"""Falsified traces: what a check would be worth nothing if it accepted them."""
import json
import random

CALLS = ["predict", "tuned", "npredict", "ntuned", "control", "correct", "ncorrect"]


def scenarios(trace):
    s = []
    with open(trace) as f:
        for line in f:
            e = json.loads(line)
            if e["e"] == "begin":
                if s:
                    yield s
                s = []
            s.append(e)
    if s:
        yield s


def other(v):
    """Another scalar: in a field, or much larger."""
    if isinstance(v, int):
        return v - 1 if v else 1
    return "77p60" if v != "77p60" else "1p0"


def value(e, r, ext, want=lambda k: True):
    """A changed element of what the call has changed."""
    ks = [k for k in e.get("d", {}) if e["d"][k] and ext.get(k, 1) and want(k)]
    if not ks:
        return False
    k = r.choice(ks)
    v = e["d"][k]
    i = r.randrange(min(len(v), ext.get(k, len(v))))
    v[i] = other(v[i])
    return True


def falsify(s, how, kinds, r):
    """Changes one event of a scenario; says whether there was one to change."""
    ext, hit = {}, []
    mem = {}
    for i, e in enumerate(s):
        if e["e"] == "new":
            ext.update(e["n"])
            mem.update(e["b"])
        if e["e"] == "mat":
            ext[e["o"]] = e["r"] * e["c"]
            mem[e["o"]] = e["v"]
        if e["e"] not in kinds:
            continue
        t = json.loads(json.dumps(e))
        ok = False
        if how == "value":
            ok = value(t, r, ext)
        elif how == "frame":
            mine = {e.get("f"), e.get("o"), e.get("c")} if e["e"] in CALLS else {e.get("to"), e.get("a")}
            ks = [k for k in mem if k not in t.get("d", {}) and k.split(".")[0] not in mine and mem[k]]
            if ks and "d" in t:
                k = r.choice(ks)
                t["d"][k] = [other(v) for v in mem[k]]
                ok = True
        elif how == "surplus":
            ks = [k for k in t.get("d", {}) if len(t["d"][k]) > ext.get(k, 1 << 30)]
            if ks:
                v = t["d"][r.choice(ks)]
                v[-1] = other(v[-1])
                ok = True
        elif how == "asymmetric":
            ks = [k for k in t.get("d", {}) if k.endswith(".P") and ext[k] > 1]
            if ks:
                v = t["d"][r.choice(ks)]
                v[1] = other(v[1])
                ok = True
        elif how == "compared":
            # the result of the last call before a comparison that takes it into account
            n = next((x for x in s[i + 1:i + 3] if x["e"] == "same"), None)
            if n and n["oa"] == "ok":
                names = {p[0] for p in n["p"]}
                ok = value(t, r, ext, lambda k: k in names)
        elif how == "result":
            if t.get("v"):
                t["v"][0] = other(t["v"][0])
                ok = True
        elif how == "inverse":
            if s[i - 1]["e"] == "chol" and s[i - 1]["ret"] and s[i - 1]["a"] == t["a"]:
                ok = value(t, r, ext)
        elif how == "scalar":
            if t["op"] == "recip":
                t["v"] = other(t["v"])
                ok = True
        elif how == "digest":
            if any(x is not e and x["e"] == "run" and (x["s"], x["m"], x["d"]) == (t["s"], t["m"], t["d"]) for x in s):
                t["d"][-1] = "0"
                ok = True
        elif how == "outcome":
            if t.get("how") == "checked" and t["checking"] and not t["ok"]:
                t.update(ok=True, v=t["given"], q=[0] * 6)
                ok = True
        elif how == "verdict":
            t["ok"] = not t["ok"]
            ok = True
        elif how == "need":
            if t["ok"] and not t["alloc"]:
                t["alloc"] = ok = True
        elif how == "heap":
            t["heap"] = 1
            ok = True
        elif how == "not refused":
            if t.get("d") == {} and t["f"] + ".x" in mem:
                t["d"] = {t["f"] + ".x": [other(v) for v in mem[t["f"] + ".x"]]}
                ok = True
        if ok:
            hit.append((i, t))
    if not hit:
        return None
    i, t = r.choice(hit)
    return s[:i] + [t] + s[i + 1:]


def falsified(trace, how, kinds, count, seed, out):
    """Writes up to `count` falsified scenarios; returns their files."""
    r = random.Random(seed)
    ss = list(scenarios(trace))
    r.shuffle(ss)
    made = []
    for s in ss:
        f = falsify(s, how, kinds, r)
        if f:
            p = f"{out}-{len(made)}.ndjson"
            with open(p, "w") as o:
                for e in f:
                    o.write(json.dumps(e, separators=(",", ":")) + "\n")
            made.append(p)
            if len(made) == count:
                break
    return made
