#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, records executions,
and has TLC decide whether they are behaviours of the specification.

usage: check.py C01 [--tier quick|thorough] [--seed N] [--keep]
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.modules.setdefault("check", sys.modules[__name__])      # one module, however it is imported
WORK = os.path.join(V, "work")
TLA = "/opt/veriftools/tla"
CORES = os.cpu_count() or 8


class Broken(Exception):
    """The check itself failed: no verdict."""


class Refused(Exception):
    """A program that the property says is fine does not compile, although the library does."""


class Ctx:
    SURFACE = ("C16", "C17", "C18", "C19", "C21")      # properties of what can be written down: traits, builders, macros, constructors

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(WORK, f"{pid}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []          # (description, replay path)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "samples": [], "models": [], "recordings": []}
        self.counts = {}
        self.bins = {}
        self.found = {}               # known findings met: id -> how often
        self.background = cf.ThreadPoolExecutor(1)
        self.pending = []             # models being checked meanwhile

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ tools
    def sh(self, cmd, timeout=600, env=None, cwd=None):
        e = dict(os.environ)
        e.update(env or {})
        try:
            return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            out = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            return subprocess.CompletedProcess(cmd, 124, out + "\n[timeout]")

    def java(self):
        out = os.path.join(WORK, "java")
        os.makedirs(out, exist_ok=True)
        src = os.path.join(V, "java", "kalmanspec")
        files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
        stamp = os.path.join(out, "stamp")
        if not os.path.exists(stamp) or any(os.path.getmtime(f) > os.path.getmtime(stamp) for f in files):
            r = self.sh(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", out] + files)
            if r.returncode:
                raise Broken("javac: " + r.stdout[-2000:])
            open(stamp, "w").close()
        return out

    CARGO = {"CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
             "CARGO_TERM_COLOR": "never", "RUSTFLAGS": "-Awarnings"}

    def build(self, feats, bins, profile=None):
        """Builds harness binaries with a set of the crate's features; returns their paths.

        One of the two usual feature sets is built without debug assertions and overflow checks, as in a release
        (in the thorough tier with optimisations, too): nothing may depend on an assertion being evaluated."""
        profile = profile or ("dev" if "std" not in feats.split(",") else "plain" if self.quick else "release")
        key = (feats, tuple(bins), profile)
        if key in self.bins:
            return self.bins[key]
        env = dict(self.CARGO, CARGO_TARGET_DIR=os.path.join(WORK, "target"))
        cmd = ["cargo", "build", "--offline", "--no-default-features", "--features", feats, "--profile", profile]
        for b in bins:
            cmd += ["--bin", b]
        r = self.sh(cmd, 800, env, os.path.join(V, "harness"))
        if r.returncode and self.pid in self.SURFACE and re.search(r"^error(\[E\d+\])?:", r.stdout, re.M):
            alone = self.sh(["cargo", "build", "--offline", "-p", "minikalman", "--lib", "--no-default-features", "--features", feats],
                            600, env, "/repo")
            if alone.returncode == 0:
                os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
                p = os.path.join(WORK, "replay", f"{self.pid}-{len(self.violations)}.compiler.txt")
                with open(p, "w") as f:
                    f.write(f"# in {V}/harness\n{' '.join(cmd)}\n{r.stdout}")
                raise Refused("the compiler refuses a use the property promises: "
                              + re.search(r"^error.*(?:\n.*)?", r.stdout, re.M).group(0), p)
        if r.returncode:
            raise Broken(f"harness does not build with {feats}:\n" + r.stdout[-4000:])
        out = {}
        d = os.path.join(self.dir, "bin-" + re.sub(r"\W+", "-", feats) + profile)
        os.makedirs(d, exist_ok=True)
        for b in bins:
            src = os.path.join(WORK, "target", "debug" if profile == "dev" else profile, b)
            out[b] = shutil.copy2(src, os.path.join(d, b))
        self.bins[key] = out
        return out

    def configurations(self, todo, f):
        """Runs f(features, target directory) for many feature sets in parallel, a target directory per worker."""
        import queue
        q = queue.Queue()
        for k in range(CORES):
            q.put(os.path.join(WORK, f"conf-{k}"))

        def one(x):
            d = q.get()
            try:
                return f(x, d)
            finally:
                q.put(d)

        with cf.ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(one, todo))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=600, args=(), heavy=False):
        meta = os.path.join(self.dir, "meta", str(time.time_ns()))
        os.makedirs(meta)
        jvm = ["-XX:+UseParallelGC", "-Xmx12g"] if heavy else ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx2500m"]
        cmd = ["java", "-Xss256m"] + jvm + [
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:kalmanspec.Overrides",
            "-Djava.io.tmpdir=" + meta,
            "-cp", f"{self.java()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
            "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + (list(args) or ["-workers", "1"]) + [module]
        r = self.sh(cmd, timeout, env, os.path.join(V, "spec"))
        shutil.rmtree(meta, ignore_errors=True)
        return r

    def validate(self, jobs, timeout=600):
        """jobs: (label, module, cfg, trace file).  Validates recorded traces in parallel."""
        self.java()

        def one(job):
            label, module, cfg, trace = job
            return job, self.tlc(module, cfg, {"TRACE": trace}, timeout)

        with cf.ThreadPoolExecutor(CORES) as ex:
            results = list(ex.map(one, jobs))
        broken = None
        for (label, module, cfg, trace), r in results:
            out = r.stdout
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if m:
                self.cov["transitions"] += int(m.group(1))
                self.cov["states"] += int(m.group(2))
            for k, v in re.findall(r'<<"COUNT", "([^"]+)", (\d+)>>', out):
                self.counts[k] = self.counts.get(k, 0) + int(v)
            for k in re.findall(r'<<"FINDING", "([^"]+)">>', out):
                self.found[k] = self.found.get(k, 0) + 1
                if k not in KNOWN.get(self.pid, {}):
                    self.violations.append((f"{label}: finding {k}, which is not listed", trace_copy(trace, self)))
                    break
            if r.returncode == 0 and "No error has been found" in out:
                n, b, aborted = 0, 0, 0
                with open(trace) as f:
                    for line in f:
                        n += 1
                        b += '"e":"begin"' in line
                        aborted += '"op":"scenario"' in line
                if 2 * aborted > b:
                    broken = f"{label}: {aborted} of {b} scenarios could not be carried out"
                self.cov["traces_validated_against_impl"] += b
                self.cov["events_validated"] += n
                continue
            if r.returncode == 124 or "OutOfMemoryError" in out or "StackOverflowError" in out or "Parsing or semantic analysis failed" in out or not m:
                broken = f"TLC on {trace}: " + out[-900:]
                continue
            if "Postcondition" not in out and '"REJECT"' not in out:
                broken = f"TLC cannot evaluate {trace}: " + out[-900:]
                continue
            # rejected: the first event that is no step of the specification
            rej = re.findall(r'<<\s*"REJECT",.*', out)
            what = (self.block(out) or (rej[0] if rej else out[-600:]))
            line = int(m.group(2))
            self.violations.append((f"{label}: {what}", self.replay(trace, line, what, module, cfg)))
        if broken:
            raise Broken(broken)

    @staticmethod
    def block(out):
        i = out.find('"REJECT"')
        if i < 0:
            return None
        i = out.rfind("<<", 0, i)
        depth, j = 0, i
        while j < len(out) - 1:
            if out[j:j + 2] == "<<":
                depth += 1
                j += 2
            elif out[j:j + 2] == ">>":
                depth -= 1
                j += 2
                if depth == 0:
                    return re.sub(r"\s+", " ", out[i:j])[:1500]
            else:
                j += 1
        return re.sub(r"\s+", " ", out[i:i + 800])

    def replay(self, trace, line, what, module, cfg):
        """Keeps the scenario that was rejected."""
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        lines = open(trace).read().splitlines()
        line = min(line, len(lines))
        start = max(i for i in range(line) if '"e":"begin"' in lines[i] or i == 0)
        p = os.path.join(d, f"{self.pid}-{len(self.violations)}.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(lines[start:line]) + "\n")
        with open(p + ".txt", "w") as f:
            f.write(f"property {self.pid}\nmodule {module} config {cfg}\nrejected event: last line of {p}\n{what}\n"
                    f"check again: cd {V}/spec && TRACE={p} tlc -config {cfg} {module}\n")
        return p

    def record(self, bins, b, name, spec, files=None, timeout=300, env=None, **args):
        """Runs a recording binary; returns validation jobs for its traces."""
        d = os.path.join(self.dir, "traces")
        os.makedirs(d, exist_ok=True)
        files = files or CORES
        cmd = [bins[b], f"out={d}", f"name={name}", f"files={files}"] + [f"{k}={v}" for k, v in args.items()]
        r = self.sh(cmd, timeout, env, cwd=self.dir)
        if r.returncode < 0 and r.returncode != -9:
            # the library brought the program down (memory corrupted, the stack exhausted, a panic within a panic)
            os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
            p = os.path.join(WORK, "replay", f"{self.pid}-{len(self.violations)}.crash.txt")
            with open(p, "w") as f:
                f.write(f"{' '.join(cmd)}\n{r.stdout}")
            self.violations.append((f"{name}: the program was ended by signal {-r.returncode} in a call", p))
            return []
        if r.returncode:
            raise Broken(f"{' '.join(cmd)}: exit {r.returncode}\n{r.stdout[-2000:]}")
        self.cov["recordings"].append(f"{name}: {r.stdout.strip()}")
        module, cfg = spec
        out = []
        for k in range(files):
            t = os.path.join(d, f"{name}.{k}.ndjson")
            if os.path.getsize(t):
                out.append((name, module, cfg, t))
        if out and len(self.cov["samples"]) < 3:
            self.cov["samples"].append(self.sample(out[0][3]))
        return out

    @staticmethod
    def sample(trace):
        s = []
        with open(trace) as f:
            for line in f:
                if s and '"e":"begin"' in line:
                    break
                s.append(line.strip()[:400])
                if len(s) >= 14:
                    break
        return s

    def model(self, module, cfg, what, timeout=3000, workers=None, args=None, env=None):
        """Exhaustive check of a model; a failure means the specification is wrong."""
        r = self.tlc(module, cfg, env, timeout, args or ["-workers", str(workers or CORES)], heavy=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if r.returncode or not m:
            raise Broken(f"model {module}/{cfg}: exit {r.returncode}\n{r.stdout[-900:]}")
        self.cov["transitions"] += int(m.group(1))
        self.cov["states"] += int(m.group(2))
        self.cov["models"].append(f"{module} ({cfg}): {what}; {m.group(2)} states")
        return r.stdout

    def laws(self, module, cfg, what, **kw):
        """The same, while other work goes on; settle() waits for it."""
        self.java()
        self.pending.append(self.background.submit(self.model, module, cfg, what, workers=4, **kw))

    def faulty(self, module, cfg, faults):
        """A model with a step done wrongly (one of several, by seed) has to be rejected: the check is not vacuous."""
        fault = faults[self.seed % len(faults)]
        p = os.path.join(self.dir, "faulty-" + cfg)
        with open(os.path.join(V, "spec", cfg)) as f, open(p, "w") as g:
            a, b = fault if isinstance(fault, tuple) else ('Fault = "none"', f'Fault = "{fault}"')
            g.write(f.read().replace(a, b))

        def go():
            r = self.tlc(module, p, None, 600, ["-workers", "2"], heavy=True)
            if " is violated" not in r.stdout:
                raise Broken(f"{module} with the fault '{fault}' is not rejected:\n{r.stdout[-900:]}")
            self.cov["models"].append(f"{module} with the fault '{fault}': rejected, as it has to be")
        self.java()
        self.pending.append(self.background.submit(go))

    def binding(self, jobs, how, kinds, count=3, which="-gf-"):
        """The specification must reject recorded traces in which something that is judged was changed."""
        import tamper
        traces = [j for j in jobs if which in j[0] and os.path.exists(j[3])]
        if not traces:
            raise Broken(f"no trace to falsify ({which})")
        label, module, cfg, trace = traces[self.seed % len(traces)]
        made = []
        for label, module, cfg, trace in traces[self.seed % len(traces):] + traces:
            made = tamper.falsified(trace, how, kinds, count, self.seed, os.path.join(self.dir, f"{how.replace(' ', '-')}-{len(self.pending)}"))
            if made:
                break
        else:
            raise Broken(f"nothing to falsify: {how} of {kinds}")

        def go():
            n = 0
            for p in made:
                r = self.tlc(module, cfg, {"TRACE": p}, 300)
                n += '"REJECT"' in r.stdout
            # not every change is visible to what is judged (a covariance that had no premise, say), but not none of them
            if not n:
                keep = os.path.join(WORK, "replay", f"accepted-{self.pid}-{os.path.basename(made[0])}")
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy2(made[0], keep)
                raise Broken(f"falsified traces ({how} of {','.join(kinds)} in {label}) are accepted: {keep}\n{r.stdout[-600:]}")
            self.cov["falsified_traces"] = self.cov.get("falsified_traces", 0) + len(made)
            self.cov["falsified_traces_rejected"] = self.cov.get("falsified_traces_rejected", 0) + n
        self.java()
        self.pending.append(self.background.submit(go))

    def settle(self):
        for f in self.pending:
            f.result()

    # ------------------------------------------------------------------ verdict
    def finish(self, keep):
        cov = dict(self.cov)
        if self.counts:
            cov["judged"] = self.counts
        level = LEVELS.get(self.pid, "model_checking")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.violations:
            ev["violations"] = [v[0] for v in self.violations][:20]
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not keep:
            shutil.rmtree(self.dir, ignore_errors=True)
        for k, what in KNOWN.get(self.pid, {}).items():
            if self.found.get(k):
                print(f"KNOWN-FINDING: property={self.pid} {k}: {what} (met {self.found[k]} times)")
        for what, replay in self.violations[:5]:
            print(what[:1200])
            print(f"VIOLATION property={self.pid} replay={replay}")
        if not self.violations:
            print(f"{self.pid} holds: {cov['traces_validated_against_impl']} traces, "
                  f"{cov['events_validated']} events validated, {cov['states']} states, {ev['wall_s']} s")
        return 1 if self.violations else 0


LEVELS = {}


def trace_copy(trace, c):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    return shutil.copy2(trace, os.path.join(d, f"{c.pid}-{len(c.violations)}.ndjson"))


def known():
    """open: property=<id> finding=<name> <what fails>"""
    k = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"open: property=(\S+) finding=(\S+) (.*)", line.strip())
        if m:
            k.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return k


KNOWN = known()


def main():
    import props
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    c = Ctx(pid, tier, seed)
    try:
        props.CHECKS[pid](c)
        c.settle()
        code = c.finish("--keep" in a)
    except Refused as e:
        c.violations.append(e.args)
        code = c.finish("--keep" in a)
    except Broken as e:
        print(f"check {pid} could not be completed: {e}", file=sys.stderr)
        # a violation that was found before is one nevertheless
        code = c.finish("--keep" in a) if c.violations else 2
        if "--keep" not in a:
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
