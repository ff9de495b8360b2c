"""Common machinery of the checks: building, running the harness, running TLC, evidence."""
import json, os, re, resource, subprocess, sys, time, random, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEIREN_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
CONF = os.path.join(TARGET, "debug", "conf")
CLI = os.path.join(TARGET, "debug", "seiren-cli")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{pid}/{self.seed}/{tier}")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.detail = {}
        self.samples = []
        self.assumptions = []
        self.n_tlc = 0

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--quiet"],
            cwd=os.path.join(VERIF, "harness"), env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("building the harness failed:\n" + p.stdout[-4000:])

    # -------------------------------------------------------------- harness
    def harness(self, cmd, cases, limit=20, shards=None, threads=1, env=None, cwd=None):
        """Observations of the real code, in the order of the cases.
        A case that hangs or ends the process gives {"dead": how}.
        threads: how many cases of a process are worked on at the same time."""
        n = len(cases)
        self.threads, self.more_env, self.cwd = threads, env or {}, cwd
        shards = shards or max(1, min(CORES, n // 20 + 1))
        jobs = []
        for k in range(shards):
            idx = list(range(k, n, shards))
            jobs.append({"idx": idx, "done": [], "k": k, "gen": 0})
        for j in jobs:
            self._start(cmd, cases, j, limit)
        out = [None] * n
        for j in jobs:
            while True:
                rc = j["p"].wait()
                with open(j["out"], "rb") as f:
                    data = f.read()
                lines = data.split(b"\n")
                whole = [l for l in lines[:-1] if l.strip()]
                todo = j["todo"]
                for i, l in zip(todo, whole):
                    out[i] = json.loads(l)
                if len(whole) == len(todo) and rc == 0:
                    break
                if len(whole) >= len(todo):
                    raise ToolError(f"harness ended with {rc} after its last case")
                bad = todo[len(whole)]
                out[bad] = {"dead": "hang" if rc == 86 else f"ended with status {rc}"}
                rest = todo[len(whole) + 1:]
                j["gen"] += 1
                if j["gen"] > 5:
                    for i in rest:
                        out[i] = {"dead": "not run"}
                    break
                if not rest:
                    break
                self._start(cmd, cases, j, limit, rest)
        return out

    def _start(self, cmd, cases, j, limit, todo=None):
        todo = j["idx"] if todo is None else todo
        base = os.path.join(self.work, f"{cmd}-{j['k']}")
        with open(base + ".in", "w") as f:
            for i in todo:
                f.write(json.dumps(cases[i]) + "\n")
        open(base + ".out", "w").close()
        j["todo"] = todo
        j["out"] = base + ".out"

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        j["p"] = subprocess.Popen(
            [CONF, cmd, base + ".in", base + ".out"], preexec_fn=limits,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            cwd=self.cwd,
            env=dict(os.environ, **self.more_env, CONF_CASE_LIMIT=str(limit), CONF_THREADS=str(self.threads)))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, invariants, trace=None, constants=None, env=None, spec="Spec",
            constraint=None, emit=None, deadlock=True, timeout=800, what=None, props=(), view=None,
            heap="6g", workers=None):
        """Runs TLC; returns None or the violation found: {"inv", "case", "text"}.
        With emit, the lines printed with that mark are collected in self.emitted."""
        self.n_tlc += 1
        tag = f"{module}-{self.n_tlc}"
        meta = os.path.join(self.work, tag)
        cfg = os.path.join(self.work, tag + ".cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            f.write(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n")
            for k, v in (constants or {}).items():
                f.write(f"CONSTANT {k} = {v}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if invariants:
                f.write("INVARIANTS " + " ".join(invariants) + "\n")
            for p in props:
                f.write(f"PROPERTY {p}\n")
        e = dict(os.environ)
        e.update(env or {})
        if trace is not None:
            e["TRACE"] = trace
        log = os.path.join(self.work, tag + ".log")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.work, "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", JAVA_CP,
               "tlc2.TLC", "-workers", str(workers or CORES), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg, os.path.join(SPEC, module + ".tla")]
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
            try:
                rc = self._wait(p, log, timeout + 60, trace is not None)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC took too long on {module}")
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        with open(log, errors="replace") as f:
            text = f.read()
        self.emitted = []
        if emit:
            mark = '"' + emit
            for l in text.split("\n"):
                if l.startswith(mark):
                    self.emitted.append(json.loads(json.loads(l)[len(emit):]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if m:
            gen, dist = map(int, m[-1])
            self.states += dist
            self.transitions += gen
            d = self.detail.setdefault("tlc_runs", [])
            d.append({"module": module, "what": what or ("trace validation" if trace else "model checking"),
                      "distinct_states": dist, "states_generated": gen, "invariants": list(invariants)})
        if rc == 0 and "No error has been found" in text:
            return None
        v = re.search(r"Error: Invariant (\S+) is violated", text)
        dl = "Error: Deadlock reached" in text
        ap = re.search(r"Error: Action property (\S+) is violated", text)
        tp = re.search(r"Error: Temporal properties were violated", text)
        if v or dl or ap or tp:
            start = text.index("Error:")
            cs = re.findall(r"^(?:/\\ )?c = (\d+)$", text[start:], re.M)
            return {"inv": v.group(1) if v else ap.group(1) if ap else "stuck" if dl else "liveness",
                    "case": int(cs[-1]) if cs else None,
                    "text": text[start:]}
        raise ToolError(f"TLC failed on {module} (status {rc}):\n" + text[-3000:])

    def _wait(self, p, log, timeout, of_trace):
        """Waits for TLC; printing a counterexample of many long states is cut short."""
        end = time.time() + timeout
        seen, found = 0, -1
        while True:
            try:
                return p.wait(timeout=0.5)
            except subprocess.TimeoutExpired:
                if time.time() > end:
                    raise
            size = os.path.getsize(log)
            if of_trace and size > seen:
                if found < 0:
                    with open(log, "rb") as f:
                        f.seek(max(0, seen - 100))
                        part = f.read(4 << 20)
                    if re.search(rb"Error: (Invariant|Deadlock|Action property)", part):
                        found = size
                    seen = max(0, seen - 100) + len(part)
                elif size > found + (6 << 20):
                    p.kill()
                    p.wait()
                    return 12

    def model(self, module, invariants, **kw):
        """A bounded check of the specification itself.  A violation here is an error of the
        specification, not of the code."""
        v = self.tlc(module, invariants, **kw)
        if v:
            raise ToolError(f"the specification {module} violates {v['inv']}:\n{v['text'][:3000]}")

    # --------------------------------------------------------------- traces
    def write_trace(self, name, obs, most=40 << 20):
        """Writes as many of them as fit; returns how many that are."""
        path = os.path.join(self.work, name + ".ndjson")
        size = n = 0
        with open(path, "w") as f:
            for o in obs:
                l = json.dumps(o, separators=(",", ":")) + "\n"
                size += len(l)
                if n and size > most:
                    break
                f.write(l)
                n += 1
        return path, n

    def validate(self, module, invariants, cases, obs, name="trace", describe=None, chunk=None, **kw):
        """Validates the observations with TLC; raises Violation."""
        chunk = chunk or len(obs) or 1
        lo = 0
        while lo < len(obs):
            path, n = self.write_trace(f"{name}-{lo}", obs[lo:lo + chunk])
            part = obs[lo:lo + n]
            v = self.tlc(module, invariants, trace=path, **kw)
            if v:
                i = lo + (v["case"] or 1) - 1
                self.violation(
                    f"{v['inv']}: what the code did is not a behaviour of the specification",
                    {"invariant": v["inv"], "module": module, "case": cases[i], "observed": obs[i],
                     "described": describe(cases[i]) if describe else None,
                     "tlc": v["text"][:6000]})
            self.traces += len(part)
            lo += n
            if not os.environ.get("KEEP_TRACES"):
                os.remove(path)

    def violation(self, what, data):
        path = os.path.join(self.work, "replay.json")
        data = dict(data, property=self.pid, what=what, seed=self.seed, tier=self.tier)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        raise Violation(what, path)

    # ------------------------------------------------------------- evidence
    def evidence(self, violations):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:6] if self.samples else ["(none)"],
        }
        cov.update(self.detail)
        e = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": violations,
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def cps(s):
    return [ord(c) for c in s]


def text(c):
    return "".join(map(chr, c))


def run(pid, tier, fn):
    ck = Check(pid, tier)
    try:
        ck.build()
        fn(ck)
        ck.evidence(0)
        print(f"OK property={pid} states={ck.states} traces={ck.traces} wall={time.time() - ck.t0:.1f}s")
        return 0
    except Violation as v:
        ck.evidence(1)
        print(v.what)
        print(f"VIOLATION property={pid} replay={v.replay}")
        return 1
    except ToolError as e:
        print(f"ERROR property={pid}: {e}", file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
