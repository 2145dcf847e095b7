"""Common machinery: exact number encoding, TLC runner, trace validation, verdicts and evidence.

Nothing in here decides a property: Python only drives the real code, records what it did, and runs TLC on the
recorded events.  All judgements are made by the TLA+ specifications in /verif/spec.
"""
import contextlib, io, json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import concurrent.futures as cf
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = f"{os.path.join(SPEC, 'native')}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (never a verdict about the code)."""


# ------------------------------------------------------------------ numbers
def D(x):
    """Exact encoding of an int/float/Fraction-dyadic as [sign, base-4096 limbs, exponent]."""
    if hasattr(x, "item") and not isinstance(x, (int, float)):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        n, d = x.numerator, x.denominator
        assert d & (d - 1) == 0
        e = -(d.bit_length() - 1)
    elif isinstance(x, int):
        n, e = x, 0
    elif isinstance(x, float):
        if not math.isfinite(x):
            return [2, [], 0]
        n, d = x.as_integer_ratio()
        e = -(d.bit_length() - 1)
    else:
        return [2, [], 0]
    if n == 0:
        return [0, [], 0]
    s = 1 if n > 0 else -1
    n = abs(n)
    if e == 0:
        tz = (n & -n).bit_length() - 1
        if tz > 24:
            n >>= tz
            e = tz
    limbs = []
    while n:
        limbs.append(n & 4095)
        n >>= 12
    return [s, limbs, e]


def A(arr):
    """Exact encoding of an array-like: {"sh": shape, "v": flat list of D, "ty": kind}."""
    import numpy as np
    a = np.asarray(arr)
    flat = a.reshape(-1).tolist()
    return {"sh": list(a.shape), "v": [D(x) for x in flat], "ty": a.dtype.kind}


def I(arr):
    """Small-integer array for TLC's native integers; non-integral or huge entries become the sentinel 2000000000."""
    import numpy as np
    a = np.asarray(arr)
    out = []
    for x in a.reshape(-1).tolist():
        try:
            ok = float(x) == int(x) and abs(int(x)) < 1_900_000_000
        except Exception:
            ok = False
        out.append(int(x) if ok else 2_000_000_000)
    return {"sh": list(a.shape), "v": out}


ERR = {"sh": [], "v": [], "ty": "E"}


class CallTimeout(BaseException):
    pass


class Hung(BaseException):
    """Calls of the code under test keep running past their deadline."""


TIMEOUTS = [0]


def _alarm(*_):
    raise CallTimeout()


def attempt(fn, *a, timeout=60, **k):
    """(True, value) or (False, exception class name); never raises because of the code under test."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return True, fn(*a, **k)
    except CallTimeout:
        TIMEOUTS[0] += 1
        if TIMEOUTS[0] >= 4:        # the specification rejects each of them already: do not wait for more
            raise Hung(f"{TIMEOUTS[0]} calls did not return")
        return False, "Timeout"
    except (KeyboardInterrupt, MemoryError):
        raise
    except SystemExit:
        return False, "SystemExit"
    except Exception as ex:
        return False, type(ex).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------- TLC
def tlc(spec, cfg, scratch, env=None, workers=1, timeout=800, heap="2g", extra=(), allow_violation=False):
    """Run TLC on spec with the cfg text; returns dict(states, distinct, depth, out, ok)."""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cfgp = os.path.join(d, "m.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss256m", f"-Xmx{heap}", f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", cfgp, *extra,
           os.path.join(SPEC, spec + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out after {timeout}s on {spec}")
    out = p.stdout
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
    dep = re.search(r"depth of the complete state graph search is (\d+)", out)
    res = dict(states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0,
               depth=int(dep.group(1)) if dep else 0, out=out, ok=p.returncode == 0, rc=p.returncode)
    if p.returncode != 0 and not allow_violation:
        raise Machinery(f"TLC failed on {spec} (rc={p.returncode}):\n" + out[-4000:])
    shutil.rmtree(d, ignore_errors=True)
    return res


def consts(c):
    def v(x):
        if isinstance(x, bool):
            return "TRUE" if x else "FALSE"
        if isinstance(x, (set, frozenset, list, tuple)):
            return "{" + ", ".join(v(i) for i in x) + "}"
        if isinstance(x, str):
            return '"' + x + '"'
        return str(x)
    return "".join(f"CONSTANT {k} = {v(x)}\n" for k, x in (c or {}).items())


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}:{seed}")
        import numpy as np
        self.np = np.random.default_rng([seed, int(prop[1:])])
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.assumptions = [], [], []
        self.cov = {}
        self.viol = []          # (clause, event, scenario)
        self.errors = 0

    # ---- (A) model checking of the specification itself
    def mc(self, spec, constants=None, inv=(), props=(), spec_name="Spec", init=None, next="Next", constraint=None,
           workers=4, timeout=700, env=None, subst=None, view=None, post=None, label=None, extra=(), heap="4g"):
        cfg = (f"INIT {init}\nNEXT {next}\n" if init else f"SPECIFICATION {spec_name}\n") + consts(constants)
        for k, v in (subst or {}).items():
            cfg += f"CONSTANT {k} <- {v}\n"
        for i in inv:
            cfg += f"INVARIANT {i}\n"
        for i in props:
            cfg += f"PROPERTY {i}\n"
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        if view:
            cfg += f"VIEW {view}\n"
        if post:
            cfg += f"POSTCONDITION {post}\n"
        r = tlc(spec, cfg, self.scratch, env=env, workers=workers, timeout=timeout, extra=extra, heap=heap)
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.models.append(dict(model=label or spec, constants={k: str(v) for k, v in (constants or {}).items()},
                                invariants=list(inv) + list(props), distinct_states=r["distinct"],
                                transitions=r["states"], depth=r["depth"]))
        return r

    # ---- (B) behaviours / cases generated by TLC
    def gen(self, spec, constants=None, init="Init", next="Next", **kw):
        path = os.path.join(self.scratch, f"gen-{spec}-{len(self.models)}.json")
        env = dict(kw.pop("env", {}) or {})
        env["OUT"] = path
        kw.setdefault("workers", 1)
        self.mc(spec, constants, init=init, next=next, env=env, **kw)
        if not os.path.exists(path):
            raise Machinery(f"{spec} generated no behaviours")
        with open(path) as f:
            return json.load(f)

    # ---- (D) trace validation
    def validate(self, spec, scenarios, step="Step", start='"none"', constants=None, procs=8, timeout=800, weight=None):
        """scenarios: list of lists of events.  Each scenario is validated from the Start state (its first event resets)."""
        scenarios = [s for s in scenarios if s]
        if not scenarios:
            raise Machinery("no scenario recorded")
        w = [(weight(s) if weight else len(json.dumps(s))) for s in scenarios]
        n = max(1, min(procs, len(scenarios)))
        bins, load = [[] for _ in range(n)], [0] * n
        for i in sorted(range(len(scenarios)), key=lambda i: -w[i]):
            k = load.index(min(load))
            bins[k].append(i)
            load[k] += w[i]
        cfg = "INIT JInit\nNEXT JNext\n" + f"CONSTANT Step <- {step}\nCONSTANT Start {'<-' if start == "NoCfg" else '='} {start}\n" + consts(constants)

        def work(b):
            b = sorted(b)
            evs = [(i, e) for i in b for e in scenarios[i]]
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                for _, e in evs:
                    f.write(json.dumps(e) + "\n")
            vp = path + ".verdict"
            r = tlc(spec, cfg, self.scratch, env={"TRACE": path, "VERDICT": vp}, timeout=timeout)
            if not os.path.exists(vp):
                raise Machinery(f"{spec}: no verdict written\n" + r["out"][-2000:])
            with open(vp) as f:
                v = json.load(f)
            if v["n"] != len(evs):
                raise Machinery(f"{spec}: consumed {v['n']} of {len(evs)} events")
            os.unlink(path)
            return r, v, evs

        with cf.ThreadPoolExecutor(n) as ex:
            results = list(ex.map(work, [b for b in bins if b]))
        for r, v, evs in results:
            self.states += r["distinct"]
            self.transitions += r["states"]
            for k, c in v["cov"].items():
                self.cov[k] = self.cov.get(k, 0) + c
            for pos, clause in v["bad"]:
                i, e = evs[pos - 1]
                self.viol.append((clause, e, scenarios[i], spec))
        self.traces += len(scenarios)
        self.events += sum(len(s) for s in scenarios)
        self.samples += [s[:3] for s in scenarios[:2]]
        return results

    def replay_path(self, i):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, f"{self.prop}-{i}.json")

    def crashed(self, tb):
        self.scenarios_lost = tb
        self.viol.append(("unexpected error", {"ev": "Exception", "what": tb[-1500:]}, [], "driver"))
        return self.finish()

    def finish(self):
        known = load_known(self.prop)
        new, seen = [], set()
        for v in self.viol:
            k = match_known(known, v)
            if k:
                seen.add(k["what"])
            else:
                new.append(v)
        for k in sorted(seen):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        clauses = []
        for i, (clause, ev, sc, spec) in enumerate(new):
            if clause in clauses:
                continue
            clauses.append(clause)
            p = self.replay_path(len(clauses))
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, clause=clause, spec=spec, event=ev, scenario=sc, seed=self.seed,
                               tier=self.tier,
                               replay=f"VERIF_SEED={self.seed} VERIF_TIER={self.tier} python check.py {self.prop}"), f)
            print(f"VIOLATION property={self.prop} replay={p}")
            print(f"  clause {clause!r}: event {json.dumps(ev)[:600]}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, events_judged=self.events,
                                situations=self.cov, models=self.models,
                                samples=[json.loads(json.dumps(s)[:4000]) if len(json.dumps(s)) < 4000 else
                                         json.dumps(s)[:4000] for s in self.samples[:4]]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not new:
            print(f"OK property={self.prop} tier={self.tier} states={self.states} transitions={self.transitions} "
                  f"traces={self.traces} events={self.events} wall={ev['wall_s']}s")
        return 1 if new else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def match_known(known, v):
    clause, ev, _, _ = v
    for k in known:
        if k["clause"] == clause and all(ev.get(f) == x for f, x in k.get("event", {}).items()):
            return k
    return None


# --------------------------------------------------------------- scenarios
class Rec:
    """Collects scenarios.  An exception escaping a scenario is recorded as an event the specification rejects."""

    def __init__(self):
        self.scenarios = []
        self.hung = 0

    def scenario(self, fn, *a, timeout=120, **k):
        if self.hung >= 2:      # already two scenarios the specification will reject: do not wait for more
            return None
        evs = []
        ok, r = attempt(fn, evs.append, *a, timeout=timeout, **k)
        if not ok:
            self.hung += r == "Timeout"
            evs.append({"ev": "Exception", "what": str(r)})
        self.scenarios.append(evs)
        return r if ok else None

    def one(self, ev):
        self.scenarios.append([ev])


def batch(events, size=1):
    return [events[i:i + size] for i in range(0, len(events), size)]


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as n, contextlib.redirect_stdout(n), contextlib.redirect_stderr(n):
        yield
