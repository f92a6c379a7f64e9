"""
Exploration driver: parallel depth-first exploration of a harness, validation of
every explored path against the uninstrumented code, evidence and verdict.
"""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random as _random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE_PY = os.environ.get("VERIF_NATIVE_PY", "/opt/venv/bin/python")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class PathTimeout(BaseException):
    pass


# --------------------------------------------------------------------------
class Native:
    """Client of the native replay server."""

    def __init__(self, prop, tier, known):
        self.prop, self.tier, self.known = prop, tier, sorted(known)
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0",
                   PYTHONPATH=VERIF)
        self.p = subprocess.Popen(
            [NATIVE_PY, "-m", "symex.native"], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True)

    def run(self, harness, inputs, timeout=20):
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(
                    {"prop": self.prop, "harness": harness, "inputs": inputs,
                     "tier": self.tier, "known": self.known,
                     "timeout": timeout}) + "\n")
                self.p.stdin.flush()
                if not mp.connection.wait([self.p.stdout], timeout + 30):
                    self.kill()
                    return {"status": "timeout", "msg": "the interpreter hung", "obs": []}
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.kill()
        return {"status": "crash", "msg": "the interpreter died", "obs": []}

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


# --------------------------------------------------------------------------
class Worker:
    def __init__(self, prop, hd, tier, known, seed):
        from . import core, stubs
        self.core = core
        self.prop, self.hd, self.tier, self.known = prop, hd, tier, known
        self.eng = core.Engine(hd.get("universe", "latin"))
        core.set_engine(self.eng)
        self.stubs = stubs
        self.native = Native(prop, tier, known)
        self.rng = _random.Random(seed)
        self.validate_every = hd.get("validate_every", 1)
        self.path_timeout = hd.get("path_timeout", 120)
        self.qlog = None
        self._mon()

    # functions of jsgf that were executed symbolically
    def _mon(self):
        self.funcs = set()
        m = sys.monitoring
        try:
            m.use_tool_id(2, "symex")
        except ValueError:
            return
        base = os.path.join(REPO, "jsgf") + os.sep

        def start(code, off):
            if code.co_filename.startswith(base):
                self.funcs.add((code.co_filename[len(REPO) + 1:],
                                code.co_firstlineno, code.co_qualname))
            return m.DISABLE
        m.register_callback(2, m.events.PY_START, start)
        m.set_events(2, m.events.PY_START)

    def new_out(self):
        return {"violations": [], "mismatches": [], "unsupported": {}, "samples": [],
                "reached": set(), "validated": 0, "known": [], "errors": [],
                "transitions": 0, "degraded": 0, "val_time": 0.0}

    def work(self, prefixes, budget):
        eng = self.eng
        self.out = self.new_out()
        self.core.set_engine(eng)
        eng.stats = self.core.Stats()
        stack = list(prefixes)
        end = time.time() + budget
        while stack:
            prefix = stack.pop()
            eng.pending = []
            self.path(prefix)
            stack.extend(eng.pending)
            if time.time() > end or self.out["violations"]:
                break
        self.out["leftover"] = stack
        self.out["stats"] = eng.stats.as_dict()
        self.out["funcs"] = self.funcs
        self.out["reached"] = sorted(self.out["reached"])
        return self.out

    def path(self, prefix):
        from . import hsym
        core, eng, out = self.core, self.eng, self.out
        eng.begin(prefix)
        h = hsym.SymHarness(eng, self.known, self.tier)
        self.stubs.set_harness(h)
        status, detail = "completed", None

        timed_out = []

        def onalarm(*a):
            timed_out.append(1)
            raise PathTimeout()
        signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
        try:
            self.hd["fn"](h)
            if eng.aborted is not None:
                raise eng.aborted
        except core.PathPruned:
            status = "pruned"
        except core.ViolationFound as v:
            status, detail = "violation", v.msg
        except core.Unsupported as u:
            status, detail = "unsupported", str(u)
        except core.BoundExceeded as b:
            status, detail = "bound", str(b)
        except core.Inconclusive as i:
            status, detail = "inconclusive", str(i)
        except PathTimeout:
            status, detail = "timeout", "path exceeded %d s" % self.path_timeout
        except Exception as x:
            if timed_out:
                status, detail = "timeout", "path exceeded %d s" % self.path_timeout
            elif eng.aborted is not None:
                a = eng.aborted
                if isinstance(a, core.PathPruned):
                    status = "pruned"
                elif isinstance(a, core.ViolationFound):
                    status, detail = "violation", a.msg
                else:
                    status, detail = "unsupported", str(a)
            else:
                status = "exception"
                from . import rt
                try:
                    text = repr(rt.str_(x))
                except BaseException:
                    text = "?"
                tb = traceback.extract_tb(x.__traceback__)
                detail = "%s: %s [%s]" % (type(x).__name__, text, "; ".join(
                    "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
                    for f in tb[-5:]))
                self.exc = x
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        st = eng.stats
        st.paths += 1
        out["transitions"] += max(0, len(eng.trace) - max(0, len(prefix) - 1))
        if status not in ("pruned",) and len(eng.trace) < len(prefix):
            if status == "completed":
                out["errors"].append("nondeterministic replay of a path prefix")
        for k in h.known_hit:
            out["known"].append(k)
        if status == "pruned":
            st.pruned += 1
            return
        out["reached"] |= h.reached
        # a concrete instance of the path
        eng.aborted = None
        eng.path_active = False
        try:
            model = eng.get_model()
        except core.EngineStop:
            st.pruned += 1
            if status != "completed":
                out["errors"].append("no model for a path that ended in: %s %s"
                                     % (status, detail))
            return
        ev = hsym.Evaluator(eng, model)
        inputs = ev.inputs()
        if status == "completed":
            st.completed += 1
            nth = st.completed
            if not h.known_hit and (self.validate_every <= 1 or
                                    nth % self.validate_every == 1):
                t = time.time()
                self.validate(h, ev, inputs)
                out["val_time"] += time.time() - t
            if len(out["samples"]) < 2:
                out["samples"].append({"inputs": inputs,
                                       "observed": [[l, ev.value(v)] for l, v in h.obs][:6]})
            return
        if status in ("violation", "exception", "timeout"):
            r = self.native.run(self.hd["name"], inputs,
                                20 if status != "timeout" else 60)
            bad = r["status"] in ("violation", "exception", "timeout", "crash")
            if bad and r["status"] == "timeout" and status != "timeout":
                bad = True
            if bad:
                out["violations"].append({"inputs": inputs, "msg": r["msg"],
                                          "symbolic": detail, "native": r})
                return
            if r["status"] == "assume" and r.get("known"):
                return
            if status == "timeout":
                st.path_timeouts += 1
                self.unsup("path timeout")
                return
            if status == "exception" and isinstance(
                    self.exc, (TypeError, AttributeError, NotImplementedError,
                               RecursionError)):
                st.unsupported += 1
                self.unsup("proxy: " + detail)
                return
            out["mismatches"].append({"inputs": inputs, "symbolic": [status, detail],
                                      "native": r})
            return
        # unsupported / inconclusive / bound: decide one instance concretely
        st.unsupported += 1
        self.unsup("%s: %s" % (status, detail))
        out["degraded"] += 1
        r = self.native.run(self.hd["name"], inputs)
        if r["status"] in ("violation", "exception", "timeout", "crash"):
            out["violations"].append({"inputs": inputs, "msg": r["msg"],
                                      "symbolic": detail, "native": r})

    def unsup(self, reason):
        d = self.out["unsupported"]
        d[reason] = d.get(reason, 0) + 1

    def validate(self, h, ev, inputs):
        r = self.native.run(self.hd["name"], inputs)
        out = self.out
        if r["status"] in ("violation", "exception", "timeout", "crash"):
            out["violations"].append({"inputs": inputs, "msg": r["msg"],
                                      "symbolic": "the solver's path completed",
                                      "native": r})
            return
        mine = json.loads(json.dumps([[l, ev.value(v)] for l, v in h.obs]))
        if r["status"] != "ok" or not same(mine, r["obs"]):
            out["mismatches"].append({"inputs": inputs, "symbolic": ["completed", mine],
                                      "native": r})
        else:
            out["validated"] += 1


def same(a, b):
    if isinstance(a, dict) and "frac" in a:
        a = a["frac"][0] / a["frac"][1]
    if isinstance(b, dict) and "frac" in b:
        b = b["frac"][0] / b["frac"][1]
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def worker_main(conn, prop, hds, tier, known, seed):
    # one engine per harness universe, created after the fork
    sys.setrecursionlimit(6000)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ws = {}
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            idx, prefixes, budget = msg
            w = ws.get(idx)
            if w is None:
                for o in ws.values():
                    o.native.kill()
                ws.clear()
                w = ws[idx] = Worker(prop, hds[idx], tier, known, seed)
            conn.send(w.work(prefixes, budget))
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        try:
            conn.send({"fatal": traceback.format_exc()})
        except Exception:
            pass
    finally:
        for w in ws.values():
            w.native.kill()


# --------------------------------------------------------------------------
class Result:
    def __init__(self, name):
        self.name = name
        self.stats = None
        self.violations = []
        self.mismatches = []
        self.unsupported = {}
        self.samples = []
        self.reached = set()
        self.known = []
        self.errors = []
        self.validated = 0
        self.transitions = 0
        self.degraded = 0
        self.funcs = set()
        self.complete = False
        self.wall = 0.0
        self.leftover = 0


class Explorer:
    def __init__(self, prop, hds, tier, known, seed=1, nproc=NPROC):
        self.hds = hds
        self.prop = prop
        ctx = mp.get_context("fork")
        self.conns, self.procs = [], []
        for i in range(nproc):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker_main, args=(b, prop, hds, tier, known, seed + i),
                            daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)

    def close(self):
        for c in self.conns:
            try:
                c.send(None)
            except (OSError, BrokenPipeError):
                pass
        t = time.time() + 5
        for p in self.procs:
            p.join(max(0.1, t - time.time()))
            if p.is_alive():
                p.terminate()

    def explore(self, idx, deadline, verbose=False):
        from .core import Stats
        hd = self.hds[idx]
        res = Result(hd["name"])
        res.stats = Stats()
        t0 = time.time()
        stack = [[]]
        busy = {}
        idle = list(self.conns)
        stop = False
        tasks = 0
        while (stack and not stop) or busy:
            while stack and idle and not stop:
                c = idle.pop()
                # share the shallowest prefixes among the idle workers
                share = max(1, min(len(stack) // (len(self.conns) + 1), 16))
                chunk = stack[:share] if len(stack) < 4 * len(self.conns) else stack[-share:]
                if len(stack) < 4 * len(self.conns):
                    del stack[:share]
                else:
                    del stack[-share:]
                starving = len(idle) > 0 or len(stack) < len(self.conns)
                c.send((idx, chunk, 0.05 if starving and tasks < 64 else
                        0.3 if starving else 2.0))
                busy[c] = len(chunk)
                tasks += 1
            if not busy:
                break
            ready = mp.connection.wait(list(busy), timeout=200)
            if not ready:
                res.errors.append("a worker stopped answering")
                break
            for c in ready:
                try:
                    o = c.recv()
                except EOFError:
                    res.errors.append("a worker died")
                    del busy[c]
                    stop = True
                    continue
                del busy[c]
                if "fatal" in o:
                    res.errors.append(o["fatal"])
                    stop = True
                    continue
                idle.append(c)
                stack.extend(o["leftover"])
                res.stats.merge(o["stats"])
                res.violations.extend(o["violations"])
                res.mismatches.extend(o["mismatches"])
                for k, v in o["unsupported"].items():
                    res.unsupported[k] = res.unsupported.get(k, 0) + v
                if len(res.samples) < 3:
                    res.samples.extend(o["samples"][:3 - len(res.samples)])
                res.reached.update(o["reached"])
                res.known.extend(o["known"])
                res.errors.extend(o["errors"])
                res.validated += o["validated"]
                res.transitions += o["transitions"]
                res.degraded += o["degraded"]
                res.funcs |= o["funcs"]
            if res.violations or len(res.mismatches) > 20:
                stop = True
            if time.time() > deadline:
                stop = True
            if verbose and tasks % 50 == 0:
                print("   .. %s paths=%d queue=%d %.0fs" % (
                    hd["name"], res.stats.paths, len(stack), time.time() - t0),
                    file=sys.stderr)
        res.leftover = len(stack)
        res.complete = not stack and not res.errors and not res.unsupported \
            and not res.mismatches
        res.wall = time.time() - t0
        return res


# --------------------------------------------------------------------------
def load_known(prop):
    """Signatures of the recorded, unrepaired findings of a property."""
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(None, 2)[2]
                sig, _, text = rest.partition(" ")
                known[sig[4:] if sig.startswith("sig=") else sig] = text
    return known


def main(argv):
    args = [a for a in argv if not a.startswith("-")]
    opts = [a for a in argv if a.startswith("-")]
    prop = args[0]
    if "--replay" in opts:
        return replay(prop)
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = args[2:] if len(args) > 2 else None
    verbose = "-v" in opts
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.dont_write_bytecode = True
    from . import loader
    loader.install()
    known = load_known(prop)
    try:
        mod = importlib.import_module("props." + prop)
    except Exception:
        traceback.print_exc()
        # the code does not even import: does it natively?
        print("ERROR property=%s the code could not be loaded" % prop)
        return 2
    hds = [h for h in mod.HARNESSES if tier in h.get("tiers", ("quick", "thorough"))]
    if only:
        hds = [h for h in hds if h["name"] in only]
    total = float(os.environ.get("VERIF_BUDGET") or
                  (getattr(mod, "BUDGET", {}) or {}).get(tier) or
                  (400 if tier == "quick" else 3000))
    ex = Explorer(prop, hds, tier, set(known), seed)
    results = []
    try:
        left = sum(h.get("share", 1) for h in hds)
        for i, h in enumerate(hds):
            remaining = total - (time.time() - t0)
            sh = h.get("share", 1)
            deadline = time.time() + max(5, remaining * max(sh / left, 0.5 if left > sh else 1))
            left -= sh
            r = ex.explore(i, deadline, verbose)
            results.append(r)
            if verbose or only:
                s = r.stats
                print("  %-28s %6.1fs paths=%d completed=%d pruned=%d unsup=%d forks=%d "
                      "queries=%d solver=%.1fs valid=%d mism=%d viol=%d left=%d known=%d" % (
                          r.name, r.wall, s.paths, s.completed, s.pruned, s.unsupported,
                          s.forks, s.queries, s.solver_time, r.validated,
                          len(r.mismatches), len(r.violations), r.leftover, len(r.known)),
                      file=sys.stderr)
                for k, v in list(r.unsupported.items())[:8]:
                    print("     unsupported x%d: %s" % (v, k), file=sys.stderr)
                for m in r.mismatches[:3]:
                    print("     mismatch: %s" % json.dumps(m)[:1500], file=sys.stderr)
                for e in r.errors[:3]:
                    print("     error: %s" % e, file=sys.stderr)
                print("     reached: %s" % sorted(r.reached), file=sys.stderr)
            if r.violations and "-k" not in opts:
                break
    finally:
        ex.close()
    return report(prop, tier, seed, mod, hds, results, known, t0, loader)


def report(prop, tier, seed, mod, hds, results, known, t0, loader):
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    from .core import Stats
    tot = Stats()
    viol, errors, mism, unsup = [], [], [], {}
    funcs, samples = set(), []
    validated = transitions = 0
    complete = len(results) == len(hds)
    vac = []
    per = []
    for r, hd in zip(results, hds):
        tot.merge(r.stats.as_dict())
        viol += [(r.name, v) for v in r.violations]
        errors += r.errors
        mism += r.mismatches
        for k, v in r.unsupported.items():
            unsup[k] = unsup.get(k, 0) + v
        funcs |= r.funcs
        for s in r.samples[:2]:
            samples.append(dict(s, harness=r.name))
        validated += r.validated
        transitions += r.transitions
        complete = complete and r.complete
        missing = set(hd.get("reach", ())) - r.reached
        if r.stats.completed == 0 and not r.violations:
            vac.append("%s: no path reached the assertions" % r.name)
        elif missing and not r.violations and r.complete:
            vac.append("%s: never reached %s" % (r.name, sorted(missing)))
        per.append({"harness": r.name, "bounds": hd.get("bounds", ""),
                    "universe": hd.get("universe", "latin"),
                    "exhaustive_within_bounds": r.complete,
                    "unexplored_prefixes": r.leftover, "wall_s": round(r.wall, 2),
                    "validated": r.validated, "reached": sorted(r.reached),
                    **r.stats.as_dict()})
    khits = {}
    for r in results:
        for sig, msg in r.known:
            khits.setdefault(sig, msg)
    coverage = {
        "states": tot.completed,
        "transitions": transitions,
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "exhaustive": bool(complete),
        "paths_pruned_infeasible": tot.pruned,
        "queries": tot.queries,
        "solver_time_s": round(tot.solver_time, 2),
        "assertion_queries_unsat": tot.assertions,
        "assertions_decided_on_the_path": tot.proved_by_path,
        "paths_not_decided": tot.unsupported,
        "not_decided_reasons": dict(sorted(unsup.items(), key=lambda kv: -kv[1])[:20]),
        "functions_encoded": sorted("%s:%s" % (f, q) for f, l, q in funcs),
        "sources": {n: {"path": p, "sha256": h} for n, (p, h) in
                    sorted(loader.LOADED.items()) if not n.startswith("props")},
        "harnesses": per,
        "outside_the_claim": getattr(mod, "OUTSIDE", ""),
        "meaning": "states = complete symbolic paths (each stands for every input that "
                   "satisfies its path condition); transitions = branch decisions and "
                   "assumptions along them, each decided by z3; traces validated = paths "
                   "re-run on the uninstrumented code with the solver's values, same "
                   "observations",
    }
    import z3
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": coverage,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + BASE_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "solver": "z3 " + z3.get_version_string()}
    if mism:
        coverage["encoding_mismatches"] = mism[:5]
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for sig in sorted(khits):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, sig, known.get(sig, khits[sig])))
    summary = ("%s %s: %d symbolic paths, %d queries, %.1f s solver, %d replayed natively, "
               "%d undecided, exhaustive=%s, %.1f s" % (
                   prop, tier, tot.completed, tot.queries, tot.solver_time, validated,
                   tot.unsupported, complete, time.time() - t0))
    print(summary)
    if viol:
        name, v = viol[0]
        path = os.path.join(edir, "replay", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": name, "tier": tier, **v}, f, indent=1)
        print("harness %s: %s" % (name, v["msg"]))
        print("inputs: %s" % json.dumps(v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    bad = 0
    for e in errors[:5]:
        print("ERROR %s" % e)
        bad = 2
    for m in mism[:5]:
        print("ERROR the encoding disagrees with the code: %s" % json.dumps(m)[:800])
        bad = 2
    for x in vac:
        print("ERROR vacuous: %s" % x)
        bad = 2
    for k, n in sorted(unsup.items(), key=lambda kv: -kv[1])[:5]:
        print("NOTE %d path(s) not decided: %s" % (n, k))
    return bad


BASE_ASSUMPTIONS = [
    "the harness bounds stated in coverage.harnesses",
    "CPython built-ins on str/dict/set behave as encoded in symex/sym.py, rt.py and "
    "symre.py (every explored path is re-run on the real interpreter)",
    "hash functions are modelled as injective",
    "pyparsing 2.4.7 is the version the package runs on; its source is executed too",
]


def replay(prop):
    """Re-run the last reported counterexample on the uninstrumented code."""
    p = os.path.join(VERIF, "evidence", "replay", prop + ".json")
    d = json.load(open(p))
    n = Native(prop, d["tier"], load_known(prop))
    r = n.run(d["harness"], d["inputs"])
    n.kill()
    print(json.dumps(r, indent=1))
    return 1 if r["status"] in ("violation", "exception", "timeout", "crash") else 0
