"""
Replays harnesses on the real, uninstrumented code with concrete inputs.

Run as a server: reads one JSON request per line on stdin and answers with one
JSON line on stdout.  Needs nothing but the interpreter of the repository.
"""
import importlib
import json
import os
import pickle
import signal
import sys
from fractions import Fraction


class Violation(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Timeout(BaseException):
    pass


class NativeHarness:
    symbolic = False

    def __init__(self, inputs, known=(), tier="quick"):
        self.i = inputs
        self.names = {}
        self.obs = []
        self.reached = set()
        self.known = known
        self.known_hit = []
        self.tier = tier

    def _u(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def choose(self, n, name):
        if n <= 0:
            raise AssumeFailed()
        v = self.i.get(self._u(name), 0)
        return v if v < n else 0

    def pick(self, xs, name):
        return xs[self.choose(len(xs), name)]

    def bool(self, name):
        return self.choose(2, name) == 1

    def flag(self, name):
        return bool(self.i.get(self._u(name), False))

    def char(self, name, cls=None):
        v = self.i.get(self._u(name))
        if v is None:
            if isinstance(cls, str):
                return cls[0]
            for c in range(256):
                if cls is None or cls(chr(c)):
                    return chr(c)
        return v

    def string(self, name, lo, hi, cls=None, first=None):
        n = lo + self.choose(hi - lo + 1, name + ".len")
        return "".join(self.char("%s.%d" % (name, i),
                                 first if i == 0 and first is not None else cls)
                       for i in range(n))

    def real(self, name, lo, hi):
        v = self.i.get(self._u(name), lo)
        if isinstance(v, dict):
            v = float(Fraction(*v["frac"]))
        return float(v)

    def is_multiple(self, u, n):
        return abs(u * n - round(u * n)) < 1e-9

    def decimal(self, name, ints, fracs):
        d = "".join(self.char("%s.d%d" % (name, i), "0123456789")
                    for i in range(ints + fracs))
        return int(d) / 10.0 ** fracs

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg, sig=None):
        if not cond:
            if sig is not None and sig in self.known:
                self.known_hit.append((sig, msg))
                raise AssumeFailed()
            raise Violation(msg)

    def fail(self, msg, sig=None):
        self.check(False, msg, sig)

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, label):
        self.reached.add(label)

    def roundtrip(self, obj, protocol):
        """obj, pickled and loaded again."""
        return pickle.loads(pickle.dumps(obj, protocol))

    @staticmethod
    def and_(*xs):
        return all(xs)

    @staticmethod
    def or_(*xs):
        return any(xs)

    @staticmethod
    def not_(x):
        return not x

    @staticmethod
    def iff(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def implies(a, b):
        return (not a) or b

    def isin(self, ch, chars):
        return ch in chars

    def charpred(self, ch, key, fn):
        return fn(ch)


def plain(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {"dict": [[plain(k), plain(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((plain(y) for y in x), key=repr)}
    if isinstance(x, slice):
        return {"slice": [x.start, x.stop, x.step]}
    if isinstance(x, type):
        return {"type": x.__name__}
    return {"obj": type(x).__name__}


def run(fn, inputs, known=(), tier="quick", timeout=20):
    from symex import randshim
    h = NativeHarness(inputs, known, tier)
    randshim.set_harness(h)
    res = {"msg": None}

    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        fn(h)
        res["status"] = "ok"
    except Violation as v:
        res["status"] = "violation"
        res["msg"] = str(v)
    except AssumeFailed:
        res["status"] = "assume"
    except Timeout:
        res["status"] = "timeout"
        res["msg"] = "no termination within %s s" % timeout
    except Exception as x:
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        res["status"] = "exception"
        res["exc"] = type(x).__name__
        try:
            text = str(x)
        except Exception:
            text = "?"
        res["msg"] = "%s: %s" % (type(x).__name__, text[:300])
        res["tb"] = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-4:]]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res["obs"] = [[l, plain(v)] for l, v in h.obs]
    res["known"] = h.known_hit
    return res


def setup(repo, verif):
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    sys.path.insert(1, verif)
    import random
    from symex import randshim
    shim = randshim.RandomShim("random")
    for n in randshim.NAMES:
        setattr(random, n, getattr(shim, n))


def get_harness(prop, name):
    m = importlib.import_module("props." + prop)
    for hd in m.HARNESSES:
        if hd["name"] == name:
            return hd["fn"]
    raise KeyError(name)


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    setup(os.environ.get("VERIF_REPO", "/repo"), verif)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            fn = get_harness(req["prop"], req["harness"])
            res = run(fn, req["inputs"], set(req.get("known", ())),
                      req.get("tier", "quick"), req.get("timeout", 20))
        except BaseException as x:
            res = {"status": "error", "msg": repr(x), "obs": []}
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
