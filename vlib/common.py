"""Shared plumbing: quiet execution of the code under test, per-case context."""
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

warnings.filterwarnings("ignore")


class CaseTimeout(BaseException):
    """Raised by the watchdog; BaseException so that the code's own `except Exception` cannot eat it."""


@contextlib.contextmanager
def time_limit(seconds):
    """`seconds` of processor time (so that a loaded machine is no hang), or four times that on the clock"""
    def handler(signum, frame):
        raise CaseTimeout()
    old = [(q, signal.signal(q, handler)) for q in (signal.SIGALRM, signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_REAL, 4 * seconds, 1.0)
    signal.setitimer(signal.ITIMER_PROF, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        for q, h in old:
            signal.signal(q, h)


@contextlib.contextmanager
def quiet():
    """Python-level capture of the solver's console output."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield buf


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]


class Ctx:
    """What one case observed."""

    def __init__(self, prop, tier, seed, index, scratch):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.scratch = scratch
        self.evals = 0
        self.counters = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.files = {}
        self.rng = rng_for(seed, prop, index)
        os.makedirs(scratch, exist_ok=True)

    def path(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as f:
            f.write(text)
        self.files[name] = text
        return p

    def ok(self, n=1):
        self.evals += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def peak(self, name, v):
        """Track a maximum (reported as max over all cases)."""
        k = "max:" + name
        v = float(v)
        if v == v:
            self.counters[k] = max(self.counters.get(k, 0.0), v)

    def state(self, *key):
        self.states.add(digest(key))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    def violation(self, key, msg):
        self.violations.append({"key": key, "msg": str(msg)[:2000], "index": self.index})

    def expect(self, cond, key, msg):
        self.evals += 1
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond

    def result(self):
        return {
            "index": self.index, "evals": self.evals, "counters": self.counters,
            "states": sorted(self.states), "samples": self.samples,
            "violations": self.violations,
            "files": self.files if self.violations else {},
        }
