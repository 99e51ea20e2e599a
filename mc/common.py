"""Shared exploration harness: bookkeeping, violations, evidence, known findings."""
import contextlib
import hashlib
import importlib
import importlib.util
import json
import math
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    def __init__(self, msg, data=None, key=None):
        super().__init__(msg)
        self.msg, self.data, self.key = msg, data or {}, key


class StopScenario(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)[:300]


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.checks = 0
        self._outcomes = set()
        self.samples = []
        self.bounds = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.cur = None
        self.cur_data = {}
        self.scen_stats = {}
        self.exhaustive = True
        self.known = []
        if os.path.exists(KNOWN):
            self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]

    # ---- exploration counters -------------------------------------------------
    def state(self, key):
        """register an explored state; True when it is new"""
        h = hash((self.cur, key))
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self._outcomes.add(hash(key))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(jsonable(s))

    def note(self, **kw):
        """context recorded in the replay file of the current scenario"""
        self.cur_data.update(kw)

    # ---- oracles ----------------------------------------------------------------
    def fail(self, msg, key=None, **data):
        raise Violation(msg, data, key)

    def expect(self, cond, msg, key=None, **data):
        self.checks += 1
        if not cond:
            raise Violation(msg, data, key)

    def equal(self, got, want, msg, **data):
        self.checks += 1
        if not deep_equal(got, want):
            raise Violation(msg, dict(data, got=got, want=want))

    def close(self, got, want, msg, rel=1e-9, abs_=0.0, **data):
        self.checks += 1
        if not close(got, want, rel, abs_):
            raise Violation(msg, dict(data, got=got, want=want))

    def raises(self, fn, msg, exc=Exception, **data):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation(msg, dict(data, returned=r))

    # ---- scenarios ----------------------------------------------------------------
    @contextlib.contextmanager
    def scenario(self, name):
        """with chk.scenario(name) as on: if on: ..."""
        if self.only is not None and name != self.only:
            yield False
            return
        self.cur, self.cur_data = name, {}
        s0, t0, w0 = len(self._states), self.transitions, time.time()
        try:
            yield True
        except StopScenario:
            pass
        except Violation as v:
            self._record(v.msg, v.data, v.key)
        except Exception as e:  # code under test raised on a legal input
            tb = traceback.format_exc()
            self._record("unexpected %s: %s" % (type(e).__name__, str(e)[:300]), {"traceback": tb[-4000:]}, None)
        self.scen_stats[name] = dict(states=len(self._states) - s0, transitions=self.transitions - t0,
                                     wall_s=round(time.time() - w0, 2))
        self.cur = None

    def _record(self, msg, data, key):
        for k in self.known:
            if k.get("key") == key and key is not None:
                self.known_hits.append(k)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        rid = hashlib.sha256((self.pid + str(self.cur) + msg).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.pid, rid))
        rec = dict(property=self.pid, scenario=self.cur, message=msg, tier=self.tier,
                   data=jsonable(data), context=jsonable(self.cur_data),
                   rerun="bash %s/run.sh %s %s --replay %s" % (VERIF, self.pid, self.tier, path))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(rec)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  scenario=%s: %s" % (self.cur, msg))
        short = json.dumps(rec["data"])[:1500]
        print("  data=%s" % short)
        sys.stdout.flush()

    # ---- driver --------------------------------------------------------------------
    def run(self, modname):
        import logging
        import warnings
        warnings.simplefilter("ignore")
        if importlib.util.find_spec("h5py") is None:  # absent here: use the documented stand-in
            sys.path.append(os.path.join(VERIF, "mc", "standin"))
        logging.disable(logging.CRITICAL)
        scratch = tempfile.mkdtemp(prefix="kmcmc_")
        old = os.getcwd()
        os.chdir(scratch)
        self.scratch = scratch
        try:
            try:
                mod = importlib.import_module("mc.props." + modname)
            except Exception as e:
                self.cur = "import"
                self._record("importing the code under test failed: %s" % e, {"traceback": traceback.format_exc()[-3000:]}, None)
            else:
                mod.main(self)
        finally:
            os.chdir(old)
            shutil.rmtree(scratch, ignore_errors=True)
        self._evidence()
        if self.violations:
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d checks=%d outcomes=%d wall=%.1fs"
              % (self.pid, self.tier, len(self._states), self.transitions, self.traces, self.checks,
                 len(self._outcomes), time.time() - self.t0))
        return 0

    def _evidence(self):
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=len(self._states), transitions=self.transitions,
                                traces_validated_against_impl=self.traces or self.transitions,
                                oracle_checks=self.checks, distinct_outcomes=len(self._outcomes),
                                samples=self.samples or ["none"], bounds=jsonable(self.bounds),
                                scenarios=self.scen_stats,
                                exhaustive=bool(self.exhaustive and self.only is None)),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations), known_findings=len(self.known_hits))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def close(a, b, rel=1e-9, abs_=0.0):
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    both_nan = np.isnan(a) & np.isnan(b)
    same = a == b
    with np.errstate(invalid="ignore"):
        near = np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(both_nan | same | near))


def deep_equal(a, b):
    """value equality that treats lists/tuples/arrays alike and NaN == NaN, but not 1 == True"""
    import numpy as np
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(deep_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(deep_equal(a[k], b[k]) for k in a)
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False
