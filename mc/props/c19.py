"""C19: fitted parameters and fit histories survive storage unchanged and in order.

records  - every combination of optional fields x value catalogue x file format, value and type exact;
ops      - every sequence of append / save / load over two files and two histories up to a depth, against lists;
long     - histories of every length up to a bound (past ten, past a hundred) per format;
fits     - repeated fits appending to parameter, history and legacy result files: earlier records stay as they were;
models   - parameters loaded from every format give every energy unchanged.
"""
import itertools
import json
import math
import os

import numpy as np

from kmcpy.models import CompositeLCEModel
from kmcpy.models.fitting.fitter import LCEFitter
from kmcpy.models.parameters import LCEModelParameters, LCEModelParamHistory
from kmcpy.event import Event
from kmcpy.simulator.state import State
from mc import models_ref
from mc.drv import World

FORMATS = ("json", "json.gz", "yaml", "yml", "h5")
FIELDS = ("keci", "empty_cluster", "cluster_site_indices", "weight", "alpha", "time_stamp", "time", "rmse", "loocv", "normalize", "orbit_fingerprints",
          "local_environment_hash", "local_site_order")
ORDER = {"name": "nasicon_nat_commun_2022", "sort_keys": ["species", "cartesian_x"], "exclude_center_site": True, "center_match_tolerance": 0.001}
CORE = [
    dict(keci=[1.5, -2.25, 1 / 3], empty_cluster=250.125, cluster_site_indices=[[[0]], [[0, 1], [1, 2]]], weight=[1.0, 0.5], alpha=0.1, time_stamp=1700000000.123456, time="11/14/2023, 22:13:20", rmse=0.1 + 0.2, loocv=12.5),
    dict(keci=[], empty_cluster=0.0, cluster_site_indices=[], weight=[], alpha=0.0, time_stamp="", time="", rmse=0.0, loocv=0.0),
    dict(keci=[1e-300, -1e300, 5e-324, 123456789.12345679], empty_cluster=-0.1, cluster_site_indices=[[0], [1], [2]], weight=[3.0], alpha=1e-7, time_stamp=0.0, time="x: #y - 'z'", rmse=1e-12, loocv=1e15),
    dict(keci=[7.0], empty_cluster=-4503599627370497.5, cluster_site_indices=[3, 1, 2], weight=[2.0 ** -30] * 5, alpha=1.0, time_stamp=1.0, time="01/01/2020", rmse=2.0, loocv=3.0),
]


def make(core, opt=None, **kw):
    d = dict(CORE[core] if isinstance(core, int) else core)
    d.update(opt or {})
    d.update(kw)
    return d


def record(d):
    return LCEModelParameters(**json.loads(json.dumps(d)))


def fields(r):
    return {k: getattr(r, k) for k in FIELDS}


def complete(d):
    return {**dict(normalize=True, orbit_fingerprints=None, local_environment_hash=None, local_site_order=None), **d}


def strict(a, b):
    """same value and same kind of value"""
    if isinstance(b, bool) or isinstance(a, bool):
        return type(a) is type(b) and a == b
    if isinstance(b, dict):
        return isinstance(a, dict) and list(sorted(a)) == list(sorted(b)) and all(strict(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(strict(x, y) for x, y in zip(a, b))
    if isinstance(b, str) or b is None:
        return type(a) is type(b) and a == b
    return isinstance(a, (int, float)) and not isinstance(a, str) and (a == b or (math.isnan(a) and math.isnan(b)))


def judge(chk, r, d, what, **kw):
    chk.expect(isinstance(r, LCEModelParameters), what + ": type of the record")
    want = complete(d)
    for k in FIELDS:
        v = getattr(r, k)
        if k == "orbit_fingerprints" and want[k] == []:
            chk.expect(v in (None, []), what + ": " + k, got=v, **kw)
            continue
        chk.expect(strict(v, want[k]), what + ": " + k, got=v, want=want[k], **kw)


def options():
    for fp, h, o, n in itertools.product((None, ["orbit-a", "ü|b", ""], []), (None, "0" * 64), (None, ORDER), (None, True, False)):
        d = {}
        if fp is not None:
            d["orbit_fingerprints"] = fp
        if h is not None:
            d["local_environment_hash"] = h
        if o is not None:
            d["local_site_order"] = o
        if n is not None:
            d["normalize"] = n
        yield d


def records(chk, fmt, tmp):
    n = 0
    for core, opt in itertools.product(range(len(CORE)), options()):
        d = make(core, opt)
        r = record(d)
        judge(chk, r, d, "constructed")
        judge(chk, LCEModelParameters.from_dict(json.loads(json.dumps(r.as_dict()))), d, "dictionary round trip", core=core, options=opt)
        f = os.path.join(tmp, "r%d.%s" % (n % 7, fmt))
        r.to(f)
        judge(chk, r, d, "saving changed the record")
        back = LCEModelParameters.from_file(f)
        judge(chk, back, d, "file round trip", format=fmt, core=core, options=opt)
        # rewriting a file replaces it, and a reloaded record saves to the same thing
        back.to(f)
        judge(chk, LCEModelParameters.from_file(f), d, "second round trip", format=fmt, core=core, options=opt)
        chk.state((fmt, core, tuple(sorted(map(str, opt.items())))))
        chk.step(3)
        n += 1


def judge_history(chk, h, want, what, **kw):
    chk.expect(len(h.history) == len(want), what + ": number of records", got=len(h.history), want=len(want), **kw)
    for i, (r, d) in enumerate(zip(h.history, want)):
        judge(chk, r, d, what + ": record %d" % i, **kw)


def ops(chk, fmt, tmp, depth):
    """two in-memory histories, two files; every operation sequence up to depth"""
    A = [make(0), make(2, {"orbit_fingerprints": ["q"], "local_site_order": ORDER})]
    alphabet = [("append", h, a) for h in (0, 1) for a in (0, 1)] + [("save", h, f) for h in (0, 1) for f in (0, 1)] + [("load", h, f) for h in (0, 1) for f in (0, 1)]
    paths = [os.path.join(tmp, "h%d.%s" % (f, fmt)) for f in (0, 1)]
    counter = [0]

    def walk(seq, mem, disk, obj):
        if len(seq) == depth:
            return
        for op in alphabet:
            kind, h, x = op
            if kind == "load" and x not in disk:
                continue
            if kind == "append" and h == 1 and not seq:
                continue
            # replay from scratch keeps every run independent of the previous ones
            for p in paths:
                if os.path.exists(p):
                    os.remove(p)
            s2 = seq + (op,)
            o = [LCEModelParamHistory(), LCEModelParamHistory()]
            m = [[], []]
            dk = {}
            for kind2, h2, x2 in s2:
                if kind2 == "append":
                    o[h2].append(record(A[x2]))
                    m[h2] = m[h2] + [A[x2]]
                elif kind2 == "save":
                    o[h2].to(paths[x2])
                    dk[x2] = m[h2]
                else:
                    o[h2] = LCEModelParamHistory.from_file(paths[x2])
                    m[h2] = dk[x2]
            for i in (0, 1):
                judge_history(chk, o[i], m[i], "history in memory", ops=s2)
            for f, want in dk.items():
                judge_history(chk, LCEModelParamHistory.from_file(paths[f]), want, "history on disk", ops=s2)
            counter[0] += 1
            chk.step()
            chk.state((fmt, tuple(len(x) for x in m), tuple(sorted((k, len(v)) for k, v in dk.items())), op))
            walk(s2, m, dk, None)

    walk((), None, {}, None)


def long(chk, fmt, tmp, lengths):
    f = os.path.join(tmp, "long." + fmt)
    for n in lengths:
        ds = [make(0, alpha=float(i), time="t%d" % i, orbit_fingerprints=["o%d" % i]) for i in range(n)]
        h = LCEModelParamHistory()
        for d in ds:
            h.append(record(d))
        h.to(f)
        judge_history(chk, LCEModelParamHistory.from_file(f), ds, "long history", format=fmt, length=n)
        if n == 1100:
            continue
        judge_history(chk, LCEModelParamHistory.from_dict(json.loads(json.dumps(h.as_dict()))), ds, "dictionary history")
        judge_history(chk, LCEModelParamHistory.from_dict(json.loads(json.dumps(h.as_dict()["history"]))), ds, "legacy list history")
        chk.state((fmt, n))
        chk.step()
    # one record appended at a time through the file
    if os.path.exists(f):
        os.remove(f)
    want = []
    LCEModelParamHistory().to(f)
    for i in range(max(n for n in lengths if n < 1000)):
        h = LCEModelParamHistory.from_file(f)
        judge_history(chk, h, want, "appending through the file", format=fmt, length=i)
        d = make(3, alpha=float(i), local_environment_hash="h%d" % i)
        h.append(record(d))
        want.append(d)
        h.to(f)
        chk.step()


DATA = ([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.0, 0.5]], [10.0, -4.0, 5.5, 1.0], [1.0, 2.0, 0.5, 1.0])


def fits(chk, fmt, tmp, n):
    X, y, w = DATA
    p = {k: os.path.join(tmp, "%s.txt" % k) for k in ("corr", "e", "w", "keci")}
    np.savetxt(p["corr"], X)
    np.savetxt(p["e"], y)
    np.savetxt(p["w"], w)
    hist, par, leg = (os.path.join(tmp, x) for x in ("hist." + fmt, "par." + fmt, "legacy.json"))
    fit = LCEFitter()
    done = []
    for i in range(n):
        # every third fit carries fingerprints, every second a hash
        fp = ["a%d" % i, "b"] if i % 3 == 0 else None
        h = "h%d" % i if i % 2 == 0 else None
        r, pred, true = fit.fit(alpha=0.01 * (i + 1), corr_fname=p["corr"], ekra_fname=p["e"], weight_fname=p["w"], keci_fname=p["keci"], lce_params_fname=par,
                                lce_params_history_fname=hist, fit_results_fname=leg, normalize=bool(i % 2), orbit_fingerprints=fp, local_environment_hash=h)
        d = json.loads(json.dumps({k: (v.item() if hasattr(v, "item") else v) for k, v in fields(r).items()}))
        chk.expect(d["orbit_fingerprints"] == fp and d["local_environment_hash"] == h and d["alpha"] == 0.01 * (i + 1) and d["normalize"] is bool(i % 2), "fit metadata", got=d)
        done.append(d)
        judge(chk, LCEModelParameters.from_file(par), d, "parameter file of the fit", fit=i)
        judge_history(chk, LCEModelParamHistory.from_file(hist), done, "history file of the fits", fit=i, format=fmt)
        raw = json.load(open(leg))
        chk.equal(sorted(raw, key=int), [str(k) for k in range(i + 1)], "legacy result keys")
        for k, want in enumerate(done):
            got = raw[str(k)]
            for f in ("keci", "weight", "empty_cluster", "alpha", "rmse", "loocv", "time_stamp"):
                a, b = np.atleast_1d(np.array(got[f], float)), np.atleast_1d(np.array(want[f], float))
                chk.expect(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9), "legacy result record %d: %s" % (k, f), got=got[f], want=want[f], fit=i)
            chk.expect(got["time"] == want["time"] and bool(got["normalize"]) == want["normalize"] and got["orbit_fingerprints"] == want["orbit_fingerprints"]
                       and got["local_environment_hash"] == want["local_environment_hash"], "legacy result record %d: metadata" % k, got=got, want=want)
        again = LCEFitter.from_file(leg).model_parameters
        chk.expect(np.allclose(again.keci, d["keci"], atol=1e-9) and abs(again.alpha - d["alpha"]) < 1e-12, "legacy results: latest record", fit=i)
        # the fitter itself
        g = os.path.join(tmp, "fitter.json")
        fit.to(g)
        b = fields(LCEFitter.from_file(g).model_parameters)
        for f in FIELDS:
            if f not in ("cluster_site_indices", "local_site_order"):
                chk.expect(strict(b[f], d[f]), "fitter round trip: " + f, got=b[f], want=d[f])
        chk.state((fmt, i))
        chk.step()


def models(chk, tmp):
    for wn, ne in (("ring5", 2), ("codes3", 3)):
        w = World.get(wn)
        for seed in (0, 1):
            m = models_ref.lce(w, seed, n_env=ne)
            k = max(len(a) for a in w.allowed)
            keci = [25.0 * math.sin(1.0 + 1.7 * i + seed) for i in range(len(m.get_orbit_fingerprints()))]
            occs = list(itertools.product(range(k), repeat=ne))
            ev = Event(mobile_ion_indices=(0, 1), local_env_indices=tuple(range(ne)))

            def energies(x):
                return [float(x.compute(State(occupations=list(o)), ev)) for o in occs]
            for fmt, fp, h in itertools.product(FORMATS, (True, False), (True, False)):
                d = dict(make(0), keci=keci, empty_cluster=17.25 + seed)
                if fp:
                    d["orbit_fingerprints"] = m.get_orbit_fingerprints()
                if h:
                    d["local_environment_hash"] = m.local_environment_hash
                r = record(d)
                m.set_parameters(r)
                before = energies(m)
                f = os.path.join(tmp, "m." + fmt)
                r.to(f)
                n = models_ref.lce(w, seed, n_env=ne)
                n.load_parameters_from_file(f)
                chk.equal(energies(n), before, "energies after loading parameters from a file", format=fmt, world=wn)
                hh = LCEModelParamHistory()
                hh.append(record(make(1)))
                hh.append(r)
                hf = os.path.join(tmp, "mh." + fmt)
                hh.to(hf)
                n.set_parameters(LCEModelParamHistory.from_file(hf).history[-1])
                chk.equal(energies(n), before, "energies after loading parameters from a history", format=fmt, world=wn)
                # reversed coefficients are a different model: the loaded file must not be ignored
                r2 = record(dict(d, keci=keci[::-1]))
                r2.to(f)
                n.load_parameters_from_file(f)
                if keci != keci[::-1]:
                    chk.expect(energies(n) != before, "parameters loaded from a file are not used")
                chk.step(3)
                chk.state((wn, seed, fmt, fp, h))


def composite(chk, tmp):
    """a rate model assembled from two fits keeps each fit's own parameters and its own history record"""
    w = World.get("ring5")
    ne = len(w.envs[0])
    metas = [None, {"time_stamp": 12.5, "time": "a"}, {"time_stamp": 1700000000.1, "time": "b", "rmse": 0.1}, {"note": {"k": [1, 2.5, None, True]}}]
    for (ka, kb), fmt in itertools.product(itertools.product(range(len(metas)), repeat=2), ("json", "json.gz")):
        for site in (True, False):
            a, b = models_ref.lce(w, 0, n_env=ne), models_ref.lce(w, 3, n_env=ne)
            for m, e in ((a, 1 / 3), (b, -2 / 7)):
                m.set_parameters(dict(keci=[x + 1e-9 * e for x in m.keci], empty_cluster=e))
            c = CompositeLCEModel(kra_model=a, site_model=b if site else None, kra_fit_metadata=metas[ka], site_fit_metadata=metas[kb])
            f = os.path.join(tmp, "comp." + fmt)
            for rnd in range(2):
                c.to(f)
                r = CompositeLCEModel.from_file(f)
                chk.step()
                chk.state((ka, kb, fmt, site, rnd))
                for attr, want in (("kra_fit_metadata", metas[ka]), ("site_fit_metadata", metas[kb])):
                    if want is not None and (site or attr.startswith("kra")):
                        chk.equal(getattr(r, attr), want, "record of the fit changed", which=attr, format=fmt)
                for which, m in (("kra_model", a), ("site_model", b)):
                    if which == "site_model" and not site:
                        chk.expect(r.site_model is None, "a site model appeared")
                        continue
                    x = getattr(r, which)
                    chk.expect([float(v) for v in x.keci] == [float(v) for v in m.keci], "stored coefficients changed", which=which, format=fmt)
                    chk.expect(float(x.empty_cluster) == float(m.empty_cluster), "stored constant changed", which=which, format=fmt, got=x.empty_cluster, want=m.empty_cluster)
                c = r


def main(chk):
    T = chk.thorough
    depth = 4 if T else 3
    lengths = list(range(0, 130)) if T else list(range(0, 24)) + [101]
    huge = [1100]
    chk.bounds = dict(formats=FORMATS, record_values=len(CORE), optional_combinations=36, op_sequences="all append/save/load sequences over 2 histories and 2 files up to depth %d" % depth,
                      history_lengths="%d..%d" % (lengths[0], lengths[-1]), fits=24 if T else 13)
    chk.assumptions = ["HDF5 files go through a stand-in for the absent h5py package that reproduces its observable semantics", "legacy result files keep ten decimals (pandas), compared to 1e-9"]
    tmp = chk.tmp if hasattr(chk, "tmp") else os.getcwd()
    for fmt in FORMATS:
        for name, fn in (("records", lambda f: records(chk, f, tmp)), ("ops", lambda f: ops(chk, f, tmp, depth if f in ("json", "h5") or T else 2)),
                         ("long", lambda f: long(chk, f, tmp, lengths + huge if f in ("json", "h5") or T else lengths[:13])), ("fits", lambda f: fits(chk, f, tmp, 24 if T else 13))):
            with chk.scenario("%s/%s" % (name, fmt)) as on:
                if on:
                    for x in os.listdir(tmp):
                        if os.path.isfile(os.path.join(tmp, x)):
                            os.remove(os.path.join(tmp, x))
                    fn(fmt)
    with chk.scenario("models") as on:
        if on:
            models(chk, tmp)
    with chk.scenario("composite") as on:
        if on:
            composite(chk, tmp)
