"""C24: simulations and calculations in one process do not disturb each other.

schedules - two (three) simulations, each in its own thread under a controlled scheduler with one baton: every schedule up to a
            preemption bound over the switch points (between operations, at every property firing, inside every rate evaluation of a
            user model), for every combination of shared inputs (structure and ordering, event library, configuration, model);
merges    - every merge of the operation sequences of two simulations stepped by hand, including observers and checkpoints;
sequence  - every ordered pair A, B, A (and every rotation of a long cycle) of a catalogue of calculations, several variants of each,
            files under the same names included; each sequence in a process of its own.
Oracle: the same simulation or calculation alone in a fresh process.
"""
import contextlib
import gzip
import hashlib
import io
import itertools
import json
import math
import os
import pickle
import shutil
import sys
import threading

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.event import EventLib, HopStateLookup
from kmcpy.models import CompositeLCEModel, LocalBarrierModel, LocalClusterExpansion
from kmcpy.models.base import BaseModel
from kmcpy.models.parameters import LCEModelParameters
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from kmcpy.structure import ActiveSiteOrder, LatticeStructure, enumerate_local_environments
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from mc import models_ref
from mc.drv import Table, World, check_rates
from mc.props import c17, c18, c20, c21, c23


# ------------------------------------------------------------------ comparing what was observed


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    return str(x)


def differ(a, b, path=""):
    """None, or where two observations differ"""
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, (float, int)):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-10 * max(abs(a), abs(b)):
            return None
        return (path, a, b)
    if type(a) is not type(b):
        return (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return (path, sorted(a), sorted(b))
        for k in a:
            d = differ(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path + "/%d" % i)
            if d:
                return d
        return None
    return None if a == b else (path, a, b)


# ------------------------------------------------------------------ schedules


class Baton:
    """One thread runs at a time; `script` is a list of (actor, number of switch points) segments, then lowest first."""

    def __init__(self, n, script):
        self.n, self.script = n, list(script)
        self.cv = threading.Condition()
        self.done = [False] * n
        self.count = [0] * n
        self.left = None
        self.turn = None
        self.switches = 0
        self.advance()

    def advance(self):
        while self.script:
            a, k = self.script.pop(0)
            if not self.done[a]:
                self.turn, self.left = a, k
                return
        self.turn = next((a for a in range(self.n) if not self.done[a]), None)
        self.left = None

    def wait(self, a):
        with self.cv:
            while self.turn != a:
                if not self.cv.wait(60):
                    raise RuntimeError("no progress")

    def point(self, a):
        self.count[a] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            with self.cv:
                self.switches += 1
                self.advance()
                self.cv.notify_all()
            self.wait(a)

    def finish(self, a):
        with self.cv:
            self.done[a] = True
            if self.turn == a:
                self.advance()
            self.cv.notify_all()


class Yielding(Table):
    """user model that gives the scheduler a chance inside every rate evaluation"""
    where = threading.local()

    def compute_probability(self, event, runtime_config, simulation_state):
        hook = getattr(self.where, "hook", None)
        if hook:
            hook()
        r = super().compute_probability(event, runtime_config, simulation_state)
        if hook:
            hook()
        return r * (runtime_config.temperature / 600.0)


class Actor:
    """world, model kind and seed, occupation and configuration of one simulation"""

    def __init__(self, wn, kind, seed, occ, **cfg):
        self.wn, self.kind, self.seed, self.occ, self.cfg = wn, kind, seed, tuple(occ), cfg
        self.built = {}

    def world(self):
        return World.get(self.wn)

    def own_world(self):
        if "world" not in self.built:
            self.built["world"] = fresh_world(self.wn)
        return self.built["world"]

    def lce(self, seed, n, scale):
        key = (seed, n, scale)  # one object per simulation: energies are functions of what is asked
        if key not in self.built:
            self.built[key] = models_ref.lce(self.world(), seed, n_env=n, scale=scale)
        return self.built[key]

    def model(self):
        w = self.world()
        if self.kind == "table":
            return Yielding(self.seed)
        if self.kind == "stateful":
            return models_ref.Stateful(self.seed)
        if self.kind == "lbm":
            m = models_ref.lbm(w)
            if self.seed:
                m = LocalBarrierModel(default_barrier=310.0 + self.seed)
                m.add_state_count_rule(state=0, sites="local_env", count=1, barrier=205.0 + self.seed)
                m.add_pattern_rule([0, "*"], sites="mobile_ion", barrier=291.0)
            return m
        n = len(w.envs[0])
        kra = self.lce(self.seed % 2, n, 20.0 + self.seed)
        if self.kind == "composite":
            return CompositeLCEModel(kra_model=kra, site_model=self.lce(1 - self.seed % 2, n, 15.0 - self.seed))
        k = 3.0 + self.seed

        def energy(changes, external_occupation):
            o = list(external_occupation)
            e = [sum(k * (i + 1) * (1 + (i % 3)) * v for i, v in enumerate(o))]
            for c in changes:
                o[c.external_site] = c.new_value
            return sum(k * (i + 1) * (1 + (i % 3)) * v for i, v in enumerate(o)) - e[0]
        return CompositeLCEModel(kra_model=kra, site_model=SiteEnergyModel(compute_fn=energy, units="meV"))


def fresh_world(name):
    return World(name, *World.SPEC[name])


class Inputs:
    """what an actor is built from; shared with another actor or its own"""

    def __init__(self, actor, share=(), other=None):
        same = other is not None and other.actor.wn == actor.wn
        self.actor = actor
        self.w = other.w if same and "order" in share else actor.own_world()
        self.lib = other.lib if same and "lib" in share else self.w.event_lib()
        self.model = other.model if same and "model" in share and actor.kind == other.actor.kind and actor.seed == other.actor.seed else actor.model()
        self.config = other.config if same and "config" in share and actor.cfg == other.actor.cfg else self.w.config(**actor.cfg)

    def build(self):
        w = self.w
        return KMC(structure=w.structure, model=self.model, event_lib=self.lib, config=self.config,
                   simulation_state=State(occupations=list(self.actor.occ)), hop_state_lookup=w.lookup(), active_site_order=w.order)


def digest(path):
    """content of a file (compressed files by what they hold)"""
    with open(path, "rb") as f:
        b = f.read()
    if path.endswith(".gz"):
        b = gzip.decompress(b)
    return hashlib.sha256(b).hexdigest()


def program(inp, tag, point):
    """one simulation from construction to results; returns everything it observed"""
    log = []
    kmc = inp.build()
    point()

    def see(state, step, time):
        log.append([int(step), float(time), [int(x) for x in state.occupations], float(state.time), int(state.step)])
        point()
        return float(sum((i + 1) * int(x) for i, x in enumerate(state.occupations)))
    see.__name__ = "see"
    kmc.attach(see, interval=1)
    kmc.attach(lambda state, step, time: step, name="late_" + tag, interval=2, max_records=2)
    point()
    kmc.set_property_enabled("msd", tag != "b")
    if tag == "a":
        kmc.set_property_frequency(interval=2)
    point()
    tr = kmc.run(label="run_" + tag)
    point()
    out = dict(log=log, occ=[int(x) for x in kmc.simulation_state.occupations], time=float(kmc.simulation_state.time),
               displacement=plain(np.asarray(tr.displacement)), hops=plain(np.asarray(tr.hop_counter)))
    point()
    kmc.detach("see")
    tr = kmc.run(label="again_" + tag)
    point()
    kmc.simulation_state.save_checkpoint("ck_%s.json" % tag)
    point()
    st = State.load_checkpoint("ck_%s.json" % tag)
    out.update(occ2=[int(x) for x in st.occupations], time2=float(st.time), step2=int(st.step), seen=len(log))
    out["files"] = {n: digest(n) for n in sorted(os.listdir(".")) if tag in n.split(".")[0].split("_")}
    return out


def together(actors, share, script, shutdown=True):
    """run the actors under one schedule; returns (observations, switch points per actor)"""
    inputs = []
    for a in actors:
        inputs.append(Inputs(a, share, inputs[0] if inputs else None))
    b = Baton(len(actors), script)
    res = [None] * len(actors)

    def body(i):
        b.wait(i)
        Yielding.where.hook = lambda: b.point(i)
        try:
            res[i] = plain(program(inputs[i], "abc"[i], lambda: b.point(i)))
        except BaseException as e:
            res[i] = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        finally:
            Yielding.where.hook = None
            b.finish(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(actors))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    return res, b.count, b.switches


def child(path, fn, args, here=False):
    """body of a forked child: fn(*args) in a scratch folder of its own, the result pickled to path"""
    code = 1
    try:
        d = None if here else path + ".d"
        if d:
            os.mkdir(d)
            os.chdir(d)
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn):
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                import traceback
                out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
        if d:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        with open(path, "wb") as f:
            pickle.dump(out, f)
        code = 0
    finally:
        os._exit(code)


SERIAL = itertools.count()


def isolated_many(jobs, width=None, here=False):
    """[(fn, args)] each in a forked child, several at a time (here: in this folder); results in order"""
    width = width or min(8, os.cpu_count() or 1)
    res, live, todo = [None] * len(jobs), {}, list(enumerate(jobs))[::-1]
    while todo or live:
        while todo and len(live) < width:
            i, (fn, args) = todo.pop()
            path = os.path.join(os.getcwd(), "iso_%d_%d" % (os.getpid(), next(SERIAL)))
            pid = os.fork()
            if pid == 0:
                child(path, fn, args, here)
            live[pid] = (i, path)
        pid, _ = os.wait()
        if pid in live:
            i, path = live.pop(pid)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    res[i] = pickle.load(f)
                os.remove(path)
            else:
                res[i] = ("error", "the process died")
    return res


def isolated(fn, *args):
    return isolated_many([(fn, args)])[0]


def alone(actors, i):
    """the actor's observations with nothing else in the process"""
    def run():
        inp = Inputs(actors[i])
        return plain(program(inp, "abc"[i], lambda: None))
    return isolated(run)


def pairs():
    chain = (0, 1, 1, 0, 1)
    c600 = dict(temperature=600.0, kmc_passes=1, equilibration_passes=0, random_seed=11)
    yield "same", [Actor("ring5", "table", 3, chain, **c600), Actor("ring5", "table", 3, chain, **c600)]
    yield "seed", [Actor("ring5", "table", 3, chain, **c600), Actor("ring5", "table", 3, chain, **dict(c600, random_seed=12))]
    yield "occupation", [Actor("ring5", "table", 3, chain, **c600), Actor("ring5", "table", 3, (1, 0, 0, 1, 1), **c600)]
    yield "temperature", [Actor("ring5", "table", 3, chain, **c600), Actor("ring5", "table", 4, (1, 0, 0, 1, 1), **dict(c600, temperature=300.0))]
    yield "world", [Actor("ring5", "table", 3, chain, **c600), Actor("codes", "table", 3, (0, 1, 1, 0), **c600)]
    yield "passes", [Actor("ring5", "table", 3, chain, **c600), Actor("ring5", "table", 5, chain, **dict(c600, equilibration_passes=1))]


def model_pairs():
    chain = (0, 1, 1, 0, 1)
    c = dict(temperature=600.0, kmc_passes=1, equilibration_passes=0, random_seed=11)
    for kind in ("lbm", "composite", "external", "stateful"):
        yield kind + "/parameters", [Actor("ring5", kind, 0, chain, **c), Actor("ring5", kind, 3, chain, **c)]
        yield kind + "/occupation", [Actor("ring5", kind, 2, chain, **c), Actor("ring5", kind, 2, (1, 0, 1, 1, 0), **dict(c, random_seed=5))]
        yield kind + "/conditions", [Actor("ring5", kind, 2, chain, **c), Actor("ring5", kind, 2, chain, **dict(c, temperature=250.0, attempt_frequency=3e12, equilibration_passes=1))]
        if kind in ("lbm", "stateful"):
            yield kind + "/world", [Actor("frame", kind, 0, (0, 1, 1, 0, 1, 0), **c), Actor("codes", kind, 0, (0, 1, 1, 0), **c)]


SHARES = [(), ("order",), ("lib", "order"), ("config",), ("model",), ("order", "lib", "config", "model")]


def scripts(n0, n1, bound, stride=1):
    """every two-actor schedule with up to `bound` preemptions at multiples of stride"""
    for first in (0, 1):
        n = (n0, n1)
        yield [(first, 10 ** 9)]
        if bound >= 1:
            for i in range(1, n[first] + 1, stride):
                yield [(first, i), (1 - first, 10 ** 9)]
                if bound >= 2:
                    for j in range(1, n[1 - first] + 1, stride):
                        yield [(first, i), (1 - first, j), (first, 10 ** 9)]


def explore(chk, name, actors, share, bound, stride):
    ref = []
    for i in range(len(actors)):
        st, r = alone(actors, i)
        chk.expect(st == "ok" and "error" not in r, "a simulation alone failed", error=r, pair=name)
        ref.append(r)
    first, counts, _ = together(actors, share, [(0, 10 ** 9)])
    for script in scripts(counts[0], counts[1], bound, stride):
        clean()
        res, cnt, sw = together(actors, share, script)
        chk.step(sum(cnt))
        chk.trace()
        chk.state((name, share, tuple(script)))
        chk.outcome((name, tuple(map(str, res[0]["log"][-1:] if "log" in res[0] else "e"))))
        for i in range(len(actors)):
            d = differ(ref[i], res[i]) if res[i] is not None else ("", "finished", "hung")
            chk.expect(d is None, "a simulation differs from the same simulation alone", pair=name, shared=share, schedule=script, simulation=i,
                       where=d and d[0], alone=d and str(d[1])[:300], together=d and str(d[2])[:300])


# ------------------------------------------------------------------ merges of hand-stepped simulations


def stepper(inp, tag, thorough):
    """operations of one simulation as a list of callables, each returning what it observed"""
    box = {}
    w = inp.w

    def look():
        k = box["k"]
        return [[int(x) for x in k.simulation_state.occupations], float(k.simulation_state.time), int(k.simulation_state.step)]

    def build():
        box["k"] = inp.build()
        return look()

    def hop(u):
        def f():
            from mc.drv import propose
            k = box["k"]
            ev, dt = propose(k, u)
            k.update(ev, dt)
            a, b = ev.mobile_ion_indices
            return [int(a), int(b), float(dt)] + look()
        return f

    def rates():
        k = box["k"]
        return [float(k.model.compute_probability(event=e, runtime_config=k.config.runtime_config, simulation_state=k.simulation_state)) for e in k.event_lib.events]

    def save():
        box["k"].simulation_state.save_checkpoint("m_%s.json" % tag)
        st = State.load_checkpoint("m_%s.json" % tag)
        return [[int(x) for x in st.occupations], float(st.time), int(st.step)]

    def deps():
        lib = box["k"].event_lib
        return [sorted(int(x) for x in lib.get_dependent_events(i)) for i in range(len(lib))]
    if thorough:
        return [build, hop(0.3), rates, hop(0.8), save, hop(0.55), deps] if tag == "a" else [build, hop(0.6), save, hop(0.1), rates]
    return [build, hop(0.3), save, hop(0.8), deps] if tag == "a" else [build, hop(0.6), hop(0.1), rates]


def merge_all(chk, name, actors, share):
    ref = []
    for i in range(2):
        st, r = isolated(lambda: [plain(f()) for f in stepper(Inputs(actors[i]), "ab"[i], chk.thorough)])
        chk.expect(st == "ok", "a simulation alone failed", error=r)
        ref.append(r)
    n = [len(r) for r in ref]
    for where in itertools.combinations(range(sum(n)), n[0]):
        a = Inputs(actors[0], share)
        ops = [stepper(a, "a", chk.thorough), stepper(Inputs(actors[1], share, a), "b", chk.thorough)]
        at = [0, 0]
        for t in range(sum(n)):
            i = 0 if t in where else 1
            got = plain(ops[i][at[i]]())
            d = differ(ref[i][at[i]], got)
            chk.expect(d is None, "an operation of a simulation gives another result when another simulation is stepped in between", pair=name, shared=share,
                       order=["ab"[0 if q in where else 1] for q in range(t + 1)], simulation=i, operation=at[i], where=d and d[0],
                       alone=d and str(d[1])[:300], together=d and str(d[2])[:300])
            at[i] += 1
            chk.step()
        chk.trace()
        chk.state((name, share, where))


# ------------------------------------------------------------------ catalogue of calculations


def op_order(wn, mapping=None, shape=None, latt=None):
    la, sp, co, mp, sh = World.SPEC[wn][:5]
    o = ActiveSiteOrder.from_structure_and_mapping(Structure(Lattice(latt if latt is not None else la), sp, co), mapping or mp, shape or sh)
    s = o.active_structure()
    back = ActiveSiteOrder.from_dict(o.as_dict()) if hasattr(ActiveSiteOrder, "from_dict") else o
    return plain([o.as_dict(), s.frac_coords, s.lattice.matrix, [str(x) for x in s.species], back.as_dict()])


def op_lookup(wn, mobile, mapping=None):
    la, sp, co, mp, sh = World.SPEC[wn][:5]
    lk = HopStateLookup.from_active_site_order(ActiveSiteOrder.from_structure_and_mapping(Structure(Lattice(la), sp, co), mapping or mp, sh), mobile)
    return plain([lk.mobile_state_by_site, lk.vacancy_state_by_site])


def op_library(wn, via, turn=0):
    w = fresh_world(wn)
    w.pairs = [tuple((x + turn) % w.n for x in p) for p in w.pairs]
    w.envs = [tuple((x + 2 * turn) % w.n for x in e) for e in w.envs]
    lib = w.event_lib(via)
    lib.to("library.json")
    back = EventLib.from_file("library.json")
    return [[sorted(int(x) for x in lib.get_dependent_events(i)) for i in range(len(lib))], plain([list(e.mobile_ion_indices) for e in back.events]), plain([list(e.local_env_indices) for e in back.events])]


def op_lce(n, cut, species, scale, centre=0.0, bend=0.37, basis="chebyshev", order=None):
    co = [[2.0 + 0.9 * i + centre, 2.0 + bend * i * i, 2.0 + 0.23 * (i % 3)] for i in range(n)]
    s = Structure(Lattice.cubic(60.0), ["Si"] * n, co, coords_are_cartesian=True)
    ll = LocalLatticeStructure(s, center=[2.0 / 60] * 3, cutoff=25.0, site_mapping={"Si": species}, basis_type=basis, local_site_order=order)
    m = LocalClusterExpansion()
    m.build(ll, cutoff_cluster=list(cut))
    fp = m.get_orbit_fingerprints()
    m.set_parameters(dict(keci=[scale * math.sin(1.0 + 1.7 * i) for i in range(len(fp))], empty_cluster=scale, orbit_fingerprints=fp, local_environment_hash=m.local_environment_hash))
    from kmcpy.event import Event
    ev = Event(mobile_ion_indices=(n, n + 1), local_env_indices=tuple(range(n)))
    es = []
    for occ in itertools.product(range(len(species)), repeat=n):
        es.append(float(m.compute(event=ev, simulation_state=State(occupations=list(occ) + [0, 1]))))
    m.to("lce.json")
    return plain([fp, m.local_environment_hash, es, LocalClusterExpansion.from_file("lce.json").as_dict()["cluster_site_indices"] if "cluster_site_indices" in m.as_dict() else 0])


def op_rates(wn, kind, seed, occ, **cfg):
    a = Actor(wn, kind, seed, occ, **cfg)
    k = Inputs(a).build()
    return [float(k.model.compute_probability(event=e, runtime_config=k.config.runtime_config, simulation_state=k.simulation_state)) for e in k.event_lib.events]


def op_generate(name, shape, kw, mapping=None, cell=None):
    c = c17.Crystal(name, 0, os.getcwd())
    os.remove(c.path)
    c.path = os.path.join(os.getcwd(), "crystal.cif")
    with open(c.path, "w") as f:
        f.write(c17.cif(name).replace(*cell) if cell else c17.cif(name))
    c.map = mapping or c.map
    g, ref, lib = c17.generate(c, os.getcwd(), shape, None, kw)
    return plain([[list(e.mobile_ion_indices), list(e.local_env_indices)] for e in lib.events])


def moved(text, shift):
    """the same crystal file with the last coordinate digits of every atom moved: same length, other content"""
    if not shift:
        return text
    out = []
    for l in text.split("\n"):
        t = l.split()
        if len(t) == 6 and l.startswith("  "):
            t[4] = "%.8f" % ((float(t[4]) + shift) % 1.0)
            l = "  " + " ".join(t)
        out.append(l)
    return "\n".join(out)


def op_cif(name, primitive, shift=0.0):
    from kmcpy.io.cif import load_labeled_structure_from_cif
    with open("crystal.cif", "w") as f:
        f.write(moved(c17.cif(name), shift))
    s = load_labeled_structure_from_cif("crystal.cif", primitive=primitive)
    return plain([s.lattice.matrix, s.frac_coords, [str(x) for x in s.species], [str(x.properties.get("label")) for x in s]])


def op_enumerate(name, kw):
    m = c18.Model(name)
    return [[str(r.label), plain(r.full_occupation.values)] for r in enumerate_local_environments(m.ls, **kw)]


def op_convert(name, k, mapping=None, shift=0.0):
    m = c18.Model(name)
    if mapping or shift:
        m.ls = LatticeStructure(Structure(m.t.lattice, m.t.species, np.array(m.t.frac_coords) + shift), mapping or m.mp)
    occ = [m.value((k + 3 * i) % len(a)) for i, a in enumerate(m.full_allowed)]
    s = m.ls.get_structure_from_occ(occ)
    return plain([s.frac_coords, [str(x) for x in s.species], m.ls.get_occ_from_structure(s).values])


def op_fit(x, y, w, alpha, norm):
    p, pred, true = c21.run(x, y, w, alpha, norm)
    q = LCEModelParameters.from_file("p.json")
    return plain([p.keci, p.empty_cluster, p.rmse, p.loocv, pred, true, q.keci, q.empty_cluster])


def op_config(fields, fn):
    Configuration(**fields).to(fn)
    c = Configuration.from_file(fn)
    d = c.with_runtime_changes(temperature=c.temperature + 1.0) if hasattr(c, "with_runtime_changes") else c
    return plain([c.temperature, c.attempt_frequency, c.supercell_shape, c.site_mapping, c.kmc_passes, c.random_seed, d.temperature, c.name])


def op_state(values, time, step, fmt):
    st = State(occupations=list(values))
    st.time, st.step = time, step
    st.save_checkpoint("state." + fmt)
    b = State.load_checkpoint("state." + fmt)
    return plain([list(b.occupations), b.time, b.step])


def op_neb(which, k):
    cell = dict(c20.cells())[which]
    from kmcpy.io.neb.data import NEBDataLoader
    ld = NEBDataLoader()
    for j, occ in enumerate(cell.states()[k::5]):
        ld.add_structure(cell.structure(occ, j % 3, j % 2), 100.0 + j, model=cell.model, reference_local_lattice_structure=cell.local) if False else ld.add_structure(cell.structure(occ, j % 3, j % 2), 100.0 + j, model=cell.model)
    return plain([ld.get_correlation_matrix(), ld.get_occupation_matrix(), ld.get_properties()])


def op_gather(name, shape, turn):
    p = c23.prim(name, c23.CUB, "prim.json")
    t = c23.gather_mc_data.generate_supercell(p, shape)
    syms = [x.specie.symbol for x in t]
    at = [(s if (i + turn) % 3 else "Ge", tuple(x.frac_coords)) for i, (x, s) in enumerate(zip(t, syms))]
    c23.write("POSCAR.final", t.lattice.matrix, at)
    return plain([syms, t.frac_coords, [int(x) for x in c23.gather_mc_data.get_occ("POSCAR.final", t)]])


def op_run(wn, kind, seed, occ, latt=None, **cfg):
    """a whole simulation configured by files, always under the same names"""
    w = World(wn, *((latt if latt is not None else World.SPEC[wn][0],) + World.SPEC[wn][1:5] + (3.6,) + World.SPEC[wn][6:]))
    w.template.to(filename="in.cif")
    w.event_lib().to("in_events.json")
    m = models_ref.lbm(w)
    if seed:
        m = LocalBarrierModel(default_barrier=300.0 + seed)
        m.add_pattern_rule([0, "*"], sites="mobile_ion", barrier=280.0 + seed)
    m.to("in_model.json")
    with open("in_state.json", "w") as f:
        json.dump({"occupation": [int(x) for x in occ]}, f)
    base = dict(structure_file="in.cif", model_file="in_model.json", model_type="local_barrier", event_file="in_events.json", site_mapping=w.mapping,
                mobile_ion_specie=w.mobile, supercell_shape=w.shape, temperature=500.0, attempt_frequency=1e12, equilibration_passes=1, kmc_passes=2,
                elementary_hop_distance=3.0, random_seed=7, initial_occupations=list(occ))
    base.update(cfg)
    with open("in_config.json", "w") as f:
        json.dump(plain(base), f)
    k = KMC.from_config(Configuration.from_file("in_config.json"))
    tr = k.run(label="whole")
    return plain([[int(x) for x in k.simulation_state.occupations], float(k.simulation_state.time), np.asarray(tr.displacement), np.asarray(tr.hop_counter),
                  {n: digest(n) for n in sorted(os.listdir(".")) if "whole" in n}])


def catalogue(thorough):
    c5 = dict(temperature=600.0, attempt_frequency=1e12)
    ops = {}

    def add(name, fn, *a, **k):
        ops[name] = (fn, a, k)
    add("order/ring5", op_order, "ring5")
    add("order/ring5 longer", op_order, "ring5", shape=(3, 1, 1))
    add("order/ring5 stretched", op_order, "ring5", latt=np.diag([3.5, 9.0, 9.0]))
    add("order/ring5 other mapping", op_order, "ring5", mapping={"Na": ["X", "Na", "K"]})
    add("order/codes", op_order, "codes")
    add("order/codes fixed", op_order, "codes", mapping={"Na": ["Na", "X"], "K": "K"})
    add("lookup/codes Na", op_lookup, "codes", "Na")
    add("lookup/codes K", op_lookup, "codes", "K")
    add("lookup/block", op_lookup, "block", "Na")
    add("lookup/block other states", op_lookup, "block", "Na", mapping={"Na": ["X", "Mg", "Na"]})
    add("lookup/block two states", op_lookup, "block", "Na", mapping={"Na": ["Na", "X"]})
    add("library/ring5", op_library, "ring5", "generated")
    add("library/ring5 turned", op_library, "ring5", "generated", turn=1)
    add("library/ring5 turned file", op_library, "ring5", "file", turn=2)
    add("library/twin", op_library, "twin", "extended")
    add("library/ring8", op_library, "ring8", "dict")
    add("lce/3 sites", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0)
    add("lce/3 sites parameters", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 7.0)
    add("lce/3 sites cutoff", op_lce, 3, (1.5, 1.5, 1.5), ["Si", "P"], 20.0)
    add("lce/3 sites states", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P", "Al"], 20.0)
    add("lce/3 sites shifted", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0, centre=0.4)
    add("lce/3 sites bent", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0, bend=0.61)
    add("lce/3 sites other species", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "Ge"], 20.0)
    add("lce/3 sites occupation basis", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0, basis="occupation")
    add("lce/3 sites reordered", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0, bend=-0.37, order={"name": "o", "sort_keys": ["species_string", "cartesian_y"], "exclude_center_site": False})
    add("lce/3 sites other order", op_lce, 3, (20.0, 20.0, 20.0), ["Si", "P"], 20.0, bend=-0.37)
    add("lce/4 sites", op_lce, 4, (20.0, 20.0, 20.0), ["Si", "P"], 20.0)
    for kind in ("lbm", "composite", "external"):
        add("rates/%s" % kind, op_rates, "ring5", kind, 0, (0, 1, 1, 0, 1), **c5)
        add("rates/%s parameters" % kind, op_rates, "ring5", kind, 3, (0, 1, 1, 0, 1), **c5)
        add("rates/%s occupation" % kind, op_rates, "ring5", kind, 0, (0, 1, 0, 0, 1), **c5)
        add("rates/%s temperature" % kind, op_rates, "ring5", kind, 0, (0, 1, 1, 0, 1), **dict(c5, temperature=450.0))
        add("rates/%s frequency" % kind, op_rates, "ring5", kind, 0, (0, 1, 1, 0, 1), **dict(c5, attempt_frequency=5e12))
    add("rates/lbm codes", op_rates, "codes", "lbm", 0, (0, 1, 1, 0), **c5)
    add("generate/screw", op_generate, "screw", (2, 1, 1), dict(mobile_species=["Na"], local_env_cutoff=4.03))
    add("generate/screw cutoff", op_generate, "screw", (2, 1, 1), dict(mobile_species=["Na"], local_env_cutoff=5.02))
    add("generate/screw shape", op_generate, "screw", (1, 2, 1), dict(mobile_species=["Na"], local_env_cutoff=4.03))
    add("generate/four", op_generate, "four", (2, 1, 1), dict(mobile_species=["Na"], local_env_cutoff=3.4))
    add("generate/screw cell", op_generate, "screw", (2, 1, 1), dict(mobile_species=["Na"], local_env_cutoff=4.03), cell=("_cell_length_b 4.4", "_cell_length_b 3.9"))
    add("generate/screw mapping", op_generate, "screw", (2, 1, 1), dict(mobile_species=["Na"], local_env_cutoff=4.03), mapping={"Na": ["Na", "X"], "Si": "Si", "O": "O"})
    add("cif/pair", op_cif, "pair", False)
    add("cif/pair moved", op_cif, "pair", False, shift=0.0625)
    add("cif/inv moved", op_cif, "inv", False, shift=0.0625)
    add("cif/inv", op_cif, "inv", False)
    add("cif/inv primitive", op_cif, "inv", True)
    add("enumerate/small", op_enumerate, "small", dict(center=0, cutoff=3.3, exclude_center_site=True))
    add("enumerate/small with centre", op_enumerate, "small", dict(center=0, cutoff=3.3, exclude_center_site=False))
    add("enumerate/small cutoff", op_enumerate, "small", dict(center=0, cutoff=4.4, exclude_center_site=True, max_results=40))
    add("enumerate/small centre", op_enumerate, "small", dict(center=1, cutoff=3.3, exclude_center_site=True))
    add("enumerate/small species", op_enumerate, "small", dict(center=0, cutoff=3.3, exclude_center_site=True, variable_species=["Na", "X"]))
    add("enumerate/tri", op_enumerate, "tri", dict(center=0, cutoff=2.4, exclude_center_site=True))
    add("convert/small", op_convert, "small", 0)
    add("convert/small other", op_convert, "small", 1)
    add("convert/tri", op_convert, "tri", 1)
    add("convert/small states", op_convert, "small", 1, mapping={"Na": ["X", "Na"], "Si": ["P", "Si"], "O": "O"})
    add("convert/small moved", op_convert, "small", 1, shift=0.05)
    x = [[1, 0], [0, 1], [1, 1], [2, -1]]
    add("fit/a", op_fit, x, [1.0, 2.0, 4.0, -1.0], [1.0] * 4, 0.1, False)
    add("fit/targets", op_fit, x, [3.0, 2.0, 4.0, -1.0], [1.0] * 4, 0.1, False)
    add("fit/features", op_fit, [[1, 0], [0, 2], [1, 1], [2, -1]], [1.0, 2.0, 4.0, -1.0], [1.0] * 4, 0.1, False)
    add("fit/normalised", op_fit, x, [1.0, 2.0, 4.0, -1.0], [1.0] * 4, 0.1, True)
    add("fit/penalty", op_fit, x, [1.0, 2.0, 4.0, -1.0], [1.0] * 4, 0.5, False)
    add("fit/weights", op_fit, x, [1.0, 2.0, 4.0, -1.0], [1.0, 2.0, 3.0, 1.0], 0.1, True)
    base = dict(mobile_ion_specie="Na", supercell_shape=(2, 1, 1), temperature=300.0, attempt_frequency=1e12, site_mapping={"Na": ["Na", "X"]}, name="one")
    add("config/json", op_config, base, "config.json")
    add("config/json values", op_config, dict(base, temperature=410.0, random_seed=4, supercell_shape=(1, 1, 3), name="two"), "config.json")
    add("config/yaml", op_config, dict(base, kmc_passes=9, site_mapping={"Na": ["X", "Na"], "O": "O"}), "config.yaml")
    add("state/json", op_state, (0, 1, 1, 0), 0.125, 7, "json")
    add("state/json other", op_state, (1, 1, 0, 0), 3.5, 2, "json")
    add("neb/binary", op_neb, "binary", 0)
    add("neb/binary other", op_neb, "binary", 2)
    add("neb/mixed", op_neb, "mixed", 1)
    for i, (n, sh, k) in enumerate([("two", (2, 1, 1), 0), ("two", (2, 1, 1), 1), ("two", (1, 2, 1), 0), ("frame", (2, 1, 1), 0), ("mixed", (2, 1, 1), 0)]):
        add("gather/%s %d" % (n, i), op_gather, n, sh, k)
    add("run/ring5", op_run, "ring5", "lbm", 0, (0, 1, 1, 0, 1))
    add("run/ring5 model", op_run, "ring5", "lbm", 20, (0, 1, 1, 0, 1))
    add("run/ring5 occupation", op_run, "ring5", "lbm", 0, (0, 1, 0, 1, 1))
    add("run/ring5 conditions", op_run, "ring5", "lbm", 0, (0, 1, 1, 0, 1), temperature=300.0, random_seed=3)
    add("run/ring5 cell", op_run, "ring5", "lbm", 0, (0, 1, 1, 0, 1), latt=np.diag([3.5, 9.0, 9.0]))
    add("run/square32", op_run, "square32", "lbm", 0, (0, 1, 1, 0, 0, 1))
    return ops


def clean():
    for n in os.listdir("."):
        if not n.startswith("iso_"):
            os.remove(n)


def do(op):
    fn, a, k = op
    clean()
    return plain(fn(*a, **k))


def references(chk, ops):
    """every calculation alone, each in a process that has done nothing before"""
    names = list(ops)
    ref = {}
    for n, (st, r) in zip(names, isolated_many([(do, (ops[n],)) for n in names])):
        chk.expect(st == "ok", "a calculation alone failed", calculation=n, error=r)
        ref[n] = r
        chk.outcome((n, json.dumps(r)[:2000]))
    return ref


def families(ops):
    fams = {}
    for n in ops:
        fams.setdefault(n.split("/")[0], []).append(n)
    return fams


def warm():
    """compile what is compiled on first use, with inputs outside the catalogue"""
    op_library("hex", "generated")
    op_lce(2, (20.0, 20.0, 20.0), ["Si", "P"], 11.0)
    op_rates("hex", "lbm", 0, (0, 1, 1, 0, 1, 0, 1, 1))
    op_generate("hex", (1, 1, 1), dict(mobile_species=["Li"], local_env_cutoff=3.4))
    op_run("ring8", "lbm", 5, (0, 1, 1, 0, 1, 1, 1, 0))


def sequences(chk, ops, ref):
    names = list(ops)

    def tail(a):
        """in one process: a, then for every b a fork with b and a again"""
        out = []
        first = do(ops[a])
        for b in names:
            if chk.thorough or b.split("/")[0] == a.split("/")[0] or names.index(a) % 9 == names.index(b) % 9:
                out.append((b,) + isolated_many([(lambda: (do(ops[b]), do(ops[a])), ())], 1, True)[0])
        return first, out
    for a, (st, r) in zip(names, isolated_many([(tail, (a,)) for a in names])):
        chk.expect(st == "ok", "a calculation failed", calculation=a, error=r)
        d = differ(ref[a], r[0])
        chk.expect(d is None, "a calculation is not reproducible", calculation=a, where=d and d[0])
        for b, s2, r2 in r[1]:
            chk.step(2)
            chk.trace()
            chk.state((a, b))
            chk.expect(s2 == "ok", "a calculation failed after another one", before=a, calculation=b, error=r2)
            for n, got, before in ((b, r2[0], [a]), (a, r2[1], [a, b])):
                d = differ(ref[n], got)
                chk.expect(d is None, "a calculation gives another result after other calculations in the same process", calculation=n, before=before,
                           where=d and d[0], alone=d and str(d[1])[:300], after=d and str(d[2])[:300])


def cycles(chk, ops, ref):
    """every calculation of a family in one process, again and again, in every rotation: objects are freed and their addresses reused"""
    def go(seq):
        for i, n in enumerate(seq):
            d = differ(ref[n], do(ops[n]))
            if d:
                return i, d
        return None
    seqs = [(f, (ns[k:] + ns[:k])[::step] * 3) for f, ns in families(ops).items() for k in range(len(ns)) for step in (1, -1)]
    for (f, seq), (st, bad) in zip(seqs, isolated_many([(go, (s,)) for _, s in seqs])):
        chk.step(len(seq))
        chk.trace()
        chk.state((f, tuple(seq)))
        chk.expect(st == "ok", "a calculation failed after others", calculations=seq, error=bad)
        chk.expect(bad is None, "a calculation gives another result after others in the same process", calculations=seq[:bad[0] + 1] if bad else None, detail=bad and str(bad)[:500])


def two_ions(chk):
    """one library object used for two mobile species of the same crystal"""
    def alone_(mobile):
        w = fresh_world("codes")
        return rates_of(w, w.event_lib(), mobile)[1]()

    def rates_of(w, lib, mobile):
        k = KMC(structure=w.structure, model=Table(3), event_lib=lib, config=w.config(mobile_ion_specie=mobile), simulation_state=State(occupations=[0, 1, 1, 0]),
                hop_state_lookup=HopStateLookup.from_active_site_order(w.order, mobile), active_site_order=w.order)
        return k, lambda: [float(k.model.compute_probability(event=e, runtime_config=k.config.runtime_config, simulation_state=k.simulation_state)) for e in k.event_lib.events]
    w = fresh_world("codes")
    lib = w.event_lib()
    a = rates_of(w, lib, "Na")
    b = rates_of(w, lib, "K")
    if differ(alone_("Na"), a[1]()) is not None:
        chk.fail("a simulation of one mobile species is changed by building another, for a second species, from the same event library object", key="shared-library-two-ions")


def main(chk):
    T = chk.thorough
    ops = catalogue(T)
    chk.bounds = dict(schedules="two simulations of five sites (construction, two runs, observers, checkpoint), every schedule with one preemption at every switch point and two preemptions at every %d-th" % (4 if T else 13),
                      merges="every merge of %d and %d operations" % ((7, 5) if T else (5, 4)), sequences="every pair A, B, A of the catalogue" if T else "every pair A, B, A within a family of calculations, a ninth of the pairs across families",
                      catalogue="%d calculations of %d families" % (len(ops), len(families(ops))), cycles="every rotation of every family, both directions, three times round")
    chk.assumptions = ["a model object that keeps the state of one simulation (an external site-energy model, a user model with its own occupation) is not shared between simulations",
                       "switch points inside the simulator are rate evaluations of a user model and property firings"]
    ref = {}
    with chk.scenario("alone") as on:
        if on or chk.only in ("sequence", "cycles"):
            ref = references(chk, ops)
            here = os.getcwd()
            os.mkdir("warm")
            os.chdir("warm")
            with contextlib.redirect_stdout(io.StringIO()):
                warm()
            os.chdir(here)
            shutil.rmtree("warm")
    for name, fn in (("sequence", sequences), ("cycles", cycles)):
        with chk.scenario(name) as on:
            if on and ref:
                fn(chk, ops, ref)
    allp = dict(pairs())
    for name, actors in allp.items():
        with chk.scenario("schedules/" + name) as on:
            if on:
                shares = SHARES if T else ([(), SHARES[-1]] if name == "occupation" else [SHARES[-1]])
                for sh in shares:
                    explore(chk, name, actors, sh, 1, 1)
                    if T or name == "occupation":
                        explore(chk, name, actors, sh, 2, 4 if T else 13)
    for name, actors in model_pairs():
        with chk.scenario("schedules/" + name) as on:
            if on:
                stateful = name.split("/")[0] in ("external", "stateful")
                for sh in ([(), ("order", "lib", "config") if stateful else SHARES[-1]]):
                    explore(chk, name, actors, sh, 2 if T else 1, 1)
    mp = dict(model_pairs())
    for name, actors in [(n, allp[n]) for n in ("same", "occupation", "temperature", "world")] + [(n, mp[n]) for n in mp]:
        with chk.scenario("merges/" + name) as on:
            if on:
                stateful = name.split("/")[0] in ("external", "stateful")
                for sh in SHARES[:-1] + [("order", "lib", "config") if stateful else SHARES[-1]]:
                    if stateful and "model" in sh:
                        continue
                    merge_all(chk, name, actors, sh)
    with chk.scenario("two ions, one library") as on:
        if on:
            two_ions(chk)
