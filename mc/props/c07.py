"""C07: a run executes exactly the configured passes, reproducibly, and reports what it did.

Real run() executions under a controlled generator: all draw words over a grid for the first hops x passes x
sampling settings x attachments x consecutive runs, compared with a reference trajectory; real seeds for
reproducibility; every written file is parsed and compared with the returned tracker.
"""
import gzip
import itertools
import json
import os

import numpy as np
from pymatgen.io.cif import CifWriter

from kmcpy.models import LocalBarrierModel
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from mc.drv import IonRef, Table, World, patched_rng, ref_run, tape

FIELDS = ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")


def draws(prefix, n):
    return (list(prefix) + [0.11, 0.5, 0.73, 0.25, 0.41, 0.6, 0.9, 0.8] * n)[: 2 * n]


def final_check(chk, w, kmc, tr, traj, start, steps, t0=0.0, **kw):
    st = kmc.simulation_state
    want = traj[-1][2] if traj else start
    chk.expect(tuple(int(x) for x in st.occupations) == want, "final occupation of the run", got=st.occupations, want=want, **kw)
    chk.close(float(st.time), traj[-1][3] if traj else t0, "final clock", rel=1e-12, **kw)
    chk.expect(int(st.step) == steps, "number of hops executed", got=st.step, want=steps, **kw)
    chk.expect(int(np.sum(tr.hop_counter)) == len(traj), "the tracker counts exactly the production hops", got=tr.hop_counter, want=len(traj), **kw)


def read_csv_rows(path):
    with gzip.open(path, "rt") as f:
        lines = f.read().splitlines()
    head = lines[0].split(",")
    rows = [[float(x) if x else float("nan") for x in l.split(",")] for l in lines[1:]]
    return {h: [r[i] for r in rows] for i, h in enumerate(head)}


def files_check(chk, tr, kmc, label, npass, before=()):
    p = "%s_%d" % (label, npass - 1) if label else str(npass - 1)
    chk.close(np.loadtxt("displacement_%s.csv.gz" % p, delimiter=",", ndmin=2).reshape(-1, 3), tr.displacement, "displacement file", rel=1e-15, abs_=1e-15)
    chk.expect(np.loadtxt("hop_counter_%s.csv.gz" % p, ndmin=1).tolist() == [float(x) for x in tr.hop_counter], "hop counter file")
    chk.expect(np.loadtxt("current_occ_%s.csv.gz" % p, ndmin=1).tolist() == [float(x) for x in kmc.simulation_state.occupations], "occupation file")
    s = "_" + label if label else ""
    got = read_csv_rows("results%s.csv.gz" % s)
    chk.expect(sorted(got) == sorted(FIELDS), "columns of the results file", got=list(got))
    for f in FIELDS:
        chk.close(got[f], [float(x) for x in tr.results[f]], "results file column " + f, rel=1e-14)
    units = json.load(gzip.open("results_units%s.json.gz" % s, "rt"))
    chk.expect(units == dict(tr.result_units), "units file", got=units)
    recs = [r for v in tr.get_property_records().values() for r in v]
    pf = "properties%s.json.gz" % s
    if recs:
        chk.equal(json.load(gzip.open(pf, "rt")), json.loads(json.dumps(recs)), "property records file")
    else:
        chk.expect(not os.path.exists(pf), "a properties file was written without records")
    chk.step()


def clean():
    for f in os.listdir("."):
        if f.endswith(".gz"):
            os.remove(f)


def capture(kmc, label):
    log = []

    def cb(state, step, time):
        log.append((step, time, tuple(int(x) for x in state.occupations)))
        return step
    kmc.attach(cb, name="cap", interval=1, store=False)
    tr = kmc.run(label=label)
    return log, tr


def snapshot():
    out = {}
    for f in sorted(os.listdir(".")):
        if f.endswith(".gz"):
            out[f] = gzip.open(f, "rb").read()
    return out


def main(chk):
    T = chk.thorough
    chk.bounds = dict(worlds=["chain3", "ring5", "frame", "block", "square32", "hex", "skew", "sub"], passes="equilibration 0-3 x production 1-3",
                      draw_words="all words of length %d over a 3-letter grid" % (4 if T else 3), seeds=[0, 1, 7, 2 ** 31])
    tab = Table(7)
    # ---- trajectory = the drawn sequence -------------------------------------------------------
    g = (0.07, 0.48, 0.95)
    for wn in ("chain3", "ring5", "frame", "block", "square32", "hex", "skew", "sub"):
        with chk.scenario("tapes/" + wn) as on:
            if on:
                w = World.get(wn)
                L = w.pass_length()
                occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                occs = occs[:: max(1, len(occs) // (12 if T else 4))]
                for occ, neq, npass in itertools.product(occs, (0, 1, 3), (1, 2, 3)):
                    n = (neq + npass) * L
                    if n > 150:
                        continue
                    words = list(itertools.product(g, repeat=4 if T else 3)) if (neq, npass) in ((0, 1), (1, 2)) else [(0.3, 0.6, 0.9)]
                    for wd in words:
                        us = draws([x for u in wd for x in (u, 0.37)], n)
                        kmc = w.kmc(Table(7), occ, equilibration_passes=neq, kmc_passes=npass)
                        with patched_rng(tape(us)):
                            tr = kmc.run(label="t")
                        start, traj = ref_run(w, tab, occ, us, neq * L, npass * L)
                        chk.note(world=wn, occ=occ, neq=neq, npass=npass, word=wd)
                        final_check(chk, w, kmc, tr, traj, start, n)
                        chk.step(n)
                        chk.trace()
                        chk.state((wn, occ, neq, npass, wd))
                        chk.outcome((wn, traj[-1][2]))
                chk.sample(dict(world=wn, occ=occs[0], last=traj[-1][2]))
    with chk.scenario("long_run") as on:
        if on:
            for wn, occ, neq, npass in (("chain3", (0, 1, 1), 2, 1200), ("ring5", (0, 1, 0, 0, 1), 300, 260)):
                w = World.get(wn)
                L = w.pass_length()
                us = np.random.Generator(np.random.PCG64(11)).random(2 * (neq + npass) * L).tolist()
                clean()
                kmc = w.kmc(Table(7), occ, equilibration_passes=neq, kmc_passes=npass, property_sampling_interval=L)
                kmc.attach(lambda s, k, t: [k, list(s.occupations)], name="p", interval=1)
                with patched_rng(np.random.Generator(np.random.PCG64(11))):
                    tr = kmc.run(label="long")
                start, traj = ref_run(w, tab, occ, us, neq * L, npass * L)
                final_check(chk, w, kmc, tr, traj, start, (neq + npass) * L)
                files_check(chk, tr, kmc, "long", npass)
                ends = [traj[(k + 1) * L - 1] for k in range(npass)]
                chk.close([float(x) for x in tr.results["time"]], [x[3] for x in ends], "result rows of a long run", rel=1e-9)
                recs = [r["value"] for r in tr.get_property_records()["p"]]
                chk.equal(recs, [[neq * L * 0 + k + 1, list(x[2])] for k, x in enumerate(traj)], "records of a long run")
                chk.step(len(traj))
                chk.trace()
                chk.state((wn, neq, npass))
                clean()
    # ---- files -----------------------------------------------------------------------------------
    with chk.scenario("files") as on:
        if on:
            for wn in ("ring5", "hex", "skew", "frame"):
                w = World.get(wn)
                L = w.pass_length()
                occ = next(o for o in w.occupations() if sum(1 for p in w.pairs if w.direction(o, p)) >= 2)
                for label, name, npass, iv, cbs in itertools.product((None, "run", "my run.2"), ("w", "N"), (1, 3), (None, 1, 2), (0, 1, 2)):
                    clean()
                    kmc = w.kmc(Table(7), occ, equilibration_passes=1, kmc_passes=npass, property_sampling_interval=iv, name=name)
                    if cbs >= 1:
                        kmc.attach(lambda s, k, t: [k, float(t), "x"], name="p", interval=2)
                    if cbs >= 2:
                        odd = [[], {}, "", 0, 0.0, False, None, True, [0.1, [None, {}]], {"a": [], "b": {"c": 1e-300}}, -3, "NaN", 1 / 3]
                        kmc.attach(lambda s, k, t: odd[k % len(odd)], name="odd", interval=1)
                        kmc.attach(lambda s, k, t: odd, name="odds", interval=5)
                        kmc.attach(lambda s, k, t: {"occ": list(s.occupations), "n": None}, name="q", interval=3, max_records=1)
                        kmc.attach(lambda s, k, t: k, name="hidden", interval=1, store=False)
                    with patched_rng(tape(draws((), (1 + npass) * L))):
                        tr = kmc.run(label=label) if label is not None else kmc.run()
                    chk.note(world=wn, label=label, name=name, npass=npass, interval=iv, callbacks=cbs)
                    files_check(chk, tr, kmc, label if label is not None else name, npass)
                    chk.trace()
                    chk.state((wn, label, name, npass, iv, cbs))
                    clean()
    # files of a run replace those of an earlier run with the same label
    with chk.scenario("files_overwrite") as on:
        if on:
            w = World.get("ring5")
            L = w.pass_length()
            for n1, n2 in itertools.product((1, 2), repeat=2):
                clean()
                for k, n in enumerate((n1, n2)):
                    kmc = w.kmc(Table(7), (0, 1, 0, 1, 1), kmc_passes=n, property_sampling_interval=1)
                    kmc.attach(lambda s, q, t: q * (k + 1), name="p", interval=1)
                    with patched_rng(tape(draws((0.2 + 0.5 * k, 0.5), n * L))):
                        tr = kmc.run(label="same")
                    files_check(chk, tr, kmc, "same", n)
                    chk.state((n1, n2, k))
                clean()
    # ---- reproducibility with real seeds; observers do not matter ---------------------------------
    with chk.scenario("seeds") as on:
        if on:
            for wn in ("ring5", "square32", "block"):
                w = World.get(wn)
                occ = next(o for o in w.occupations() if sum(1 for p in w.pairs if w.direction(o, p)) >= 3)
                logs = {}
                for seed in (0, 1, 7, 2 ** 31):
                    ref = None
                    for rep in range(3):
                        clean()
                        if rep == 2:
                            np.random.seed(99)  # global generators must not matter
                            np.random.random(5)
                        kmc = w.kmc(Table(7), occ, random_seed=seed, equilibration_passes=2, kmc_passes=3)
                        log, tr = capture(kmc, "s")
                        snap = snapshot()
                        if ref is None:
                            ref = (log, snap)
                        chk.expect(log == ref[0], "same seed, different trajectory", seed=seed, rep=rep, world=wn)
                        chk.expect(snap == ref[1], "same seed, different files", seed=seed, files=[k for k in ref[1] if snap.get(k) != ref[1][k]])
                        chk.step(len(log))
                        chk.trace()
                        chk.state((wn, seed, rep))
                    logs[seed] = tuple(ref[0])
                chk.expect(len(set(logs.values())) == len(logs), "different seeds gave the same trajectory", seeds=list(logs), world=wn)
                clean()
            # no seed: still runs, and the two runs are independent
            kmc = w.kmc(Table(7), occ, random_seed=None, kmc_passes=3)
            l1, _ = capture(kmc, "s")
            l2, _ = capture(w.kmc(Table(7), occ, random_seed=None, kmc_passes=3), "s")
            chk.expect(l1 != l2, "runs without a seed repeat the same draws")
    with chk.scenario("observers") as on:
        if on:
            for wn in ("ring5", "hex"):
                w = World.get(wn)
                occ = next(o for o in w.occupations() if sum(1 for p in w.pairs if w.direction(o, p)) >= 3)
                base = None
                for iv, ti, na, flag, temp_cb in itertools.product((None, 1, 3), (None, 1e-2), (0, 1, 2), (True, False), (False, True)):
                    kmc = w.kmc(Table(7), occ, random_seed=5, equilibration_passes=1, kmc_passes=2, property_sampling_interval=iv,
                                property_sampling_time_interval=ti, builtin_property_enabled={} if flag else {"msd": False, "conductivity": False})
                    for k in range(na):
                        kmc.attach(lambda s, q, t: sum(s.occupations), name="p%d" % k, interval=k + 1, max_records=2)
                    if temp_cb:
                        def noisy(s, q, t):
                            np.random.random(3)
                            np.random.default_rng(1).random()
                            raise ValueError("observer failure")
                        kmc.attach(noisy, name="noisy", interval=2, on_error=lambda *a: True)
                    tr = kmc.run(label="o")
                    key = (tuple(kmc.simulation_state.occupations), kmc.simulation_state.time, kmc.simulation_state.step,
                           tr.displacement.tolist(), tr.hop_counter.tolist())
                    base = base or key
                    chk.note(world=wn, interval=iv, time=ti, attached=na, flags=flag)
                    chk.expect(key == base, "sampling settings or observers changed the trajectory", got=key, want=base)
                    chk.step()
                    chk.trace()
                    chk.state((wn, iv, ti, na, flag, temp_cb))
    # ---- consecutive runs of one object ------------------------------------------------------------
    with chk.scenario("consecutive") as on:
        if on:
            for wn in ("ring5", "block"):
                w = World.get(wn)
                L = w.pass_length()
                occs = [o for o in w.occupations() if sum(1 for p in w.pairs if w.direction(o, p)) >= 2]
                for occ, neq, npass, runs in itertools.product(occs[:: max(1, len(occs) // 4)], (0, 1), (1, 2), (2, 3)):
                    kmc = w.kmc(Table(7), occ, equilibration_passes=neq, kmc_passes=npass, property_sampling_interval=1)
                    cur, t, steps = tuple(occ), 0.0, 0
                    for r in range(runs):
                        us = draws((0.1 + 0.3 * r, 0.4), (neq + npass) * L)
                        with patched_rng(tape(us)) as pr:
                            tr = kmc.run(label="k%d" % r)
                        start, traj = ref_run(w, tab, cur, us, neq * L, npass * L, t)
                        steps += (neq + npass) * L
                        chk.note(world=wn, occ=occ, neq=neq, npass=npass, run=r)
                        final_check(chk, w, kmc, tr, traj, start, steps)
                        chk.close(tr.results["time"], [x[3] for x in traj], "rows of a later run", rel=1e-12)
                        cur, t = traj[-1][2], traj[-1][3]
                        chk.step(len(traj))
                    chk.trace()
                    chk.state((wn, occ, neq, npass, runs))
    # ---- built from files == built in memory --------------------------------------------------------
    for wn in ("ring5", "frame", "block", "square32", "hex", "sub"):
        with chk.scenario("from_config/" + wn) as on:
            if on:
                w = World.get(wn)
                L = w.pass_length()
                CifWriter(w.template).write_file("t.cif")
                w.event_lib().to("events.json")
                m = LocalBarrierModel(default_barrier=300.0)
                m.add_state_count_rule(state=0, sites="local_env", min_count=1, barrier=210.0)
                m.to("model.json")
                occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                for occ in occs[:: max(1, len(occs) // (16 if T else 5))]:
                    json.dump({"occupation": list(occ)}, open("init.json", "w"))
                    common = dict(equilibration_passes=1, kmc_passes=2, random_seed=3, structure_file="t.cif", event_file="events.json",
                                  model_file="model.json", model_type="local_barrier")
                    k0 = w.kmc(LocalBarrierModel.from_file("model.json"), occ, **common)
                    k1 = KMC.from_config(w.config(initial_occupations=list(occ), **common))
                    k2 = KMC.from_config(w.config(initial_state_file="init.json", **common))
                    logs = [capture(k, "f")[0] for k in (k0, k1, k2)]
                    chk.note(world=wn, occ=occ)
                    chk.expect(logs[0] == logs[1] == logs[2], "runs built from files and in memory differ", lens=[len(x) for x in logs])
                    chk.expect(len(logs[0]) == 2 * L, "number of production events", got=len(logs[0]), want=2 * L)
                    chk.step(3 * len(logs[0]))
                    chk.trace(3)
                    chk.state((wn, occ))
    # ---- the real NASICON inputs: run() is the propose/update loop with that generator -----------------
    with chk.scenario("nasicon") as on:
        if on:
            base = "/repo/tests/files/"
            cif = base + "EntryWithCollCode15546_Na4Zr2Si3O12_573K.cif"
            if os.path.exists(cif):
                for neq, npass in ((0, 1), (1, 2)):
                    cfg = dict(structure_file=cif, supercell_shape=(2, 1, 1), mobile_ion_specie="Na", mobile_ion_charge=1.0,
                               elementary_hop_distance=3.47782, site_mapping={"Na": ["Na", "X"], "Zr": "Zr", "Si": ["Si", "P"], "O": "O"},
                               convert_to_primitive_cell=True, model_file=base + "input/model.json", event_file=base + "input/events.json",
                               initial_state_file=base + "input/initial_state.json", temperature=298.0, attempt_frequency=5e12,
                               equilibration_passes=neq, kmc_passes=npass, random_seed=12345, name="n", property_sampling_interval=1)
                    k1 = KMC.from_config(Configuration(**cfg))
                    log, tr = capture(k1, "n")
                    k2 = KMC.from_config(Configuration(**cfg))
                    n_na = sum(1 for s in k2.structure.species if s.symbol == "Na")
                    log2, _ = capture(k2, "n")
                    chk.expect(log == log2, "same seed, different trajectory (NASICON)")
                    chk.expect(len(log) == npass * n_na, "production events", got=len(log), want=npass * n_na)
                    chk.expect(int(k1.simulation_state.step) == (neq + npass) * n_na, "all events")
                    chk.step(len(log) * 2)
                    chk.trace(2)
                    chk.state(("nasicon", neq, npass))
