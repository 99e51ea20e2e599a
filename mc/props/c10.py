"""C10: checkpoints restore the exact state; resuming equals not stopping.

roundtrip - every occupation vector up to a length x clock and step alphabets x formats x load routes, bit for bit;
torn      - every truncation point of a written checkpoint: rejected (or, for the full file, equal);
tree      - every hop sequence up to a depth, interrupted at every node: the simulator rebuilt from the checkpoint has
            the same rates and makes the same move as the live one for every further hop;
runs      - whole runs under a controlled random tape, checkpointed at every step from inside the run and resumed at
            every pass boundary through the public entry points, compared with the uninterrupted run;
layouts   - every occupation of small templates in active-site and full-structure layout through every route.
"""
import itertools
import json
import os

import numpy as np
from pymatgen.io.cif import CifWriter

from kmcpy.event import EventLib
from kmcpy.models import CompositeLCEModel, LocalBarrierModel
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from kmcpy.structure.active_site_order import ActiveSiteOrder
from mc import models_ref
from mc.drv import Table, World, check_rates, patched_rng, ref_run, set_tape, tape

TIMES = (0.0, 5e-324, 1e-300, 2.5e-13, 0.1, 1 / 3, 1.0, 0.1 + 0.2, 123456789.12345679, 1e22, 4503599627370497.5, 1.7976931348623157e308)
STEPS = (0, 1, 7, 999999, 2 ** 31, 2 ** 53 + 1, 2 ** 62)


def same(chk, s, occ, t, k, what, **kw):
    chk.expect([int(x) for x in s.occupations] == list(occ) and len(s.occupations) == len(occ), what + ": occupations", got=s.occupations, want=occ, **kw)
    chk.expect(float(s.time).hex() == float(t).hex(), what + ": clock", got=s.time, want=t, **kw)
    chk.expect(int(s.step) == k and float(s.step) == float(k), what + ": step", got=s.step, want=k, **kw)


def save_load(s, fmt, i=0):
    if fmt == "dict":
        return State.from_dict(json.loads(json.dumps(s.as_dict())))
    if fmt == "copy":
        return s.copy()
    p = "ck%d.%s" % (i, fmt.split("_")[0])
    s.save_checkpoint(p)
    if fmt.endswith("_args"):  # the stored clock wins over the defaults offered for files without one
        return State.from_file(p, time=9.25, step=5)
    return State.from_file(p) if fmt.endswith("_file") else State.load_checkpoint(p)


FMT = ("json", "h5", "json_file", "h5_file", "json_args", "h5_args", "dict", "copy")


def roundtrip(chk):
    occs = [list(o) for n in (1, 2, 3, 4) for o in itertools.product((0, 1, 2), repeat=n)] + [list(range(40)), [1] * 300, [(7 * i + i // 3) % 3 for i in range(1500)], [0, 127, 128, 255, 256, 1000, 70000]]
    cases = [(o, t, k) for o in occs for t, k in ((0.0, 0), (1 / 3, 7))] + [([0, 2, 1], t, k) for t in TIMES for k in STEPS]
    for o, t, k in cases:
        for fmt in FMT:
            chk.note(occ=o, time=t, step=k, fmt=fmt)
            for conv in (list, np.array, tuple):
                s = State(occupations=conv(o), time=t, step=k)
                if conv is not list and fmt in ("dict",):
                    continue
                r = save_load(s, fmt)
                same(chk, r, o, t, k, "reloaded state", fmt=fmt)
                if conv is list:
                    # independence in both directions
                    s.occupations[0] = 9
                    s.time += 1.0
                    s.step += 1
                    same(chk, r, o, t, k, "reloaded state after changing the original", fmt=fmt)
                    r.occupations[-1] = 8
                    chk.expect(s.occupations == ([9] + o[1:]), "changing the reloaded state changed the original", fmt=fmt)
                chk.step()
            chk.state((tuple(o), t, k, fmt))
    # a state does not alias the list it was built from
    src = [0, 1, 2]
    s = State(occupations=src)
    src[0] = 5
    chk.expect(list(s.occupations) == [0, 1, 2], "a state aliases the caller's list")
    s2 = State.from_occupations(src)
    src[1] = 7
    chk.expect(list(s2.occupations) == [5, 1, 2], "a state aliases the caller's list")


def overwrite(chk):
    """sequences of saves to the same and to other files: each file holds the last state saved to it"""
    S = [State([0, 1], 0.5, 1), State([1] * 50, 1e9, 12345), State([2], 1 / 3, 0)]
    for fmt in ("json", "h5"):
        for seq in itertools.product([(i, f) for i in range(3) for f in ("a", "b")], repeat=3):
            last = {}
            for f in ("a", "b"):
                if os.path.exists("ow_%s.%s" % (f, fmt)):
                    os.remove("ow_%s.%s" % (f, fmt))
            for i, f in seq:
                S[i].save_checkpoint("ow_%s.%s" % (f, fmt))
                last[f] = i
            for f, i in last.items():
                same(chk, State.load_checkpoint("ow_%s.%s" % (f, fmt)), S[i].occupations, S[i].time, S[i].step, "last saved state", seq=seq, fmt=fmt)
            chk.state((fmt, seq))
            chk.step(3)


def torn(chk):
    s = State([0, 1, 2, 1, 0, 1, 1, 0, 2, 1], 0.1 + 0.2, 1234567)
    for fmt in ("json", "h5"):
        p = "torn." + fmt
        s.save_checkpoint(p)
        raw = open(p, "rb").read()
        for n in range(len(raw)):
            with open(p, "wb") as f:
                f.write(raw[:n])
            try:
                r = State.from_file(p) if n % 2 else State.load_checkpoint(p)
            except Exception:
                r = None
            if r is not None:
                same(chk, r, s.occupations, s.time, s.step, "truncated checkpoint", bytes=n, of=len(raw))
            chk.step()
            chk.state((fmt, n))
            chk.checks += 1
        if fmt == "json":  # a torn overwrite: prefix of the new content over the old file, old tail kept
            old = State([1] * 30, 99.0, 9)
            old.save_checkpoint("old.json")
            o = open("old.json", "rb").read()
            for n in range(1, min(len(raw), len(o))):
                with open(p, "wb") as f:
                    f.write(raw[:n] + o[n:])
                try:
                    State.from_file(p)
                except Exception:
                    pass
                chk.step()


def bad(chk):
    P = [("x.json", []), ("x.json", [0, 1]), ("x.json", {}), ("x.json", {"time": 1.0, "step": 2}), ("x.json", "abc"), ("x.json", 3)]
    for n, v in P:
        with open(n, "w") as f:
            json.dump(v, f)
        chk.raises(lambda: State.from_file(n), "malformed state file accepted", content=v)
        chk.raises(lambda: State.load_checkpoint(n), "malformed state file accepted", content=v)
        chk.step()
    for n in ("x.txt", "x.yaml", "x", "x.pkl", "x.json.bak", "x.h5x"):
        s = State([0, 1], 1.0, 2)
        chk.raises(lambda: s.save_checkpoint(n), "checkpoint with unsupported suffix written", exc=ValueError, name=n)
        chk.expect(not os.path.exists(n), "a refused save left a file", name=n)
        with open(n, "w") as f:
            json.dump(s.as_dict(), f)
        chk.raises(lambda: State.load_checkpoint(n), "checkpoint with unsupported suffix loaded", exc=ValueError, name=n)
        chk.raises(lambda: State.from_file(n), "state file with unsupported suffix loaded", exc=ValueError, name=n)
        os.remove(n)
        chk.step()
        chk.state(n)
    chk.raises(lambda: State.from_file("missing.json"), "missing file")
    with open("x.json", "w") as f:
        json.dump({"occupation": [0, 1]}, f)
    chk.raises(lambda: State.from_file("x.json"), "initial occupation without any site information", exc=ValueError)
    chk.raises(lambda: State.from_file("x.json", select_sites=[0]), "select_sites without supercell_shape", exc=ValueError)
    for shape in ((3, 1, 1), (1, 1), (2, 2, 1)):
        chk.raises(lambda: State.from_file("x.json", select_sites=[0], supercell_shape=shape), "incompatible supercell shape accepted", exc=ValueError, shape=shape)


MODELS = ("table", "stateful", "lbm", "composite")
_C = {}


def model(w, kind):
    if kind == "table":
        return Table(3)
    if kind == "stateful":
        return models_ref.Stateful(5)
    if kind == "lbm":
        return models_ref.lbm(w)
    n = len(w.envs[0])
    if (w.name, n) not in _C:
        _C[(w.name, n)] = (models_ref.lce(w, 0, n_env=n), models_ref.lce(w, 1, n_env=n))
    kra, site = _C[(w.name, n)]
    return CompositeLCEModel(site_model=site, kra_model=kra)


def rates(kmc, w, kind, occ):
    st = State(occupations=list(occ))
    m = model(w, kind)
    if hasattr(m, "initialize_state"):
        try:
            m.initialize_state(simulation_state=st, event_lib=kmc.event_lib, structure=kmc.structure, config=kmc.config)
        except TypeError:
            pass
    return [float(m.compute_probability(event=e, runtime_config=kmc.config.runtime_config, simulation_state=st)) for e in kmc.event_lib.events]


def tree(chk, w, kind, occ, depth, fmts):
    lib = w.event_lib("file")

    def hops(o):
        return [i for i, p in enumerate(w.pairs) if w.direction(o, p)]
    dts = (0.37, 1e-7, 3.0, 0.1)
    seqs = [()]
    done = 0
    while seqs:
        seq = seqs.pop()
        # live simulator driven along the whole prefix without interruption
        live = w.kmc(model(w, kind), occ, lib=lib)
        for d, i in enumerate(seq):
            live.update(live.event_lib.events[i], dts[d])
        o = tuple(int(x) for x in live.simulation_state.occupations)
        r = rates(live, w, kind, o)
        fmt = fmts[done % len(fmts)]
        done += 1
        chk.note(world=w.name, kind=kind, occ=occ, seq=seq, fmt=fmt)
        back = save_load(live.simulation_state, fmt)
        same(chk, back, o, live.simulation_state.time, live.simulation_state.step, "checkpoint", seq=seq)
        chk.expect(live.simulation_state.step == len(seq), "step counter", seq=seq)
        res = w.kmc(model(w, kind), None, lib=lib, state=back)
        check_rates(chk, res, r, "rates after resuming", seq=seq, fmt=fmt)
        check_rates(chk, live, r, "rates of the uninterrupted simulation", seq=seq)
        chk.state((kind, occ, seq))
        chk.trace()
        nxt = hops(o)
        for i in nxt[:3]:
            a = State.from_dict(back.as_dict())
            rr = w.kmc(model(w, kind), None, lib=lib, state=a)
            rr.update(rr.event_lib.events[i], 0.25)
            want = w.hop(o, w.pairs[i])
            same(chk, rr.simulation_state, want, live.simulation_state.time + 0.25, len(seq) + 1, "first hop after resuming", seq=seq, event=i)
            chk.step()
        same(chk, back, o, live.simulation_state.time, len(seq), "a resumed simulation changed another one", seq=seq)
        if len(seq) < depth:
            seqs += [seq + (i,) for i in nxt]


def runs(chk, wn, kind, neq, npass, fmt, step_us, occs):
    w = World.get(wn)
    L = w.pass_length()
    CifWriter(w.template).write_file("rt_%s.cif" % wn)
    w.event_lib().to("rt_%s.json" % wn)
    LocalBarrierModel(default_barrier=300.0).to("rt_m.json")
    for occ in occs:
        n = (neq + npass) * L
        us = (list(step_us) + [0.11, 0.5, 0.73, 0.25, 0.41, 0.6, 0.9, 0.8] * n)[: 2 * n]

        def make(state, eq, k):
            if kind == "config":
                p = "rt_init.%s" % fmt
                state.save_checkpoint(p)
                cfg = Configuration(structure_file="rt_%s.cif" % wn, model_file="rt_m.json", model_type="local_barrier", event_file="rt_%s.json" % wn,
                                    site_mapping=w.mapping, mobile_ion_specie=w.mobile, supercell_shape=w.shape, initial_state_file=p,
                                    temperature=500.0, attempt_frequency=1e12, equilibration_passes=eq, kmc_passes=k, elementary_hop_distance=3.0)
                return KMC.from_config(cfg)
            return w.kmc(model(w, kind), None, state=save_load(state, fmt), equilibration_passes=eq, kmc_passes=k)

        def go(kmc, us, tag):
            log = []

            def cb(state, step, time):
                log.append((tuple(int(x) for x in state.occupations), float(state.time), int(state.step)))
                if tag is not None:
                    state.save_checkpoint("%s_%d.%s" % (tag, step, fmt))
                return 0
            kmc.attach(cb, name="cb", interval=1)
            with patched_rng(tape(us)):
                tr = kmc.run(label="c10")
            return log, tr
        full = make(State(occupations=list(occ)), neq, npass)
        log, tr = go(full, us, "rt_ck")
        chk.expect(len(log) == npass * L, "number of production steps", got=len(log))
        for s in range(1, npass * L + 1):
            same(chk, State.load_checkpoint("rt_ck_%d.%s" % (s, fmt)), log[s - 1][0], log[s - 1][1], log[s - 1][2], "checkpoint written inside a run", step=s)
            if s % L == 0 and s < npass * L:
                rest = make(State.load_checkpoint("rt_ck_%d.%s" % (s, fmt)), 0, npass - s // L)
                log2, tr2 = go(rest, us[2 * (neq * L + s):], None)
                chk.note(world=wn, kind=kind, occ=occ, resumed_at=s, fmt=fmt)
                chk.expect([x[0] for x in log2] == [x[0] for x in log[s:]], "resumed trajectory differs", resumed_at=s, got=log2, want=log[s:])
                chk.expect([x[2] for x in log2] == [x[2] for x in log[s:]], "resumed step counter differs", resumed_at=s)
                chk.close([x[1] for x in log2], [x[1] for x in log[s:]], "resumed clock differs", rel=1e-12, resumed_at=s)
                chk.trace()
                chk.step(npass * L - s)
                chk.state((wn, kind, occ, s, fmt, neq))
        chk.step(n)


def layouts(chk):
    from mc.props.c09 import MAP, template
    cat = [(("Na", "O"), (2, 1, 1)), (("O", "Na", "Si"), (1, 2, 1)), (("O", "Na", "O", "Na"), (2, 1, 1)), (("Na", "Na"), (1, 1, 2)), (("Si", "O", "Na"), (2, 2, 1)), (("O", "Na", "K"), (3, 1, 1))]
    for sp, shape in cat:
        o = ActiveSiteOrder.from_structure_and_mapping(template(sp), MAP, shape)
        a2o = [int(x) for x in o.active_to_original]
        N = o.original_site_count
        alpha = [range(len(o.allowed_species_by_primitive_site[p])) for p in o.active_to_primitive]
        allocc = list(itertools.product(*alpha))
        for occ in allocc[:: max(1, len(allocc) // 250)]:
            for fixed in (0, 1):
                full = [fixed] * N
                for a, x in zip(a2o, occ):
                    full[a] = x
                got = []
                for fieldname in ("occupation", "occupations"):
                    for vals in (list(occ), full):
                        with open("lay.json", "w") as f:
                            json.dump({fieldname: vals}, f)
                        got.append(State.from_file("lay.json", active_site_order=o, supercell_shape=shape))
                        got.append(State.from_file("lay.json", active_site_order=o))
                with open("lay.json", "w") as f:
                    json.dump({"occupation": full}, f)
                got.append(State.from_file("lay.json", supercell_shape=shape, select_sites=list(o.primitive_active_indices)))
                got.append(State.from_file("lay.json", supercell_shape=shape, select_sites=list(o.primitive_active_indices), active_site_order=o))
                State(full, 0.0, 0).save_checkpoint("lay.h5")
                got.append(State.from_file("lay.h5", active_site_order=o))
                for j, s in enumerate(got):
                    same(chk, s, occ, 0.0, 0, "initial state layout", route=j, species=sp, shape=shape)
                for j in range(2):
                    with open("lay.json", "w") as f:
                        json.dump({"occupation" if j else "occupations": list(occ)}, f)
                    s = State.from_file("lay.json", active_site_order=o, time=2.5, step=4)
                    same(chk, s, occ, 2.5, 4, "initial state with given clock", species=sp)
                with open("lay.json", "w") as f:
                    json.dump({"occupations": full, "time": 0.1, "step": 11}, f)
                same(chk, State.from_file("lay.json", active_site_order=o), occ, 0.1, 11, "full-layout checkpoint", species=sp)
                chk.step(len(got))
                chk.state((sp, shape, occ, fixed))


def main(chk):
    T = chk.thorough
    chk.bounds = dict(roundtrip="occupations of length <= 4 over 3 states (plus 40 and 300 sites) x 12 clocks x 7 steps x 6 routes",
                      torn="every byte of a JSON and an HDF5 checkpoint", tree="hop sequences to depth %d (2 on the 6-site world)" % (4 if T else 3),
                      runs="every step checkpointed, every pass boundary resumed", layouts="all occupations (<= 250 per template) of 6 templates")
    chk.assumptions = ["h5py is not installed here: HDF5 files go through a stand-in module with h5py's interface (mc/standin/h5py.py)"]
    for nm, fn in (("roundtrip", roundtrip), ("overwrite", overwrite), ("torn", torn), ("bad", bad), ("layouts", layouts)):
        with chk.scenario(nm) as on:
            if on:
                fn(chk)
    for wn in ("ring5", "codes", "frame", "block", "square32", "skew"):
        w = World.get(wn)
        for kind in MODELS:
            if kind == "composite" and len(set(map(len, w.envs))) != 1:
                continue  # a cluster expansion needs one environment size
            with chk.scenario("tree:%s:%s" % (wn, kind)) as on:
                if on:
                    occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                    occs = occs[:: max(1, len(occs) // (16 if T else 6))]
                    for occ in occs:
                        tree(chk, w, kind, occ, (4 if T else 3) if w.n < 6 else 2, ("json", "h5", "json_file", "h5_file", "dict"))
    for wn, kind in (("ring5", "table"), ("ring5", "config"), ("frame", "lbm"), ("frame", "config"), ("ring5", "composite"), ("square", "config"), ("block", "stateful"), ("hex", "table")):
        for fmt in ("json", "h5"):
            with chk.scenario("runs:%s:%s:%s" % (wn, kind, fmt)) as on:
                if on:
                    w = World.get(wn)
                    occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                    occs = occs[:: max(1, len(occs) // (12 if T else 4))]
                    for pre in itertools.product((0.07, 0.48, 0.95), repeat=3 if T else 2):
                        runs(chk, wn, kind, 1, 3, fmt, [x for u in pre for x in (u, 0.37)], occs)
                        runs(chk, wn, kind, 0, 2, fmt, [x for u in pre for x in (u, 0.37)], occs[:2])
