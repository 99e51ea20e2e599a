"""C05: every transport summary row equals its definition over the production window.

All hop sequences up to a depth x waiting-time patterns x configuration alphabets, sampled after every hop; plus the
pure function over an exhaustive grid of displacement arrays; plus complete runs that start at a non-zero clock.
"""
import itertools
import math

import numpy as np

from kmcpy.simulator.property import compute_transport_properties
from kmcpy.simulator.state import State
from kmcpy.simulator.tracker import Tracker
from mc.drv import IonRef, KB, Table, World, patched_rng, ref_run, tape

FIELDS = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
NAN = float("nan")


def reference(disp, hops, t, dim, a, vol, q, T):
    """documented definitions, straight from the physics"""
    n = len(hops)
    r2 = [float(d[0]) ** 2 + float(d[1]) ** 2 + float(d[2]) ** 2 for d in disp]
    out = dict.fromkeys(FIELDS, NAN)
    tot = [sum(float(d[k]) for d in disp) for k in range(3)]
    R2 = sum(x * x for x in tot)
    if n:
        out["msd"] = sum(r2) / n
        out["correlation_factor"] = sum(x / (h * a * a) if h else 0.0 for x, h in zip(r2, hops)) / n
    if n and t > 0:
        out["jump_diffusivity"] = R2 / (2 * dim * t * n) * 1e-16
        out["tracer_diffusivity"] = out["msd"] / (2 * dim * t) * 1e-16
        out["conductivity"] = out["jump_diffusivity"] * (n / vol) * q * q / (KB * T) * 1.602e11
        if R2 > 0:
            out["havens_ratio"] = out["tracer_diffusivity"] / out["jump_diffusivity"]
    return out, R2


def compare(chk, got, want, R2, enabled, what, noise=False, **kw):
    for f in FIELDS:
        g = float(got[f])
        w = want[f] if enabled.get(f, True) else NAN
        if f in ("jump_diffusivity", "conductivity", "havens_ratio") and enabled.get(f, True) and 0 <= R2 < 1e-12:
            # collective displacement is zero up to rounding
            if f == "havens_ratio":
                chk.expect(noise or math.isnan(g), what + ": Haven ratio with zero collective displacement", got=g, **kw)
            elif math.isnan(w):
                chk.expect(math.isnan(g), what + ": undefined %s is not NaN" % f, got=g, **kw)
            else:
                chk.expect(abs(g) < 1e-3, what + ": %s with zero collective displacement" % f, got=g, **kw)
            continue
        if math.isnan(w):
            chk.expect(math.isnan(g), what + ": undefined or disabled %s is not NaN" % f, got=g, **kw)
        elif noise and w < 1e-24 and f == "tracer_diffusivity":
            chk.expect(abs(g) < 1e-20, what + ": " + f, got=g, want=w, **kw)
        else:
            chk.close(g, w, what + ": " + f, rel=1e-9, abs_=1e-12 if f in ("msd", "correlation_factor") else 0.0, field=f, **kw)


def main(chk):
    T = chk.thorough
    chk.bounds = dict(history_depth=dict(default=4 if T else 3, hex=3 if T else 2, frame=3 if T else 2), dt_patterns=4, dims=[1, 2, 3], charges=[1.0, 2.0, -1.0], temperatures=[300.0, 813.5],
                      hop_distances=[3.0, 1.7], enable_flags="all 64 subsets", clocks=[0.0, 2.5e-9, 40.0])
    confs = list(itertools.product((1, 2, 3), (1.0, 2.0, -1.0), (300.0, 813.5), (3.0, 1.7)))
    # ---- pure definition over a grid ---------------------------------------------------------
    with chk.scenario("definition") as on:
        if on:
            ax = (-3.0, 0.0, 1.5)
            vecs = list(itertools.product(ax, repeat=3)) if T else [v for v in itertools.product(ax, repeat=3) if v.count(0.0) != 1]
            for n in (1, 2):
                for disp in itertools.product(vecs, repeat=n):
                    for k, hops in enumerate(itertools.product((0, 1, 5), repeat=n)):
                        dim, q, temp, a = confs[(k * 7 + sum(int(abs(x[0])) for x in disp)) % len(confs)]
                        for t in (0.0, 3.0e-7, 12.0):
                            got = compute_transport_properties(np.array(disp), np.array(hops), sim_time=t, dimension=dim,
                                                               n_mobile_ion_specie=n, elementary_hop_distance=a, volume=77.0,
                                                               mobile_ion_charge=q, temperature=temp)
                            want, R2 = reference(disp, hops, t, dim, a, 77.0, q, temp)
                            chk.step()
                            compare(chk, got, want, R2, {}, "definition", disp=disp, hops=hops, t=t)
                    chk.state(disp)
            # moving ions whose displacements cancel exactly: the ratio of a finite to a zero diffusivity is undefined
            for v, u in itertools.product([v for v in vecs if any(v)], vecs):
                for disp in ([v, [-x for x in v]], [v, u, [-x - y for x, y in zip(v, u)]]):
                    for t in (0.0, 3.0e-7):
                        got = compute_transport_properties(np.array(disp), np.array([1] * len(disp)), sim_time=t, dimension=3,
                                                           n_mobile_ion_specie=len(disp), elementary_hop_distance=3.0, volume=77.0,
                                                           mobile_ion_charge=1.0, temperature=300.0)
                        want, R2 = reference(disp, [1] * len(disp), t, 3, 3.0, 77.0, 1.0, 300.0)
                        chk.step()
                        compare(chk, got, want, R2, {}, "cancelling displacements", disp=disp, t=t)
                chk.state((v, u))
            for dim, q, temp, a in confs:  # every configuration
                for disp, hops in (([[3.0, 0, 1]], [2]), ([[3.0, 0, 1], [0, -2.0, 4]], [3, 0]), ([[1, 1, 1], [2, 0, 0], [0, 0, 0]], [1, 2, 0])):
                    for vol, t in ((100.0, 1e-9), (33.3, 5.0)):
                        got = compute_transport_properties(np.array(disp, float), np.array(hops), sim_time=t, dimension=dim,
                                                           n_mobile_ion_specie=len(hops), elementary_hop_distance=a, volume=vol,
                                                           mobile_ion_charge=q, temperature=temp)
                        want, R2 = reference(disp, hops, t, dim, a, vol, q, temp)
                        chk.step()
                        chk.state((dim, q, temp, a, vol, len(hops)))
                        compare(chk, got, want, R2, {}, "definition", conf=[dim, q, temp, a])
            for flags in itertools.product((True, False), repeat=6):
                en = dict(zip(FIELDS, flags))
                disp, hops = [[3.0, 0, 1], [0, -2.0, 4]], [3, 1]
                got = compute_transport_properties(np.array(disp), np.array(hops), sim_time=2.0, dimension=3, n_mobile_ion_specie=2,
                                                   elementary_hop_distance=3.0, volume=50.0, mobile_ion_charge=1.0, temperature=500.0, enabled=en)
                want, R2 = reference(disp, hops, 2.0, 3, 3.0, 50.0, 1.0, 500.0)
                chk.step()
                chk.state(flags)
                compare(chk, got, want, R2, en, "enable flags", flags=flags)
    with chk.scenario("large") as on:
        if on:
            for n in (40, 300, 3000):
                disp = [[3.0 * ((7 * i) % 11 - 5), 1.5 * ((5 * i) % 7 - 2), -2.0 * (i % 3)] for i in range(n)]
                for hops in ([(3 * i) % 8 for i in range(n)], [10 ** 6 + i for i in range(n)], [int(i == n - 1) * 4 for i in range(n)]):
                    for (dim, q, temp, a), t in itertools.product(confs[::7], (0.0, 1e-15, 2.0e-6, 1e7)):
                        got = compute_transport_properties(np.array(disp), np.array(hops), sim_time=t, dimension=dim, n_mobile_ion_specie=n,
                                                           elementary_hop_distance=a, volume=20.0 * n, mobile_ion_charge=q, temperature=temp)
                        want, R2 = reference(disp, hops, t, dim, a, 20.0 * n, q, temp)
                        chk.step()
                        chk.state((n, hops[0], dim, q, temp, a, t))
                        compare(chk, got, want, R2, {}, "many ions", n=n, t=t)
            w = World.get("big")
            start = tuple((i * 7 // 3) % 2 for i in range(w.n))
            kmc = w.kmc(Table(1), start)
            tr = Tracker(config=kmc.config, structure=w.structure, initial_state=kmc.simulation_state, hop_state_lookup=w.lookup())
            tr.set_global_property_frequency(interval=1)
            ref = IonRef(w, start, tr.mobile_ion_specie_locations)
            for j, (i, occ, nxt) in enumerate(w.long_history(start, 150)):
                row, vecs = ref.move(i, w.direction(occ, w.pairs[i]))
                ref.disp[row] += vecs[0]
                tr.update(kmc.event_lib.events[i], 1e-9)
                kmc.update(kmc.event_lib.events[i], 1e-9)
                tr.sample_properties(step=j + 1, sim_time=float(kmc.simulation_state.time))
                c = kmc.config
                want, R2 = reference(ref.disp, ref.hops, 1e-9 * (j + 1), c.dimension, 3.0, abs(np.linalg.det(w.L)), 1.0, 600.0)
                chk.step()
                chk.state(nxt)
                compare(chk, {f: tr.results[f][-1] for f in FIELDS}, want, R2, {}, "row of a large system", noise=True, row=j)
            chk.trace()
    # ---- every history, sampled after every hop ----------------------------------------------
    pats = [(0.5, 0.5, 0.5, 0.5, 0.5), (0.0, 1e-12, 0.0, 3.0, 1.0), (1e-9, 2e-9, 1e-3, 1.0, 1e-9), (0.0, 0.0, 0.0, 0.0, 2.0)]
    base_depth = 4 if T else 3
    k = 0
    for wn in ("chain3", "ring5", "codes", "hex", "skew", "frame"):
        with chk.scenario("histories/" + wn) as on:
            if on:
                w = World.get(wn)
                vol = abs(np.linalg.det(w.L))
                occs = list(w.occupations())
                depth = base_depth - (wn in ("hex", "frame"))
                allseqs = []
                for s in occs:
                    def rec(hist, occ):
                        opts = [i for i, p in enumerate(w.pairs) if w.direction(occ, p)]
                        if len(hist) == depth or not opts:
                            allseqs.append((s, hist))
                            return
                        for i in opts:
                            rec(hist + [i], w.hop(occ, w.pairs[i]))
                    rec([], s)
                for s, hist in allseqs:
                    k += 1
                    dim, q, temp, a = confs[k % len(confs)]
                    t0 = (0.0, 2.5e-9, 40.0)[k % 3]
                    en = {f: not ((k >> j) & 1 and k % 4 == 1) for j, f in enumerate(FIELDS)}
                    kmc = w.kmc(Table(1), s, state=State(occupations=list(s), time=t0, step=(0, 17)[k % 2]), dimension=dim,
                                mobile_ion_charge=q, temperature=temp, elementary_hop_distance=a)
                    tr = Tracker(config=kmc.config, structure=w.structure, initial_state=kmc.simulation_state, hop_state_lookup=w.lookup())
                    tr.set_global_property_frequency(interval=1)
                    for f, e in en.items():
                        tr.set_property_enabled(f, e)
                    ref = IonRef(w, s, tr.mobile_ion_specie_locations)
                    occ, el, clock = s, 0.0, t0
                    chk.note(world=wn, start=s, history=hist, conf=[dim, q, temp, a], t0=t0, enabled=en)
                    for j, i in enumerate(hist):
                        dt = pats[k % 4][j]
                        if t0 == 40.0 and 0 < dt < 1e-3:
                            dt = 1e-3  # keep the elapsed time well above the resolution of the clock
                        ev = kmc.event_lib.events[i]
                        d0 = np.array(tr.displacement)
                        row, vecs = ref.move(i, w.direction(occ, w.pairs[i]))
                        tr.update(ev, dt)
                        kmc.update(ev, dt)
                        inc = np.array(tr.displacement)[row] - d0[row]
                        v = min(vecs, key=lambda x: np.linalg.norm(x - inc))  # tie between images: follow the code
                        ref.disp[row] += v
                        occ = w.hop(occ, w.pairs[i])
                        el += dt
                        clock += dt
                        tr.sample_properties(step=j + 1, sim_time=float(kmc.simulation_state.time))
                        chk.step()
                        rows = tr.results
                        chk.expect(len(rows["time"]) == j + 1, "one row per sample")
                        chk.close(rows["time"][-1], clock, "recorded time", rel=1e-12)
                        elapsed = clock - t0
                        want, R2 = reference(ref.disp, ref.hops, elapsed, dim, a, vol, q, temp)
                        compare(chk, {f: rows[f][-1] for f in FIELDS}, want, R2, en, "history row", noise=True)
                        info = tr.return_current_info()
                        order = ("time", "msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")
                        chk.equal(list(info), [rows[f][-1] for f in order], "return_current_info order")
                    chk.trace()
                    chk.state((wn, s, tuple(hist), k % 12))
                    chk.outcome((wn, tuple(hist)))
    # ---- complete runs: resumed clock gives the same coefficients -----------------------------
    for wn in ("ring5", "hex", "square32"):
        with chk.scenario("run/" + wn) as on:
            if on:
                w = World.get(wn)
                L = w.pass_length()
                vol = abs(np.linalg.det(w.L))
                tab = Table(6)
                occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                occs = occs[:: max(1, len(occs) // (12 if T else 4))]
                for occ, neq, npass, t0, a in itertools.product(occs, (0, 2), (1, 2), (0.0, 3.0), (0.1, 0.6)):
                    us = ([a, 0.5, 1 - a, 0.25, 0.33, 0.75] * ((neq + npass) * L))[: 2 * (neq + npass) * L]
                    kmc = w.kmc(Table(6), occ, state=State(occupations=list(occ), time=t0, step=5 if t0 else 0),
                                equilibration_passes=neq, kmc_passes=npass, property_sampling_interval=1, dimension=2)
                    with patched_rng(tape(us)):
                        tr = kmc.run(label="c05")
                    start, traj = ref_run(w, tab, occ, us, neq * L, npass * L, t0)
                    rows_ = [i for i, o in enumerate(start) if w.mob[i] is not None and o == w.mob[i]]
                    ref = IonRef(w, start, rows_)
                    chk.note(world=wn, occ=occ, neq=neq, npass=npass, t0=t0, a=a)
                    chk.expect(len(tr.results["time"]) == len(traj), "one row per production event", got=len(tr.results["time"]), want=len(traj))
                    amb = any(len(w.vec(*w.pairs[i])) > 1 for i, *_ in traj)
                    if amb:
                        continue
                    for j, (i, dt, o, t, d) in enumerate(traj):
                        row, vecs = ref.move(i, d)
                        ref.disp[row] += vecs[0]
                        want, R2 = reference(ref.disp, ref.hops, t - t0, 2, 3.0, vol, 1.0, 600.0)
                        chk.step()
                        chk.close(tr.results["time"][j], t, "clock of a row", rel=1e-12)
                        compare(chk, {f: tr.results[f][j] for f in FIELDS}, want, R2, {}, "run row", noise=True, row=j)
                    chk.trace()
                    chk.state((wn, occ, neq, npass, t0, a))
            chk.sample(dict(world=wn, kind="run rows"))
