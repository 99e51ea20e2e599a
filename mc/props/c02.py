"""C02: rejection-free selection and exponential waiting time.

Exhaustive over rate vectors from an alphabet (all tuples up to a length) and over all draws up to interval
equivalence: for every selection interval both ends to the last representable draw, its interior, and the two
extreme draws 0 and 1-2^-53; plus draw trees over histories.
"""
import itertools
import math

import numpy as np

from kmcpy.event import Event, EventLib
from kmcpy.models.base import BaseModel
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from mc.drv import Table, U_E, World, check_rates, index_of, propose, set_tape

G = 1 << 53


class Given(BaseModel):
    """rates are given per event, by endpoint pair"""

    def __init__(self, rates):
        self.rates = rates

    def compute_probability(self, event, runtime_config, simulation_state):
        return self.rates[tuple(event.mobile_ion_indices)]

    def as_dict(self):
        return {}

    @classmethod
    def from_dict(cls, d):
        return cls({})


def lib_of(n):
    lib = EventLib()
    for i in range(n):
        lib.add_event(Event(mobile_ion_indices=(i, i + 1), local_env_indices=()))
    lib.generate_event_dependencies()
    return lib


def kmc_of(w, lib, n, rates):
    """n events on a line of n+1 sites, structure only supplies the interface"""
    m = Given({(i, i + 1): float(r) for i, r in enumerate(rates)})
    return KMC(structure=w.structure, model=m, event_lib=lib, config=w.config(),
               simulation_state=State(occupations=[0, 1] * ((n + 2) // 2)))


def draws_for(rates, total):
    """draw values (multiples of 2^-53) covering every interval equivalence class and its borders"""
    us = {0, 1, G - 1, G // 2}
    c = 0.0
    for r in rates:
        lo = c / total
        c += r
        hi = c / total
        for b in (lo, hi):
            k = int(b * G)
            for d in (-2, -1, 0, 1, 2):
                if 0 <= k + d < G:
                    us.add(k + d)
        us.add(min(G - 1, int((lo + hi) / 2 * G)))
    return sorted(us)


def check_vector(chk, kmc, rates, u2s):
    total = math.fsum(rates)
    evs = kmc.event_lib.events
    n = len(rates)
    if total == 0:
        for u1 in (0.0, 0.3, 1 - 2.0 ** -53):
            chk.step()
            try:
                ev, dt = propose(kmc, u1)
            except Exception:
                chk.checks += 1
                continue
            chk.fail("an event was proposed although every rate is zero", rates=rates, u1=u1, event=repr(ev), dt=dt)
        return
    lo = np.concatenate([[0.0], np.cumsum(rates)])[:-1] / total
    hi = np.cumsum(rates) / total
    us = [k / G for k in draws_for(rates, total)]
    for s in range(0, len(us), 140):
        part = us[s:s + 140]
        t = []
        for j, u in enumerate(part):
            t += [u, u2s[j % len(u2s)]]
        set_tape(kmc, t)
        for j, u in enumerate(part):
            ev, dt = kmc.propose(evs)[:2]
            chk.step()
            i = ev.mobile_ion_indices[0]
            if ev is not evs[i] or not rates[i] > 0:
                chk.fail("an event with zero rate was chosen", rates=rates, u1=u, chosen=i)
            if not (lo[i] - 1e-13 <= u <= hi[i] + 1e-13):
                chk.fail("the chosen event's interval does not contain the draw", rates=rates, u1=u, chosen=i,
                         interval=[lo[i], hi[i]])
            want = -math.log(u2s[j % len(u2s)]) / total
            if not abs(dt - want) <= 1e-12 * want or not math.isfinite(dt) or dt < 0:
                chk.fail("waiting time is not -ln(u)/total", rates=rates, u2=u2s[j % len(u2s)], got=dt, want=want)
    chk.checks += 3 * len(us)


def main(chk):
    T = chk.thorough
    w = World.get("ring5")
    u2s = [int(u * G) / G for u in (U_E, 0.5, 1.0 / G, 1 - 1.0 / G, 0.999999, 1e-9)]
    small = [0.0, 1.0, 0.3, 7.0e-7, 4.0e9]
    plans = [(1, small), (2, small), (3, small), (4, small), (5, [0.0, 1.0, 3.0e3])]
    if T:
        plans += [(5, small), (6, [0.0, 1.0, 0.3, 4e9]), (8, [0.0, 1.0, 1e-3])]
    chk.bounds = dict(vectors=[dict(events=n, alphabet=a) for n, a in plans], second_draws=u2s,
                      wide_libraries=[40, 130, 300], history_depth=4 if T else 3)
    chk.assumptions = ["rates are finite and non-negative", "the second draw is not exactly 0 (probability 2^-53, outside the documented domain (0,1))"]
    for n, alpha in plans:
        with chk.scenario("vectors/%d/%d" % (n, len(alpha))) as on:
            if on:
                lib = lib_of(n)
                for rates in itertools.product(alpha, repeat=n):
                    kmc = kmc_of(w, lib, n, rates)
                    chk.state(rates)
                    chk.trace()
                    chk.outcome(tuple(r > 0 for r in rates))
                    chk.note(rates=rates)
                    check_vector(chk, kmc, rates, u2s)
                chk.sample(dict(events=n, alphabet=alpha, vectors=len(alpha) ** n))
    with chk.scenario("extreme") as on:
        if on:
            ext = [0.0, 1e-280, 1e-9, 1.0, 1e13, 1e250]
            for n in (1, 2, 3):
                lib = lib_of(n)
                for rates in itertools.product(ext, repeat=n):
                    kmc = kmc_of(w, lib, n, rates)
                    chk.state(("x", rates))
                    chk.trace()
                    check_vector(chk, kmc, rates, u2s)
    for n in (40, 130, 300):
        with chk.scenario("wide/%d" % n) as on:
            if on:
                lib = lib_of(n)
                base = [1.0 + (i * 37 % 11) for i in range(n)]
                vs = []
                for z in ("none", "first", "last", "middle", "only_first", "only_last", "only_mid", "alternate", "halves"):
                    r = list(base)
                    keep = {"none": lambda i: 1, "first": lambda i: i > 2, "last": lambda i: i < n - 3,
                            "middle": lambda i: abs(i - n // 2) > 3, "only_first": lambda i: i == 0,
                            "only_last": lambda i: i == n - 1, "only_mid": lambda i: i == n // 2,
                            "alternate": lambda i: i % 2, "halves": lambda i: i > n // 2}[z]
                    vs.append([x if keep(i) else 0.0 for i, x in enumerate(r)])
                for i in range(n):  # a single possible event at every position
                    vs.append([float(i == j) * 2.5e11 for j in range(n)])
                for rates in vs:
                    kmc = kmc_of(w, lib, n, rates)
                    chk.state((n, tuple(rates)))
                    chk.trace()
                    check_vector(chk, kmc, rates, u2s)
    # selection in a library of hundreds of events stays correct along a history
    for kind in (None, "range"):
        with chk.scenario("large/%s" % kind) as on:
            if on:
                wb = World.get("big")
                tab = Table(17, kind)
                start = tuple((i * 7 // 3) % 2 for i in range(wb.n))
                kmc = wb.kmc(Table(17, kind), start)
                for i, occ, nxt in wb.long_history(start, 200 if T else 12):
                    kmc.update(kmc.event_lib.events[i], 1.0)
                    chk.step()
                    chk.state(nxt)
                    want = [tab.rate(tuple(p), tuple(e), wb.direction(nxt, p), tuple(nxt[s] for s in e)) for p, e in zip(wb.pairs, wb.envs)]
                    check_rates(chk, kmc, want, "selection in a large library", strict=True, last_event=i)
                chk.trace()
    # selection stays correct at every step of a history: full draw trees
    depth = 4 if T else 3
    for wn in ("ring5", "square32") + (("hex", "codes3") if T else ()):
        with chk.scenario("history/" + wn) as on:
            if on:
                w2 = World.get(wn)
                model = Table(11)
                starts = [o for o in w2.occupations() if any(w2.direction(o, p) for p in w2.pairs)]
                starts = starts if T else starts[:: max(1, len(starts) // 8)]

                def rates_of(occ):
                    return [model.rate(tuple(p), tuple(e), w2.direction(occ, p), tuple(occ[i] for i in e))
                            for p, e in zip(w2.pairs, w2.envs)]

                def rec(hist, occ, start):
                    kmc = w2.kmc(model, start, lib=w2.event_lib())
                    for u in hist:
                        ev, dt = propose(kmc, u)
                        kmc.update(ev, dt)
                        chk.step()
                    chk.trace()
                    chk.state((start, tuple(hist)))
                    chk.note(start=start, draws=hist)
                    r = rates_of(occ)
                    total = math.fsum(r)
                    if total == 0:
                        return
                    mids = []
                    c = 0.0
                    for i, x in enumerate(r):
                        if x > 0:
                            mids.append(((c + x / 2) / total, i))
                        c += x
                    lo = 0
                    for u, i in mids:
                        for u2 in (U_E, 0.25, 1 - 1.0 / G):
                            ev, dt = propose(kmc, u, u2)
                            chk.step()
                            chk.expect(ev is kmc.event_lib.events[i], "draw selected another event after a history",
                                       start=start, draws=hist, u=u, want=i, got=index_of(kmc, ev))
                            chk.close(dt, -math.log(u2) / total, "waiting time wrong after a history", rel=1e-9,
                                      start=start, draws=hist)
                    if len(hist) < depth:
                        for u, i in mids:
                            rec(hist + [u], w2.hop(occ, w2.pairs[i]), start)
                for s in starts:
                    rec([], tuple(s), tuple(s))
