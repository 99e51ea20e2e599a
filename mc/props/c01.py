"""C01: incremental rates equal a fresh evaluation, for every hop history within bounds.

Two exhaustive explorations on the real KMC object:
 walk  - one live object is driven along every edge of the whole reachable state graph (each hop and its
         reverse), rates observed through proposals after every hop;
 tree  - every hop sequence up to a depth, each replayed on a freshly built simulator.
Oracle: rates of a fresh model evaluated on a fresh State with the current occupation.
"""
import itertools

from kmcpy.event import EventLib, Event
from kmcpy.models import CompositeLCEModel, LocalBarrierModel
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.simulator.state import State
from mc import models_ref
from mc.drv import Table, World, check_rates


def ising(w, everywhere=False):
    """external energy: pair interaction over the sites an event lists (a local model), or over the whole occupation"""
    def fn(changes, external_occupation, event):
        occ = list(external_occupation)
        loc = list(range(len(occ))) if everywhere else list(dict.fromkeys(list(event.mobile_ion_indices) + list(event.local_env_indices)))

        def en(o):
            return sum(7.0 * (i + 1) * o[i] for i in loc) + sum(3.0 * ((i * j) % 5) * o[i] * o[j] for i in loc for j in loc if i < j)
        e0 = en(occ)
        for c in changes:
            occ[c.external_site] = c.new_value
        return en(occ) - e0
    return fn


_LCE = {}


def model(w, kind):
    if kind == "table":
        return Table(3)
    if kind in ("blocked", "tiny", "range", "fine"):
        return Table(3, kind)
    if kind == "stateful":
        return models_ref.Stateful(5)
    if kind == "lbm":
        return models_ref.lbm(w)
    if kind == "lbm_all":
        m = models_ref.lbm(w)
        n = w.n
        m2 = LocalBarrierModel(default_barrier=300.0)
        m2.add_state_count_rule(state=0, sites=[0, n - 1], count=2, barrier=220.0)
        m2.add_pattern_rule([1] + ["*"] * (n - 1), sites="all", barrier=260.0)
        return m2
    nenv = len(w.envs[0])
    key = (w.name, nenv)
    if key not in _LCE:
        _LCE[key] = (models_ref.lce(w, 0, n_env=nenv).as_dict(), models_ref.lce(w, 1, n_env=nenv).as_dict())
    # shared (immutable between calls) LCE objects; only parameters are set
    if key + ("m",) not in _LCE:
        _LCE[key + ("m",)] = (models_ref.lce(w, 0, n_env=nenv), models_ref.lce(w, 1, n_env=nenv))
    kra, site = _LCE[key + ("m",)]
    if kind == "composite":
        return CompositeLCEModel(site_model=site, kra_model=kra)
    if kind == "site_energy":
        return CompositeLCEModel(site_model=SiteEnergyModel(compute_fn=ising(w), units="meV"), kra_model=kra)
    if kind == "site_energy_all":
        return CompositeLCEModel(site_model=SiteEnergyModel(compute_fn=ising(w, True), units="meV"), kra_model=kra)
    raise KeyError(kind)


class Fresh:
    """memoised oracle: a newly built model asked about a newly built state"""

    def __init__(self, w, kind, **cfg):
        self.w, self.kind = w, kind
        self.cfg = w.config(**cfg)
        self.memo = {}
        self.events = w.events()
        lk = w.lookup()
        for e in self.events:
            lk.annotate_event(e)

    def __call__(self, occ):
        r = self.memo.get(occ)
        if r is None:
            m = model(self.w, self.kind)
            st = State(occupations=list(occ))
            ini = getattr(m, "initialize_state", None)
            if ini is not None:
                ini(simulation_state=st, event_lib=None, structure=None, config=None)
            r = []
            for e, p in zip(self.events, self.w.pairs):
                r.append(float(m.compute_probability(event=e, runtime_config=self.cfg.runtime_config, simulation_state=st)))
            self.memo[occ] = r
        return r


def walk(chk, w, kind, via, start, fresh, seen_edges):
    kmc = w.kmc(model(w, kind), start, lib=w.event_lib(via))
    check_rates(chk, kmc, fresh(start), "initial rates", occ=start)
    chk.trace()
    # iterative DFS over edges; the live object is moved back along the reverse hop
    stack = [(start, iter(range(len(w.pairs))), None)]
    seen = {start}
    chk.state(start)
    hist = []
    while stack:
        occ, it, came = stack[-1]
        moved = False
        for i in it:
            if w.direction(occ, w.pairs[i]) == 0:
                continue
            if not fresh(occ)[i] > 0:
                continue
            nxt = w.hop(occ, w.pairs[i])
            ev = kmc.event_lib.events[i]
            kmc.update(ev, 1.0)
            hist.append(i)
            chk.step()
            chk.note(history=hist[-30:], start=start, world=w.name, model=kind, lib=via)
            got = tuple(int(x) for x in kmc.simulation_state.occupations)
            chk.expect(got == nxt, "occupation after hop differs from the exchange of the endpoints", got=got, want=nxt)
            check_rates(chk, kmc, fresh(nxt), "rates after hop history", occ=nxt, last_event=i, before=occ)
            if nxt not in seen:
                seen.add(nxt)
                chk.state(nxt)
                stack.append((nxt, iter(range(len(w.pairs))), i))
                moved = True
                break
            kmc.update(ev, 1.0)  # reverse
            chk.step()
            hist.append(i)
            check_rates(chk, kmc, fresh(occ), "rates after reversing a hop", occ=occ, last_event=i)
        if not moved:
            stack.pop()
            if stack and came is not None:
                kmc.update(kmc.event_lib.events[came], 1.0)
                chk.step()
                hist.append(came)
                check_rates(chk, kmc, fresh(stack[-1][0]), "rates after backtracking", occ=stack[-1][0])
    return seen


def tree(chk, w, kind, via, start, depth, fresh):
    lib_proto = None

    def replay(hist):
        k = w.kmc(model(w, kind), start, lib=w.event_lib(via))
        for i in hist:
            k.update(k.event_lib.events[i], 1.0)
        chk.step(len(hist))
        chk.trace()
        return k

    def rec(hist, occ):
        if len(hist) == depth:
            k = replay(hist)
            chk.note(history=hist, start=start, world=w.name, model=kind, lib=via)
            chk.state((start, tuple(hist)))
            check_rates(chk, k, fresh(occ), "rates after replayed history", occ=occ, history=hist)
            return
        any_ = False
        for i, p in enumerate(w.pairs):
            if w.direction(occ, p) and fresh(occ)[i] > 0:
                any_ = True
                rec(hist + [i], w.hop(occ, p))
        if not any_ and hist:
            k = replay(hist)
            check_rates(chk, k, fresh(occ), "rates after replayed history", occ=occ, history=hist)
    rec([], tuple(start))


def main(chk):
    T = chk.thorough
    chk.bounds = dict(worlds="ring5, ring6far, frame, codes, square32, hex" + (", codes3, square, fcc, tric" if T else ""),
                      walk="all occupations, every edge of the state graph",
                      tree_depth=5 if T else 3)
    chk.assumptions = ["a model's rate depends only on the sites an event lists (endpoints and local environment), unless the model itself declares wider rules (LocalBarrierModel site lists)"]
    plans = [("ring5", "table", "generated"), ("ring6far", "table", "file"), ("frame", "table", "extended"),
             ("codes", "table", "dict"), ("square32", "table", "generated"), ("hex", "table", "generated"),
             ("ring5", "stateful", "file"), ("codes", "stateful", "generated"), ("frame", "stateful", "generated"),
             ("ring5", "lbm", "generated"), ("frame", "lbm", "file"), ("codes", "lbm", "extended"),
             ("ring5", "composite", "generated"), ("frame", "composite", "extended"), ("codes", "composite", "generated"),
             ("ring5", "site_energy", "generated"), ("frame", "site_energy", "file"), ("codes", "site_energy", "generated"),
             ("ring5", "blocked", "generated"), ("frame", "blocked", "generated"), ("ring5", "tiny", "generated"), ("ring5", "range", "generated"), ("ring5", "fine", "generated"), ("codes", "fine", "file"),
             ("twin", "table", "generated"), ("twin", "blocked", "file"), ("twin", "lbm", "dict"),
             ("ring5", "lbm_all", "generated"), ("ring8", "lbm_all", "generated"), ("ring8", "table", "dict"),
             ("ring5", "site_energy_all", "file"), ("ring8", "site_energy_all", "generated"), ("codes", "site_energy_all", "generated")]
    if T:
        plans += [(a, b, c) for a in ("codes3", "square", "fcc", "tric") for b in ("table", "stateful") for c in ("generated", "file")]
        plans += [(a, b, "generated") for a in ("square32", "codes3", "square") for b in ("lbm", "composite", "site_energy")]
    for wn, kind, via in plans:
        with chk.scenario("walk/%s/%s/%s" % (wn, kind, via)) as on:
            if on:
                w = World.get(wn)
                if kind in ("composite", "site_energy", "site_energy_all") and len(set(map(len, w.envs))) != 1:
                    continue
                fresh = Fresh(w, kind)
                done = set()
                for occ in w.occupations():
                    if occ in done:
                        continue
                    comp = walk(chk, w, kind, via, occ, fresh, None)
                    done |= comp
                    chk.outcome((wn, kind, len(comp)))
                chk.sample(dict(world=wn, model=kind, library=via, events=w.pairs[:3], states=len(done)))
    for kind, via in (("table", "generated"), ("blocked", "file"), ("lbm", "extended")):
        with chk.scenario("large/" + kind) as on:
            if on:
                w = World.get("big")
                fresh = Fresh(w, kind)
                for start in (tuple((i * 7 // 3) % 2 for i in range(w.n)),) + ((tuple(int(i % 29 != 3) for i in range(w.n)),) if T else ()):
                    kmc = w.kmc(model(w, kind), start, lib=w.event_lib(via))
                    check_rates(chk, kmc, fresh(start), "initial rates", world="big")
                    for i, occ, nxt in w.long_history(start, 600 if T else 60, lambda o, j: fresh(o)[j] > 0):
                        kmc.update(kmc.event_lib.events[i], 1.0)
                        chk.step()
                        chk.state(nxt)
                        check_rates(chk, kmc, fresh(nxt), "rates after hop history", world="big", last_event=i)
                    chk.trace()
    dep = 5 if T else 3
    for wn, kind in (("ring5", "table"), ("codes", "stateful"), ("frame", "table"), ("square32", "table")):
        with chk.scenario("tree/%s/%s" % (wn, kind)) as on:
            if on:
                w = World.get(wn)
                fresh = Fresh(w, kind)
                starts = []
                comps = set()
                for occ in w.occupations():
                    c = tuple(sorted(w.allowed[i][o] for i, o in enumerate(occ)))
                    if c not in comps:
                        comps.add(c)
                        starts.append(occ)
                for s in starts if (T or wn != "square32") else starts[2:5]:
                    tree(chk, w, kind, "generated", s, dep, fresh)
    # libraries used without explicit dependency generation must still give correct rates
    for mode in ("never_generated", "added_after_generation", "cleared"):
        with chk.scenario("deps/" + mode) as on:
            if on:
                for wn in ("ring5", "square32"):
                    w = World.get(wn)
                    fresh = Fresh(w, "table")
                    for occ in list(w.occupations())[1:-1:3]:
                        evs = w.events()
                        lib = EventLib()
                        if mode == "added_after_generation":
                            for e in evs[:-2]:
                                lib.add_event(e)
                            lib.generate_event_dependencies()
                            for e in evs[-2:]:
                                lib.add_event(e)
                        else:
                            for e in evs:
                                lib.add_event(e)
                            if mode == "cleared":
                                lib.generate_event_dependencies()
                                lib.clear_event_dependencies()
                        kmc = w.kmc(Table(3), occ, lib=lib)
                        for i, p in enumerate(w.pairs):
                            if w.direction(occ, p):
                                nxt = w.hop(occ, p)
                                kmc.update(kmc.event_lib.events[i], 1.0)
                                chk.step()
                                check_rates(chk, kmc, fresh(nxt), "rates with library mode " + mode, occ=nxt, event=i)
                                kmc.update(kmc.event_lib.events[i], 1.0)
                                check_rates(chk, kmc, fresh(occ), "rates with library mode " + mode, occ=occ, event=i)
                                chk.state((wn, occ, i))
