"""C15: an attached external site-energy model always sees the current occupation through its mapping.

Every hop history: the live simulator is driven along every edge of the state graph (each hop and its reverse)
while recording callbacks judge each query and each acceptance against the reference mapping of the reference
occupation; complete runs are explored over all draw choices to a depth.  Every single-defect mapping must be
rejected.
"""
import copy
import itertools
import json
import math
import os

import numpy as np

from kmcpy.models import CompositeLCEModel
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.simulator.state import State
from mc import cbs, models_ref
from mc.drv import KB, U_E, World, check_rates, patched_rng, select, tape
from mc.props import c13

FULL = {"runtime", "external_occupation", "changes", "event", "simulation_state", "scale"}
SIG = {"rec_compute": FULL, "rec_compute_kw": FULL, "rec_compute_pair": {"external_occupation", "changes"},
       "rec_compute_min": {"event", "simulation_state"}, "rec_compute_kwonly": {"external_occupation", "changes", "runtime", "scale"},
       "rec_compute_mix": FULL}
ASIG = {"rec_apply": (FULL - {"scale"}) | {"tag"}, "rec_apply_kw": (FULL - {"scale"}) | {"tag"}, "rec_apply_min": {"changes"},
        "rec_apply_mix": (FULL - {"scale"}) | {"tag"}}


def maps(w):
    """name -> (constructor arguments, reference translation)"""
    n = w.n
    k = max(map(len, w.allowed))
    perm = list(range(n))[::-1]
    shifted = [(i + 2) % n for i in range(n)]
    out = {}
    out["identity"] = (dict(), lambda o: [int(x) for x in o])
    out["reversed"] = (dict(site_mapping=perm), lambda o: [int(o[n - 1 - j]) for j in range(n)])

    def spread(o):
        e = [-7] * (2 * n + 1)
        for i, x in enumerate(o):
            e[2 * shifted[i] + 1] = int(x)
        return e
    out["spread"] = (dict(site_mapping={i: 2 * shifted[i] + 1 for i in range(n)}, external_size=2 * n + 1, external_fill_value=-7), spread)
    ini = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9][: n + 3]

    def withini(o):
        e = list(ini)
        for i, x in enumerate(o):
            e[i + 2] = int(x)
        return e
    out["initial"] = (dict(site_mapping=[i + 2 for i in range(n)], initial_occupation=ini), withini)
    flo = {s: 0.5 * s - 0.25 for s in range(k)}
    out["floats"] = (dict(state_mapping=flo), lambda o: [flo[int(x)] for x in o])
    ints_then_float = {s: (s if s != 1 else 1.5) for s in range(k)}
    out["int_or_float"] = (dict(state_mapping=ints_then_float, site_mapping={str(i): n - 1 - i for i in range(n)}),
                           lambda o: [ints_then_float[int(o[n - 1 - j])] for j in range(n)])
    out["symbols"] = (dict(state_mapping_by_site={i: dict(enumerate(a)) for i, a in enumerate(w.allowed)}),
                      lambda o: [w.allowed[i][x] for i, x in enumerate(o)])
    names = [[s + str(i) for s in a] for i, a in enumerate(w.allowed)]
    out["per_site_list"] = (dict(state_mapping_by_site=[list(x) for x in names], site_mapping=perm, external_size=n + 1, external_fill_value="none"),
                            lambda o: [names[n - 1 - j][o[n - 1 - j]] for j in range(n)] + ["none"])
    part = {i: {s: 100 * i + s for s in range(len(a))} for i, a in enumerate(w.allowed) if i % 2}
    glob = {s: -s - 1 for s in range(k)}
    out["mixed"] = (dict(state_mapping_by_site=part, state_mapping=glob),
                    lambda o: [part[i][x] if i % 2 else glob[x] for i, x in enumerate(o)])
    out["negative_states"] = (dict(state_mapping={s: 10 - s for s in range(-1, k)}), lambda o: [10 - int(x) for x in o])
    out["array"] = (dict(state_mapping=[7 * s + 1 for s in range(k)], initial_occupation=np.zeros(n, dtype=int)), lambda o: [7 * int(x) + 1 for x in o])
    out["int_initial_mixed"] = (dict(initial_occupation=[4] * n, state_mapping=ints_then_float), lambda o: [ints_then_float[int(x)] for x in o])
    mixed = {s: (0.5 + s if s != 1 else "q") for s in range(k)}
    out["float_initial_mixed"] = (dict(initial_occupation=[0.25] * n, state_mapping=mixed), lambda o: [mixed[int(x)] for x in o])
    out["float_initial"] = (dict(initial_occupation=[0.5] * n, state_mapping={s: 0.5 + s for s in range(k)}), lambda o: [0.5 + int(x) for x in o])
    lbl = {s: "abcd"[s] * (s + 1) for s in range(k)}
    out["string_initial"] = (dict(initial_occupation=["q"] * (n + 1), state_mapping=lbl), lambda o: [lbl[int(x)] for x in o] + ["q"])
    out["empty_fill"] = (dict(state_mapping=lbl, site_mapping=[i + 1 for i in range(n)], external_size=n + 2, external_fill_value=""), lambda o: [""] + [lbl[int(x)] for x in o] + [""])
    blind = {i: {s: (50 + i if i % 2 == 0 else 9 * i + s) for s in range(len(a))} for i, a in enumerate(w.allowed)}
    out["blind_sites"] = (dict(state_mapping_by_site=blind), lambda o: [blind[i][int(x)] for i, x in enumerate(o)])
    return out


def same(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if str(x) != str(y) or not (isinstance(x, str) and isinstance(y, str)):
                return False
        elif not float(x) == float(y):
            return False
    return True


def energy(ext):
    """arbitrary long-range state function of any external occupation, meV"""
    v = []
    for i, x in enumerate(ext):
        if isinstance(x, str):
            v.append(sum((ord(c) % 11) * (j + 1) for j, c in enumerate(x)) / 10.0)
        else:
            v.append(float(x) / (1.0 + abs(float(x)) / 9.0))
    e = 0.0
    for i, x in enumerate(v):
        e += (3.0 + (5 * i) % 7) * x
        e += 2.0 * (((3 * i) % 5) - 2) * x * v[(i + len(v) // 2) % len(v)]
    return e


class Judge:
    def __init__(self, chk, w, ref, sig, asig, model, label=None, tag="t", scale=1.0, order=None):
        self.chk, self.w, self.ref, self.sig, self.asig, self.model = chk, w, ref, sig, asig, model
        self.occ = None
        self.label, self.tag, self.scale = label, tag, scale
        self.queries = self.applies = 0
        self.pending = None
        cbs.Recorder.on_compute = self.compute
        cbs.Recorder.on_apply = self.apply

    def expected_changes(self, occ, nxt, pair):
        a, b = self.ref(occ), self.ref(nxt)
        return {i: (a[i], b[i]) for i in range(len(a)) if not (a[i] == b[i])}

    def check_changes(self, changes, occ, pair, what):
        chk, w = self.chk, self.w
        chk.expect(w.direction(occ, pair) != 0, what + ": a hop that is not possible was passed on", occ=occ, pair=pair)
        nxt = w.hop(occ, pair)
        want = self.expected_changes(occ, nxt, pair)
        got = {int(c.external_site): (c.old_value, c.new_value) for c in changes}
        ok = len(got) == len(changes) and set(got) == set(want) and all(same(got[k], want[k]) for k in got)
        chk.expect(ok, what + ": reported changes are not the mapped changes of the hop", occ=occ, pair=pair, got=got, want=want)
        for c in changes:
            s = int(c.kmcpy_site)
            chk.expect((int(c.old_state), int(c.new_state)) == (occ[s], nxt[s]), what + ": reported kMCpy states are wrong",
                       occ=occ, pair=pair, site=s, got=(c.old_state, c.new_state), want=(occ[s], nxt[s]))
            chk.expect(c.as_flip()[0] == c.external_site and c.as_flip()[1] == c.new_value
                       and tuple(c.as_system_change_tuple()) == (c.external_site, c.old_value, c.new_value), what + ": change tuples disagree")
        return nxt

    def compute(self, **kw):
        chk, w = self.chk, self.w
        self.queries += 1
        chk.expect(set(kw) >= (self.sig - {"scale"}) , "compute callback did not receive its arguments", got=sorted(kw), want=sorted(self.sig))
        occ = self.occ
        if occ is None:  # identify the current occupation from the state itself
            occ = tuple(int(x) for x in kw["simulation_state"].occupations)
        if "runtime" in kw and self.label is not None:
            chk.expect(getattr(kw["runtime"], "label", None) == self.label, "compute callback got another runtime")
        if "scale" in kw:
            chk.expect(kw["scale"] == self.scale, "compute keyword argument lost", got=kw["scale"])
        if "simulation_state" in kw:
            chk.expect(tuple(int(x) for x in kw["simulation_state"].occupations) == occ, "query during another occupation",
                       got=list(kw["simulation_state"].occupations), want=occ)
        if kw.get("external_occupation") is not None:
            chk.expect(same(kw["external_occupation"], self.ref(occ)), "external occupation differs from the mapped current occupation at a query",
                       occ=occ, got=list(kw["external_occupation"]), want=self.ref(occ))
        else:
            chk.expect(same(self.model.external_occupation, self.ref(occ)), "external occupation differs from the mapped current occupation at a query",
                       occ=occ, got=list(self.model.external_occupation), want=self.ref(occ))
        pair = tuple(kw["event"].mobile_ion_indices) if "event" in kw else None
        if "changes" in kw:
            if pair is None:
                sites = {int(c.kmcpy_site) for c in kw["changes"]}
                pair = next((p for p in w.pairs if sites <= set(p) and w.direction(occ, p) and
                             set(self.expected_changes(occ, w.hop(occ, p), p)) == {int(c.external_site) for c in kw["changes"]}), None)
                chk.expect(pair is not None, "changes do not belong to any possible hop", occ=occ, changes=[repr(c) for c in kw["changes"]])
            nxt = self.check_changes(kw["changes"], occ, pair, "query")
        else:
            nxt = w.hop(occ, pair)
        return self.scale * (energy(self.ref(nxt)) - energy(self.ref(occ)))

    def apply(self, **kw):
        chk, w = self.chk, self.w
        self.applies += 1
        chk.expect(set(kw) >= (self.asig - {"tag"}), "apply callback did not receive its arguments", got=sorted(kw), want=sorted(self.asig))
        occ = self.occ
        pair = self.pending
        if "tag" in kw:
            chk.expect(kw["tag"] == self.tag, "apply keyword argument lost", got=kw["tag"])
        if "runtime" in kw and self.label is not None:
            chk.expect(getattr(kw["runtime"], "label", None) == self.label, "apply callback got another runtime")
        if pair is None:  # whole run: the hop is identified by the event
            pair = tuple(kw["event"].mobile_ion_indices)
            occ = tuple(int(x) for x in kw["simulation_state"].occupations)
            occ = w.hop(occ, pair)
        nxt = self.check_changes(kw["changes"], occ, pair, "acceptance")
        if "event" in kw:
            chk.expect(tuple(kw["event"].mobile_ion_indices) == pair, "acceptance of another event")
        if "simulation_state" in kw:
            chk.expect(tuple(int(x) for x in kw["simulation_state"].occupations) == nxt, "acceptance before the occupation changed")
        if "external_occupation" in kw:
            chk.expect(same(kw["external_occupation"], self.ref(occ)), "external occupation at acceptance is not the one before the hop",
                       got=list(kw["external_occupation"]), want=self.ref(occ))


def make(w, mname, comp, app, runtime, reload=None, units="meV"):
    kw, ref = maps(w)[mname]
    kw = dict(kw)
    scale = 1.0 if units == "meV" else 0.001
    kw["compute_ref"] = "mc.cbs:" + comp
    if "scale" in SIG[comp]:
        kw["compute_kwargs"] = {"scale": scale}
    if app:
        kw["apply_ref"] = "mc.cbs." + app
        if "tag" in ASIG[app]:
            kw["apply_kwargs"] = {"tag": "T2"}
    if runtime:
        kw["runtime_ref"] = "mc.cbs:RecRuntime"
        kw["runtime_kwargs"] = {"label": "R9"}
    if units != "default":
        kw["units"] = units
    m = SiteEnergyModel(**kw)
    if reload == "dict":
        m = SiteEnergyModel.from_dict(json.loads(json.dumps(m.as_dict())))
    elif reload == "file":
        m.to("se15.json")
        m = SiteEnergyModel.from_file("se15.json")
    elif reload == "composite":
        c = CompositeLCEModel(site_model=m, kra_model=c13.submodels(w)[0])
        c.to("c15.json")
        m = CompositeLCEModel.from_file("c15.json").site_model
    return m, ref, scale


def want_rates(w, ref, occ):
    ea = c13.submodels(w)[2]
    out = []
    for i, p in enumerate(w.pairs):
        if not w.direction(occ, p):
            out.append(0.0)
            continue
        d = energy(ref(w.hop(occ, p))) - energy(ref(occ))
        out.append(1e12 * math.exp(-(ea(tuple(occ[s] for s in w.envs[i])) + d / 2) / (KB * 600.0)))
    return out


def walk(chk, w, mk, start):
    model, ref, scale = mk()
    j = Judge(chk, w, ref, SIG[model.compute_ref.split(":")[-1]], ASIG.get((model.apply_ref or "").split(".")[-1], set()), model,
              label="R9" if model.runtime_ref else None, tag="T2", scale=scale)
    j.occ = start
    has_apply = model.apply_ref is not None
    comp = CompositeLCEModel(site_model=model, kra_model=c13.submodels(w)[0])
    kmc = w.kmc(comp, start)
    chk.trace()

    def at(occ, what):
        chk.expect(same(model.external_occupation, ref(occ)), what + ": external occupation differs from the mapped occupation",
                   occ=occ, got=list(model.external_occupation), want=ref(occ))
        check_rates(chk, kmc, want_rates(w, ref, occ), what, occ=occ)

    def move(occ, i):
        p = w.pairs[i]
        nxt = w.hop(occ, p)
        n0 = j.applies
        j.pending = p
        q0 = j.occ

        # queries made inside update() belong to the new occupation
        old_apply = j.apply

        def apply(**kw):
            old_apply(**kw)
            j.occ = nxt
        cbs.Recorder.on_apply = apply
        if not has_apply or not j.expected_changes(occ, nxt, p):
            j.occ = nxt
        kmc.update(kmc.event_lib.events[i], 1.0)
        cbs.Recorder.on_apply = j.apply
        j.occ = nxt
        if has_apply and j.expected_changes(occ, nxt, p):
            chk.expect(j.applies == n0 + 1, "an accepted hop was reported %d times to the external model" % (j.applies - n0), occ=occ, event=i)
        chk.step()
        return nxt
    at(start, "initial")
    stack = [(start, iter(range(len(w.pairs))), None)]
    seen = {start}
    chk.state(start)
    hist = []
    while stack:
        occ, it, came = stack[-1]
        moved = False
        for i in it:
            if w.direction(occ, w.pairs[i]) == 0:
                continue
            hist.append(i)
            chk.note(start=start, history=hist[-30:])
            nxt = move(occ, i)
            at(nxt, "after a hop")
            if nxt not in seen:
                seen.add(nxt)
                chk.state(nxt)
                stack.append((nxt, iter(range(len(w.pairs))), i))
                moved = True
                break
            hist.append(i)
            move(nxt, i)
            at(occ, "after hopping back")
        if not moved:
            stack.pop()
            if stack and came is not None:
                hist.append(came)
                move(occ, came)
                at(stack[-1][0], "after backtracking")
    chk.outcome((j.queries > 0, j.applies > 0, len(seen)))
    return seen


def main(chk):
    T = chk.thorough
    worlds = ["ring5", "codes", "swapc", "frame", "block"] + (["hex", "codes3"] if T else [])
    chk.bounds = dict(worlds=worlds, mappings=sorted(maps(World.get("codes"))), signatures=sorted(SIG) + sorted(ASIG), reload=["none", "dict", "file", "composite"],
                      histories="every edge of the state graph on one live simulator; every draw choice of complete runs to depth %d" % (5 if T else 4))
    names = list(maps(World.get("ring5")))
    sigs = list(SIG)
    asigs = [None] + list(ASIG)
    for wi, wn in enumerate(worlds):
        w = World.get(wn)
        for k, mname in enumerate(names):
            combos = [(sigs[(k + wi) % len(sigs)], asigs[(k + wi) % len(asigs)], (k + wi) % 2 == 0, [None, "dict", "file", "composite"][(k + 2 * wi) % 4],
                       "meV" if (k + wi) % 3 else "eV")]
            if T:
                combos = [(s, a, r, l, "meV") for s in sigs for a in asigs for r in (True,) for l in (None, "file")]
            for comp, app, rt, rel, units in combos:
                if rel and mname == "array":
                    pass
                with chk.scenario("walk/%s/%s/%s/%s/%s" % (wn, mname, comp, app, rel)) as on:
                    if not on:
                        continue
                    if "scale" not in SIG[comp]:
                        units = "meV"
                    done = set()
                    for occ in w.occupations():
                        if occ not in done and any(w.direction(occ, p) for p in w.pairs):
                            done |= walk(chk, w, lambda: make(w, mname, comp, app, rt, rel, units), occ)
                    chk.sample(dict(world=wn, mapping=mname, compute=comp, apply=app, reload=rel))
    # every signature on one world (quick covers all of them at least here)
    for comp, app, rel in itertools.product(SIG, asigs, (None, "file")):
        with chk.scenario("signature/%s/%s/%s" % (comp, app, rel)) as on:
            if on:
                w = World.get("swapc" if app else "ring5")
                occ = (0, 1, 1, 0, 1, 0) if app else (0, 1, 0, 1, 1)
                walk(chk, w, lambda: make(w, "per_site_list" if rel else "spread", comp, app, True, rel), occ)
    # complete runs, all choices of the first events
    for wn, mname in (("ring5", "symbols"), ("codes", "mixed"), ("swapc", "spread")):
        with chk.scenario("run/%s/%s" % (wn, mname)) as on:
            if not on:
                continue
            w = World.get(wn)
            depth = 5 if T else 4
            start = {"ring5": (0, 1, 1, 0, 1), "swapc": (0, 1, 1, 0, 1, 0)}.get(wn)
            if start not in set(tuple(o) for o in w.occupations()) or not any(w.direction(start, p) for p in w.pairs):
                start = next(o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs))
            model, ref, scale = make(w, mname, "rec_compute", "rec_apply", True)
            j = Judge(chk, w, ref, SIG["rec_compute"], ASIG["rec_apply"], model, label="R9", tag="T2", scale=scale)
            comp = CompositeLCEModel(site_model=model, kra_model=c13.submodels(w)[0])
            plen = w.pass_length()

            def rec(us, occ):
                if len(us) == 2 * depth:
                    kmc = w.kmc(comp, start, equilibration_passes=1, kmc_passes=1)
                    d0 = os.getcwd()
                    with patched_rng(tape(us + [0.37, U_E] * (2 * plen - depth if 2 * plen > depth else 0))):
                        kmc.run(label="r15")
                    fin = tuple(int(x) for x in kmc.simulation_state.occupations)
                    chk.expect(same(model.external_occupation, ref(fin)), "external occupation differs after a complete run", us=us, final=fin,
                               got=list(model.external_occupation), want=ref(fin))
                    chk.trace()
                    chk.state(tuple(us))
                    chk.step(2 * plen)
                    return
                r = want_rates(w, ref, occ)
                tot = math.fsum(r)
                c = 0.0
                for i, x in enumerate(r):
                    if x > 0:
                        rec(us + [(c + x / 2) / tot, U_E], w.hop(occ, w.pairs[i]))
                    c += x
            rec([], start)
    defects(chk, T)
    values(chk)


class PassAll(SiteEnergyModel):
    def initialize_state(self, **kw):
        super().initialize_state(**kw)


class PassRest(SiteEnergyModel):
    def initialize_state(self, simulation_state, **rest):
        super().initialize_state(simulation_state=simulation_state, **rest)


class CompositeRest(CompositeLCEModel):
    def initialize_state(self, *, simulation_state, **rest):
        super().initialize_state(simulation_state=simulation_state, **rest)


def attach(w, occ, cls=SiteEnergyModel, top=CompositeLCEModel, **kw):
    kw.setdefault("compute_fn", lambda changes: 0.0)
    m = cls(**kw)
    return m, w.kmc(top(site_model=m, kra_model=c13.submodels(w)[0]), occ)


def defects(chk, T):
    for wn in ("ring5", "codes", "swapc") + (("frame", "block") if T else ()):
        with chk.scenario("reject-sites/" + wn) as on:
            if not on:
                continue
            w = World.get(wn)
            n = w.n
            occ = next(o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs))
            attach(w, occ, site_mapping=list(range(n))[::-1])
            for i in range(n):
                full = {k: n - 1 - k for k in range(n)}
                bad = dict(full)
                del bad[i]
                chk.raises(lambda: attach(w, occ, site_mapping=bad), "a mapping that misses an active site was accepted", missing=i)
                chk.raises(lambda: attach(w, occ, site_mapping=dict(bad), external_size=2 * n), "a mapping that misses an active site was accepted", missing=i)
                for v in (-1, -n):
                    chk.raises(lambda: attach(w, occ, site_mapping=dict(full, **{}) | {i: v}, external_size=n + 1), "a negative external site was accepted", site=i, value=v)
                for size in range(n - i):
                    # sites mapped beyond the external occupation
                    chk.raises(lambda: attach(w, occ, site_mapping=full, external_size=size), "external sites outside the occupation were accepted", size=size)
                    chk.raises(lambda: attach(w, occ, site_mapping=full, initial_occupation=[0] * size), "external sites outside the initial occupation were accepted", size=size)
                chk.raises(lambda: attach(w, occ, site_mapping=full | {i: n + 3}, initial_occupation=[0] * (n + 3)), "an external site outside the initial occupation was accepted", site=i)
                for j in range(n):
                    if j != i:
                        chk.raises(lambda: attach(w, occ, site_mapping=full | {i: full[j]}), "two active sites sharing an external site were accepted", sites=(i, j))
                        chk.state(("dup", i, j))
                    chk.step()
            chk.raises(lambda: attach(w, occ, site_mapping=list(range(n - 1))), "a short mapping was accepted")
        with chk.scenario("reject-states/" + wn) as on:
            if not on:
                continue
            w = World.get(wn)
            k = max(map(len, w.allowed))
            for mode in ("global", "per_site", "gap"):
                for miss_site in (range(w.n) if mode == "per_site" else [None]):
                    for miss in range(k):
                        if mode == "per_site" and miss >= len(w.allowed[miss_site]):
                            continue
                        if mode == "per_site":
                            kw = dict(state_mapping_by_site={i: {s: 10 * i + s for s in range(len(a)) if (i, s) != (miss_site, miss)} for i, a in enumerate(w.allowed)})
                        elif mode == "gap":
                            kw = dict(state_mapping={s: 5 + s for s in range(-1, k + 1) if s != miss})
                        else:
                            kw = dict(state_mapping={s: 5 + s for s in range(k) if s != miss})

                        def needs(o):
                            return any(o[i] == miss and (miss_site in (None, i)) for i in range(w.n))
                        for occ in w.occupations():
                            dirs = [i for i, p in enumerate(w.pairs) if w.direction(occ, p)]
                            if not dirs:
                                continue
                            chk.step()
                            st = State(occupations=list(occ))
                            m = SiteEnergyModel(compute_fn=lambda changes: 0.0, **kw)
                            if needs(occ):
                                chk.raises(lambda: m.initialize_state(simulation_state=st), "an occupation the state mapping does not cover was accepted", mode=mode, missing=miss, site=miss_site, occ=occ)
                                continue
                            m.initialize_state(simulation_state=st)
                            evs = w.events()
                            lk = w.lookup()
                            for i in dirs:
                                lk.annotate_event(evs[i])
                                if needs(w.hop(occ, w.pairs[i])):
                                    chk.raises(lambda: m.compute(event=evs[i], simulation_state=st), "a hop into a state the mapping does not cover was evaluated",
                                               mode=mode, missing=miss, site=miss_site, occ=occ, event=i)
                                else:
                                    m.compute(event=evs[i], simulation_state=st)
                            chk.state((mode, miss_site, miss, occ))
    with chk.scenario("reject-order") as on:
        if on:
            ws = [World.get(x) for x in ("ring5", "codes", "swapc", "frame", "block", "chain3")]
            for a, b in itertools.product(ws, ws):
                occ = next(o for o in a.occupations() if any(a.direction(o, p) for p in a.pairs))
                for form in ("object", "dict", "hash"):
                    kw = {"object": dict(active_site_order=b.order), "dict": dict(active_site_order=json.loads(json.dumps(b.order.as_dict()))),
                          "hash": dict(active_site_order_hash=b.order.fingerprint)}[form]
                    chk.step()
                    if a is b:
                        m, kmc = attach(a, occ, **kw)
                        chk.expect(m.active_site_order_hash == a.order.fingerprint, "active-site order not recorded")
                        for cls, top in itertools.product((SiteEnergyModel, PassAll, PassRest), (CompositeLCEModel, CompositeRest)):
                            m, kmc = attach(a, occ, cls, top, **kw)
                            chk.expect(m.active_site_order_hash == a.order.fingerprint, "active-site order not recorded by a subclass")
                    else:
                        for cls, top in itertools.product((SiteEnergyModel, PassAll, PassRest), (CompositeLCEModel, CompositeRest)):
                            chk.raises(lambda: attach(a, occ, cls, top, **kw), "a subclassed model built for another active-site order was attached",
                                       simulation=a.name, model=b.name, form=form, cls=cls.__name__, top=top.__name__)
                        chk.raises(lambda: attach(a, occ, **kw), "a model built for another active-site order was attached", simulation=a.name, model=b.name, form=form)
                    if a is not b:
                        chk.raises(lambda: SiteEnergyModel(compute_fn=lambda: 0.0, active_site_order=a.order, active_site_order_hash=b.order.fingerprint),
                                   "contradictory active-site order accepted")
                # attaching to one simulation then to another with a different order
                if a is not b:
                    m, _ = attach(a, occ)
                    o2 = next(o for o in b.occupations() if any(b.direction(o, p) for p in b.pairs))
                    chk.raises(lambda: b.kmc(CompositeLCEModel(site_model=m, kra_model=c13.submodels(b)[0]), o2), "a model bound to one order was reused with another", first=a.name, second=b.name)
                chk.state((a.name, b.name))
    with chk.scenario("reject-files") as on:
        if on:
            w = World.get("ring5")
            for mname, (kw, ref) in maps(w).items():
                m = SiteEnergyModel(compute_ref="mc.cbs:rec_compute", **kw)
                d = json.loads(json.dumps(m.as_dict()))
                SiteEnergyModel.from_dict(copy.deepcopy(d))
                muts = []
                if d.get("site_mapping"):
                    ks = list(d["site_mapping"])
                    x = copy.deepcopy(d)
                    x["site_mapping"][ks[0]], x["site_mapping"][ks[1]] = x["site_mapping"][ks[1]], x["site_mapping"][ks[0]]
                    muts.append(x)
                    x = copy.deepcopy(d)
                    x["site_mapping"] = None
                    muts.append(x)
                else:
                    x = copy.deepcopy(d)
                    x["site_mapping"] = {str(i): w.n - 1 - i for i in range(w.n)}
                    muts.append(x)
                x = copy.deepcopy(d)
                x["external_size"] = 99
                muts.append(x)
                if d.get("initial_occupation"):
                    x = copy.deepcopy(d)
                    x["initial_occupation"] = x["initial_occupation"] + [0]
                    muts.append(x)
                for x in muts:
                    chk.raises(lambda: SiteEnergyModel.from_dict(x), "a file whose site mapping does not match its recorded external order was accepted", mapping=mname)
                    chk.step()
                chk.state(mname)


def values(chk):
    with chk.scenario("units-and-values") as on:
        if on:
            w = World.get("ring5")
            occ = (0, 1, 0, 1, 1)
            st = State(occupations=list(occ))
            evs = w.events()
            lk = w.lookup()
            for e in evs:
                lk.annotate_event(e)
            for u, f in (("eV", 1000.0), ("meV", 1.0), ("EV", 1000.0), ("mev", 1.0), (None, 1000.0), (" eV ", 1000.0)):
                for val in (0, 1, -2, 0.25, np.float64(0.5), np.int64(3), np.float32(0.5)):
                    m = SiteEnergyModel(compute_fn=lambda changes: val, **({} if u is None else dict(units=u)))
                    for i, e in enumerate(evs):
                        if w.direction(occ, w.pairs[i]):
                            chk.close(m.compute(event=e, simulation_state=st), float(val) * f, "energy unit conversion is wrong", units=u, value=float(val))
                            chk.step()
                    chk.state((u, float(val)))
            for u in ("K", "J", "kcal", "", "me V"):
                chk.raises(lambda: SiteEnergyModel(compute_fn=lambda: 0.0, units=u), "unknown energy unit accepted", units=u)
            ev = next(e for i, e in enumerate(evs) if w.direction(occ, w.pairs[i]))
            for bad in (None, "1.0", True, [1.0], {}, np.array([1.0, 2.0])):
                m = SiteEnergyModel(compute_fn=lambda changes: bad, units="meV")
                chk.raises(lambda: m.compute(event=ev, simulation_state=st), "a non-numeric energy was accepted", value=repr(bad))
            m = SiteEnergyModel(compute_fn=lambda changes: 0.0, compute_kwargs={"foo": 1})
            chk.raises(lambda: m.compute(event=ev, simulation_state=st), "unknown compute keyword silently dropped")
            m = SiteEnergyModel()
            chk.raises(lambda: m.compute(event=ev, simulation_state=st), "a model without energy function returned an energy")
            for r in ("nomodule_x:fn", "mc.cbs:missing", "mc.cbs:not_callable", "plain"):
                m = SiteEnergyModel(compute_ref=r)
                chk.raises(lambda: m.compute(event=ev, simulation_state=st), "an unusable reference was accepted", ref=r)
            # a model reused for another start sees the new occupation only
            seen = []
            m = SiteEnergyModel(compute_fn=lambda external_occupation: seen.append(list(external_occupation)) or 0.0, units="meV")
            for o in w.occupations():
                if any(w.direction(o, p) for p in w.pairs):
                    del seen[:]
                    w.kmc(CompositeLCEModel(site_model=m, kra_model=c13.submodels(w)[0]), o)
                    chk.expect(seen and all(same(s, o) for s in seen), "a reused model kept the occupation of an earlier simulation", occ=o, got=seen[:2])
                    chk.state(o)
