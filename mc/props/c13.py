"""C13: composite-model rates are Arrhenius with the signed site-energy difference; detailed balance on every edge.

Exhaustive over all occupations x events of small closed worlds x site-energy sources x (T, attempt frequency).
Oracle: rate = v exp(-(E_KRA + dE/2)/kT), E_KRA from an independent cluster-expansion evaluation, dE = E(after)-E(before)
from an independent state function (or direction * LCE value), 0 for a hop that is not possible.  Each edge of the
state graph is also checked against its reverse.  Reloaded models must give the same rates.
"""
import itertools
import json
import math

from kmcpy.models import CompositeLCEModel, LocalBarrierModel
from kmcpy.models.base import BaseModel
from kmcpy.models.parameters import LCEModelParameters
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.simulator.state import State
from mc import cbs, lce_ref, models_ref
from mc.drv import KB, World, check_rates

_C = {}
E0, E1 = 250.123456789012, -0.0123456789012345


def submodels(w):
    key = w.name
    if key not in _C:
        n = len(w.envs[0])
        k = max(map(len, w.allowed))
        a, b = models_ref.lce(w, 0, n_env=n), models_ref.lce(w, 3, n_env=n)
        for m, c in ((a, E0), (b, E1)):
            m.set_parameters(dict(keci=list(m.keci), empty_cluster=c, orbit_fingerprints=m.get_orbit_fingerprints(), local_environment_hash=m.local_environment_hash))
        cut = (20.0, 20.0, 20.0)
        ra, rb = lce_ref.of_model(a, [k] * n, cut), lce_ref.of_model(b, [k] * n, cut)
        ka = [25.0 * math.sin(1.0 + 1.7 * i) for i in range(len(ra.features))]
        kb = [25.0 * math.sin(1.0 + 1.7 * i + 3) for i in range(len(rb.features))]
        memo = {}

        def ea(o):
            if ("a", o) not in memo:
                memo[("a", o)] = ra.energy(o, ka, E0)
            return memo[("a", o)]

        def eb(o):
            if ("b", o) not in memo:
                memo[("b", o)] = rb.energy(o, kb, E1)
            return memo[("b", o)]
        _C[key] = (a, b, ea, eb)
    return _C[key]


class Source:
    """one site-energy source: how to build it and its reference energy change"""

    def __init__(self, w, kind):
        self.w, self.kind = w, kind
        self.a, self.b, self.ea, self.eb = submodels(w)
        self.kw = None
        n = w.n
        if kind == "ext_mev":
            self.kw = dict(compute_ref="mc.cbs:ext_delta", units="meV")
            self.ext = lambda occ: [int(x) for x in occ]
            self.unit = 1.0
        elif kind == "ext_ev":
            self.kw = dict(compute_ref="mc.cbs.ext_delta", compute_kwargs={"scale": 0.001})
            self.ext = lambda occ: [int(x) for x in occ]
            self.unit = 1.0
        elif kind == "ext_map":
            perm = [(3 * i + 1) % n if n % 3 else (i + 1) % n for i in range(n)]
            perm = [p + 1 for p in perm]
            by = {i: {k: s for k, s in enumerate(al)} for i, al in enumerate(w.allowed)}
            self.kw = dict(compute_ref="mc.cbs:ext_delta", units="meV", site_mapping=perm, external_size=n + 2,
                           external_fill_value="Si", state_mapping_by_site=by, compute_kwargs={"scale": 1.0})

            def ext(occ):
                o = ["Si"] * (n + 2)
                for i, x in enumerate(occ):
                    o[perm[i]] = w.allowed[i][x]
                return o
            self.ext = ext
            self.unit = 1.0
        elif kind == "ext_float":
            m = {k: 0.25 * k * k - 0.75 for k in range(max(map(len, w.allowed)))}
            self.kw = dict(compute_ref="mc.cbs:ext_delta", units="EV", compute_kwargs={"scale": 0.001}, state_mapping=m)
            self.ext = lambda occ: [m[int(x)] for x in occ]
            self.unit = 1.0

    def model(self):
        k = self.kind
        if k == "none":
            return CompositeLCEModel(kra_model=self.a)
        if k == "lce":
            return CompositeLCEModel(site_model=self.b, kra_model=self.a)
        if k == "plain":
            return CompositeLCEModel(site_model=cbs.PlainSite(1.5), kra_model=self.a)
        return CompositeLCEModel(site_model=SiteEnergyModel(**self.kw), kra_model=self.a)

    def state_function(self):
        return self.kind not in ("lce",)

    def energy(self, occ):
        if self.kind == "none":
            return 0.0
        if self.kind == "plain":
            return 1.5 * cbs.ext_energy(occ)
        return cbs.ext_energy(self.ext(occ))

    def delta(self, occ, i):
        w = self.w
        d = w.direction(occ, w.pairs[i])
        if self.kind == "lce":
            return d * self.eb(tuple(occ[s] for s in w.envs[i]))
        return self.energy(w.hop(occ, w.pairs[i])) - self.energy(occ)

    def rate(self, occ, i, T, v):
        w = self.w
        if w.direction(occ, w.pairs[i]) == 0:
            return 0.0
        e = self.ea(tuple(occ[s] for s in w.envs[i])) + self.delta(occ, i) / 2
        x = -e / (KB * T)
        return v * math.exp(x) if abs(x) < 690 else None    # beyond what a double holds: not judged


def start(model, occ, order=None):
    st = State(occupations=list(occ))
    model.initialize_state(simulation_state=st)
    return st


def reloads(src, cfg):
    m = src.model()
    d = json.loads(json.dumps(m.as_dict()))
    yield "from_dict", CompositeLCEModel.from_dict(d)
    m.to("m13.json")
    yield "from_file", CompositeLCEModel.from_file("m13.json")
    yield "from_config", BaseModel.from_config(cfg(model_file="m13.json"))
    m.to("m13.json.gz")
    yield "gz", CompositeLCEModel.from_file("m13.json.gz")
    r = CompositeLCEModel.from_file("m13.json")
    r.to("m13b.json", indent=None)
    yield "twice", CompositeLCEModel.from_file("m13b.json")


def main(chk):
    T_ = chk.thorough
    worlds = ["ring5", "swapc", "codes", "block", "hex", "frame", "square32"] + (["codes3", "square", "skew2", "tric"] if T_ else [])
    kinds = ["none", "lce", "plain", "ext_mev", "ext_ev", "ext_map", "ext_float"]
    tv = [(298.0, 5.0e12), (600.0, 1.0e13), (1000.0, 1.0), (50.0, 3.0e9), (12.0, 2.0e12), (8000.0, 1.0e13)]
    chk.bounds = dict(worlds=worlds, sources=kinds, temperature_frequency=tv, occupations="all", events="all",
                      simulator="all occupations, every hop")
    worlds = [n for n in worlds if len(set(map(len, World.get(n).envs))) == 1]
    for wn in worlds:
        for kind in kinds:
            with chk.scenario("rates/%s/%s" % (wn, kind)) as on:
                if not on:
                    continue
                w = World.get(wn)
                if kind == "ext_map" and any(s not in cbs.NUM for a in w.allowed for s in a):
                    continue
                src = Source(w, kind)
                evs = w.events()
                lk = w.lookup()
                for e in evs:
                    lk.annotate_event(e)
                rcs = [w.config(temperature=t, attempt_frequency=v).runtime_config for t, v in tv]
                model = src.model()
                for occ in w.occupations():
                    st = start(model, occ)
                    chk.state(occ)
                    for i, e in enumerate(evs):
                        d = w.direction(occ, w.pairs[i])
                        chk.step()
                        for (t, v), rc in zip(tv, rcs):
                            if d == 0 and t != 600.0:
                                continue
                            want = src.rate(occ, i, t, v)
                            if want is None:
                                continue
                            got = float(model.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                            chk.close(got, want, "rate differs from v*exp(-(E_KRA+dE/2)/kT)", rel=1e-9, occ=occ, event=i,
                                      direction=d, T=t, v=v)
                    chk.expect([int(x) for x in st.occupations] == list(occ), "evaluating rates changed the occupation", occ=occ)
                    chk.outcome((kind, wn, sum(w.direction(occ, p) != 0 for p in w.pairs)))
                chk.sample(dict(world=wn, source=kind, events=len(evs)))
            with chk.scenario("balance/%s/%s" % (wn, kind)) as on:
                if not on:
                    continue
                w = World.get(wn)
                if kind == "ext_map" and any(s not in cbs.NUM for a in w.allowed for s in a):
                    continue
                src = Source(w, kind)
                evs = w.events()
                lk = w.lookup()
                for e in evs:
                    lk.annotate_event(e)
                rc = w.config(temperature=600.0, attempt_frequency=1e13).runtime_config
                model = src.model()
                rates = {}
                for occ in w.occupations():
                    st = start(model, occ)
                    rates[occ] = [float(model.compute_probability(event=e, runtime_config=rc, simulation_state=st)) for e in evs]
                for occ in rates:
                    for i, p in enumerate(w.pairs):
                        if not w.direction(occ, p):
                            continue
                        chk.step()
                        nxt = w.hop(occ, p)
                        f, b = rates[occ][i], rates[nxt][i]
                        chk.expect(f > 0 and b > 0, "a possible hop has no rate", occ=occ, event=i, forward=f, backward=b)
                        kf, kb = (src.ea(tuple(o[s] for s in w.envs[i])) for o in (occ, nxt))
                        if abs(kf - kb) > 1e-12:
                            continue  # KRA environment includes the endpoints: no reverse symmetry claimed
                        dE = src.delta(occ, i)
                        chk.close(math.log(f / b), -dE / (KB * 600.0), "forward/backward rates violate detailed balance",
                                  rel=1e-8, abs_=1e-8, occ=occ, event=i)
                        chk.close(math.log(f * b / 1e26) * KB * 600.0 / -2.0, kf, "E_KRA differs between the two directions",
                                  rel=1e-8, abs_=1e-6, occ=occ, event=i)
                        chk.state((occ, i))
    for wn in ["ring5", "codes", "swapc", "block"] + (["frame", "hex"] if T_ else []):
        for kind in kinds:
            with chk.scenario("reload/%s/%s" % (wn, kind)) as on:
                if not on:
                    continue
                w = World.get(wn)
                src = Source(w, kind)
                evs = w.events()
                lk = w.lookup()
                for e in evs:
                    lk.annotate_event(e)
                rc = w.config(temperature=450.0, attempt_frequency=2e12).runtime_config
                for via, m in reloads(src, w.config):
                    chk.trace()
                    for occ in w.occupations():
                        st = start(m, occ)
                        chk.state((via, occ))
                        for i, e in enumerate(evs):
                            got = float(m.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                            chk.close(got, src.rate(occ, i, 450.0, 2e12), "reloaded model gives another rate", rel=1e-9,
                                      via=via, occ=occ, event=i)
                            chk.step()
    for wn in ["ring5", "codes", "swapc", "block", "hex"] + (["frame", "square32"] if T_ else []):
        for kind in kinds:
            with chk.scenario("simulator/%s/%s" % (wn, kind)) as on:
                if not on:
                    continue
                w = World.get(wn)
                src = Source(w, kind)

                def want(o):
                    return [src.rate(o, i, 600.0, 1e12) for i in range(len(w.pairs))]
                for occ in w.occupations():
                    if not any(w.direction(occ, p) for p in w.pairs):
                        continue
                    kmc = w.kmc(src.model(), occ)
                    check_rates(chk, kmc, want(occ), "initial rates in the simulator", occ=occ)
                    chk.state(occ)
                    for i, p in enumerate(w.pairs):
                        if w.direction(occ, p):
                            nxt = w.hop(occ, p)
                            kmc.update(kmc.event_lib.events[i], 1.0)
                            check_rates(chk, kmc, want(nxt), "rates after a hop", occ=nxt, event=i)
                            kmc.update(kmc.event_lib.events[i], 1.0)
                            check_rates(chk, kmc, want(occ), "rates after hopping back", occ=occ, event=i)
                            chk.step(2)
    reparameterise(chk, ["ring5", "codes"] + (["swapc", "block"] if T_ else []))
    dispatch(chk)


def record(pair):
    return LCEModelParameters(keci=list(pair[0]), empty_cluster=pair[1], cluster_site_indices=[], weight=[1.0], alpha=0.1, time_stamp=1.0,
                              time="t", rmse=0.0, loocv=0.0)


def reparameterise(chk, worlds):
    """every history of parameter changes (depth 3) with evaluations between: rates follow the parameters now set"""
    for wn in worlds:
        with chk.scenario("parameters/" + wn) as on:
            if not on:
                continue
            w = World.get(wn)
            n, k = len(w.envs[0]), max(map(len, w.allowed))
            evs = w.events()
            lk = w.lookup()
            for e in evs:
                lk.annotate_event(e)
            rc = w.config(temperature=450.0, attempt_frequency=2e12).runtime_config
            a, b = models_ref.lce(w, 0, n_env=n), models_ref.lce(w, 3, n_env=n)
            ref = lce_ref.of_model(a, [k] * n, (20.0, 20.0, 20.0))
            nf = len(ref.features)
            sets = [([25.0 * math.sin(1.0 + 1.7 * i + q) for i in range(nf)], 250.0 if q == 0 else 10.0 * (q - 3)) for q in (0, 3, 5)]
            feats = {}
            for occ in w.occupations():
                for i in range(len(evs)):
                    o = tuple(occ[s] for s in w.envs[i])
                    if o not in feats:
                        feats[o] = [ref.energy(o, ke, c) for ke, c in sets]
            ops = [(m, q) for m in ("kra", "site") for q in range(3)]
            for hist in itertools.product(ops, repeat=3 if chk.thorough else 2):
                model = CompositeLCEModel(site_model=b, kra_model=a)
                b.set_parameters(dict(keci=sets[1][0], empty_cluster=sets[1][1]))
                a.set_parameters(dict(keci=sets[0][0], empty_cluster=sets[0][1]))
                cur = {"kra": 0, "site": 1}
                chk.trace()
                for step in [None] + list(hist):
                    if step is not None:
                        m, q = step
                        tgt = a if m == "kra" else b
                        if (hist.index(step) + q) % 2:
                            tgt.set_parameters(record(sets[q]))
                        else:
                            record(sets[q]).to("p13.json")
                            tgt.load_parameters_from_file("p13.json")
                        cur[m] = q
                    for occ in w.occupations():
                        st = start(model, occ)
                        chk.state((tuple(cur.items()), occ))
                        for i, e in enumerate(evs):
                            d = w.direction(occ, w.pairs[i])
                            if d == 0:
                                continue
                            f = feats[tuple(occ[s] for s in w.envs[i])]
                            want = 2e12 * math.exp(-(f[cur["kra"]] + d * f[cur["site"]] / 2) / (KB * 450.0))
                            got = float(model.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                            chk.step()
                            chk.close(got, want, "rate does not follow the parameters now set", rel=1e-9, history=hist, now=dict(cur), occ=occ, event=i)


def dispatch(chk):
    """the configured model file decides which model computes the rates, or is refused"""
    with chk.scenario("dispatch") as on:
        if not on:
            return
        w = World.get("ring5")
        src = Source(w, "lce")
        src.model().to("comp.json")
        LocalBarrierModel.constant_barrier(321.0).to("lbm.json")
        comp = json.load(open("comp.json"))
        evs = w.events()
        lk = w.lookup()
        for e in evs:
            lk.annotate_event(e)
        rc = w.config(temperature=450.0, attempt_frequency=2e12).runtime_config
        lb = json.load(open("lbm.json"))
        flat = 2e12 * math.exp(-321.0 / (KB * 450.0))

        def judge(name, payload, kind, model_type):
            with open(name, "w") as f:
                json.dump(payload, f)
            kw = dict(model_file=name)
            if model_type is not None:
                kw["model_type"] = model_type
            cfg = w.config(**kw)
            if kind is None:
                chk.raises(lambda: BaseModel.from_config(cfg), "an unusable model file was accepted", payload={k: v for k, v in payload.items() if not isinstance(v, (dict, list))}, model_type=model_type)
                chk.trace()
                return
            m = BaseModel.from_config(cfg)
            for occ in w.occupations():
                st = start(m, occ)
                chk.state((name, model_type, occ))
                for i, e in enumerate(evs):
                    got = float(m.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                    want = src.rate(occ, i, 450.0, 2e12) if kind == "comp" else (flat if w.direction(occ, w.pairs[i]) else 0.0)
                    chk.step()
                    chk.close(got, want, "the configured model file is not the model used", rel=1e-9, file=name, model_type=model_type, occ=occ, event=i)
            chk.trace()

        # the file's own declaration wins over the configuration's model_type
        for mt in (None, "composite_lce", "local_barrier"):
            judge("d1.json", comp, "comp", mt)
            judge("d2.json", lb, "lbm", mt)
            judge("d3.json", dict(filetype="kmcpy.model_file", model_type="local_barrier", local_barrier=lb), "lbm", mt)
            moved = dict(lb)
            moved["@module"] = "kmcpy.models.a_module_of_an_older_release"
            judge("d4.json", moved, "lbm", mt)
            judge("d5.json", {k: v for k, v in dict(comp).items() if k != "model_type"}, None, mt)
            judge("d6.json", dict(comp, model_type=""), None, mt)
            judge("d7.json", dict(comp, model_type="unheard_of"), None, mt)
            judge("d8.json", dict(comp, filetype="something.else"), None, mt)
            judge("d9.json", dict(lb, **{"@module": "no.such.module", "@class": "NoSuchModel"}), None, mt)
            judge("d10.json", dict(lb, **{"@module": "math", "@class": "pi"}), None, mt)
        plain = {k: v for k, v in lb.items() if not k.startswith("@")}
        judge("d11.json", plain, "lbm", "local_barrier")
        judge("d12.json", plain, None, "composite_lce")
        judge("d13.json", plain, None, None)
