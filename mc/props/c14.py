"""C14: cluster-expansion energies equal the explicit cluster sums, from states, structures and reloaded models.

Exhaustive over all occupations of a catalogue of local environments x cutoffs x bases x site orders.
Oracle: mc/lce_ref.py, an independent enumeration of clusters, congruence classes and basis products.
"""
import itertools
import json
import math

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.event import Event
from kmcpy.models import LocalClusterExpansion
from kmcpy.models.parameters import LCEModelParameters
from kmcpy.simulator.state import State
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from mc.lce_ref import LceRef

BOX = 40.0
C0 = (20.0, 20.0, 20.0)
E_EMPTY = 3.7123456789012345   # not representable in single precision


def iso(species, rel, mapping, cutoff=8.0, center=None, **kw):
    """isolated environment: coordinates relative to the box centre"""
    s = Structure(Lattice.cubic(BOX), species, [[c + d for c, d in zip(C0, r)] for r in rel], coords_are_cartesian=True)
    return s, dict(center=[0.5, 0.5, 0.5] if center is None else center, cutoff=cutoff, site_mapping=mapping, **kw)


B2 = {"Si": ["Si", "P"]}
B3 = {"Si": ["Si", "P", "Al"]}
NA = {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}

ENV = {
    "square4": lambda: iso(["Si"] * 4, [(2, 0, 0), (0, 2, 0), (-2, 0, 0), (0, -2, 0)], B2),
    "tetra4": lambda: iso(["Si"] * 4, [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)], B2),
    "rect4": lambda: iso(["Si"] * 4, [(2, 1, 0), (-2, 1, 0), (-2, -1, 0), (2, -1, 0)], B2),
    "line5": lambda: iso(["Si"] * 5, [(-4, 0, 0), (-2, 0, 0), (0, 0, 0), (2, 0, 0), (4, 0, 0)], B2),
    "octa6": lambda: iso(["Si"] * 6, [(2, 0, 0), (-2, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 2), (0, 0, -2)], B2),
    "prism6": lambda: iso(["Si"] * 6, [(1.5, 0, 1), (-0.75, 1.299, 1), (-0.75, -1.299, 1),
                                       (1.5, 0, -1), (-0.75, 1.299, -1), (-0.75, -1.299, -1)], B2),
    "generic5": lambda: iso(["Si"] * 5, [(1, 0.2, 0.4), (-1.3, 0.9, 0.1), (0.3, -1.7, 0.8), (0.2, 0.5, -2.1), (2.2, 1.6, -0.7)], B2),
    "near4": lambda: iso(["Si"] * 4, [(0, 0, 0), (2.0, 0, 0), (0, 2.0004, 0), (0, 0, 2.05)], B2),
    # congruent bonds on either side of a rounding boundary
    "edge4": lambda: iso(["Si"] * 4, [(0, 0, 0), (2.00049, 0, 0), (0, 2.00051, 0), (0, 0, 2.3)], B2),
    "mixed6": lambda: iso(["Na", "Si", "Si", "Si", "Na", "O", "Si"],
                          [(0, 0, 1.8), (1.9, 0, 0), (0, 1.9, 0), (-1.9, 0, 0), (0, 0, -1.8), (1, 1, 1), (0, -1.9, 0)], NA),
    "vacfirst": lambda: iso(["Na", "Na", "Si", "Na"], [(0, 0, 2), (2, 0, 0), (0, 2, 0), (-2, 0, 0)],
                            {"Na": ["X", "Na"], "Si": ["P", "Si"]}),
    "tri3_3": lambda: iso(["Si"] * 3, [(1.5, 0, 0), (-0.75, 1.299, 0), (-0.75, -1.299, 0)], B3),
    "mix_23": lambda: iso(["Na", "Si", "Na", "Si"], [(0, 0, 1.5), (2, 0, 0), (0, 0, -1.5), (-2, 0, 0)],
                          {"Na": ["Na", "X"], "Si": ["Si", "P", "Al"]}),
    "four_state": lambda: iso(["Si", "Si", "Na"], [(0, 0, 1.5), (2, 0, 0), (-1, 0.5, 0)],
                              {"Na": ["X", "Na"], "Si": ["Si", "P", "Al", "Ge"]}),
    # centre on a real site, kept or removed
    "center_in": lambda: iso(["Na", "Si", "Si", "Na"], [(0, 0, 0), (2, 0, 0), (-2, 0, 0), (0, 2.4, 0)], NA, center=0),
    "center_out": lambda: iso(["Na", "Si", "Si", "Na"], [(0, 0, 0), (2, 0, 0), (-2, 0, 0), (0, 2.4, 0)], NA, center=0,
                              exclude_center_site=True),
    "nasicon": lambda: iso(["Si", "Na", "Si", "Na", "Na"], [(2, 0.3, 0), (0, 0, 0), (-2, 0.1, 0), (0.4, 2.4, 0), (-0.7, -2.4, 0)], NA,
                           center=1, local_site_order="nasicon_nat_commun_2022"),
    "xyz": lambda: iso(["Si", "Si", "Si", "Si"], [(2, 0, 1), (2, 0, -1), (-2, 0.1, 0), (2, -1, 0)], B2,
                       local_site_order={"name": "c", "sort_keys": ["cartesian_x", "cartesian_y", "cartesian_z"]}),
    # an order of one's own that interleaves the sublattices, and one that drops the centre
    "xyz_mixed": lambda: iso(["Si", "Na", "Si", "Na", "Si"], [(2, 0, 1), (-1, 0.3, -1), (-2, 0.1, 0), (1, -1, 0.5), (0.2, 1.4, 0)], NA,
                             local_site_order={"name": "m", "sort_keys": ["cartesian_x", "cartesian_y"]}),
    "order_out": lambda: iso(["Na", "Si", "Si", "Na"], [(0, 0, 0), (2, 0, 0), (-2, 0, 0), (0, 2.4, 0)], NA, center=0,
                             local_site_order={"name": "o", "sort_keys": ["species_string", "cartesian_x"], "exclude_center_site": True}),
    "order_point": lambda: iso(["Na", "Si", "Si", "Na"], [(0, 0, 0.0004), (2, 0, 0), (-2, 0, 0), (0, 2.4, 0)], NA,
                               local_site_order={"name": "kmcpy_default", "exclude_center_site": True}),
    # periodic images of the same site enter the environment more than once
    "periodic": lambda: (Structure(Lattice.orthorhombic(3.0, 4.0, 20.0), ["Si", "Na"], [[0, 0, 0.5], [0.5, 0.5, 0.5]]),
                         dict(center=[0.5, 0.5, 0.5], cutoff=3.3, site_mapping=NA)),
}
CUTS = [(9.0, 9.0, 9.0), (0.0, 0.0, 0.0), (2.9, 0.0, 0.0), (3.0, 3.0, 0.0), (4.0, 3.0, 2.9), (3.0, 9.0, 0.0)]

_M = {}


def keci_of(n, s=0.0):
    return [17.0 * math.sin(1.3 + 2.1 * i + s) + 0.25 for i in range(n)]


class Env:
    def __init__(self, name, basis="chebyshev"):
        self.name = name
        self.template, kw = ENV[name]()
        self.ll = LocalLatticeStructure(self.template, basis_type=basis, **kw)
        self.kw = kw
        m = kw["site_mapping"]
        # reference environment: every active site image within the cutoff of the centre
        c = kw["center"]
        L = self.template.lattice.matrix
        cc = self.template[c].coords if isinstance(c, int) else np.array(c) @ L
        order = kw.get("local_site_order")
        excl = kw.get("exclude_center_site") or order == "nasicon_nat_commun_2022" or (isinstance(order, dict) and order.get("exclude_center_site"))
        self.active = [i for i, s in enumerate(self.template) if isinstance(m[s.species_string], list) and len(m[s.species_string]) > 1]
        sites = []
        for k, i in enumerate(self.active):
            for im in itertools.product((-2, -1, 0, 1, 2), repeat=3):
                x = (self.template[i].frac_coords + np.array(im)) @ L - cc
                r = np.linalg.norm(x)
                if r <= kw["cutoff"] and not (excl and r < 1e-3):
                    sites.append((self.template[i].species_string, tuple(round(float(v), 5) + 0.0 for v in x), k))
        self.sites = sites
        self.allowed = [m[self.template[i].species_string] for i in self.active]

    def check_env(self, chk):
        """the environment contains exactly the active sites in range, ordered by its own sort keys"""
        got = [(s.species_string, tuple(round(float(v), 5) + 0.0 for v in s.coords), int(i))
               for s, i in zip(self.ll.structure, self.ll.site_indices)]
        chk.expect(sorted(got) == sorted(self.sites), "local environment is not the set of active sites within the cutoff",
                   env=self.name, got=got, want=self.sites)
        keys = {"nasicon": lambda g: ({"Na": 0.93, "Si": 1.9}[g[0]], g[1][0]),
                "xyz": lambda g: g[1], "xyz_mixed": lambda g: g[1][:2], "order_out": lambda g: (g[0], g[1][0])}.get(self.name, lambda g: g[0])
        ks = [keys(g) for g in got]
        chk.expect(ks == sorted(ks), "local environment is not in its declared order", env=self.name, got=got)
        self.order = got

    def counts(self):
        return [len(self.allowed[k]) for _, _, k in self.order]

    def ref(self, cut, basis="chebyshev"):
        return LceRef([g[0] for g in self.order], [list(s.coords) for s in self.ll.structure], self.counts(), cut, basis)

    def occs(self):
        """all occupations of the template's active sites"""
        return itertools.product(*(range(len(a)) for a in self.allowed))

    def local(self, occ):
        return tuple(occ[k] for _, _, k in self.order)

    def structure(self, occ, shuffle=0, shift=0.0):
        """full structure with fixed species, vacancies absent"""
        L = self.template.lattice
        items = []
        k = 0
        for i, s in enumerate(self.template):
            if i in self.active:
                sp = self.allowed[k][occ[k]]
                k += 1
            else:
                sp = s.species_string
            if sp == "X":
                continue
            items.append((sp, s.frac_coords + np.array(L.get_fractional_coords([shift * ((i % 3) - 1), shift * ((i % 2) * 2 - 1) / 2, 0.0]))))
        n = len(items)
        idx = list(range(n))
        if shuffle:
            idx = [i for i in range(n) if i % 2] + [i for i in range(n) if i % 2 == 0][::-1]
        if not items:
            return None
        return Structure(L, [items[i][0] for i in idx], [items[i][1] for i in idx])


def build(env, cut):
    m = LocalClusterExpansion()
    m.build(env.ll, cutoff_cluster=list(cut))
    return m


def params(m, keci, empty, **kw):
    d = dict(keci=keci, empty_cluster=empty, orbit_fingerprints=m.get_orbit_fingerprints(), local_environment_hash=m.local_environment_hash)
    d.update(kw)
    return d


def record(d):
    return LCEModelParameters(**dict(dict(cluster_site_indices=[], weight=[1.0], alpha=1.0, time_stamp=1.0, time="t", rmse=0.0, loocv=0.0), **d))


def state_event(local, variant):
    """several embeddings of a local occupation in a larger state"""
    n = len(local)
    if variant == 0:
        return State(occupations=list(local)), Event(mobile_ion_indices=(0, 1), local_env_indices=tuple(range(n)))
    # reversed placement, interleaved with unrelated sites
    size = 2 * n + 3
    occ = [1] * size
    idx = [2 * (n - 1 - i) + 1 for i in range(n)]
    for i, x in zip(idx, local):
        occ[i] = x
    return State(occupations=occ), Event(mobile_ion_indices=(0, 2), local_env_indices=tuple(idx))


LARGE = {
    # cube + centre + two caps: 11 sites of two sublattices
    "cube11": lambda: iso(["Na"] + ["Si"] * 8 + ["Na"] * 2, [(0, 0, 0)] + [(a, b, c) for a in (1.6, -1.6) for b in (1.6, -1.6) for c in (1.6, -1.6)]
                          + [(0, 0, 2.9), (0, 0, -2.9)], NA),
    "ring10": lambda: iso(["Si"] * 10, [(3 * math.cos(math.pi * k / 5), 3 * math.sin(math.pi * k / 5), 0.2 * (k % 2)) for k in range(10)], B2),
    "line9": lambda: iso(["Na", "Si", "Si"] * 3, [(1.5 * k - 6, 0.1 * (k % 2), 0) for k in range(9)], NA),
}


def large_envs(chk, T):
    """environments with more sites, where the number of clusters of every size grows: cluster classes and energies of all
    occupations with at most three (thorough: all) sites away from the first state, and their complements"""
    for name, mk in LARGE.items():
        ENV[name] = mk
        try:
            env = Env(name)
        finally:
            del ENV[name]
        env.check_env(chk)
        n = len(env.order)
        for cut in ((9.0, 9.0, 9.0), (3.5, 3.5, 3.5), (9.0, 0.0, 4.0)) if not T else ((9.0, 9.0, 9.0), (3.5, 3.5, 3.5), (9.0, 0.0, 4.0), (0.0, 0.0, 9.0), (0.0, 5.0, 0.0)):
            m = build(env, cut)
            ref = env.ref(cut)
            chk.note(env=name, cut=cut)
            part = sorted(tuple(sorted(tuple(sorted(int(i) for i in c)) for c in o.cluster_site_indices)) for o in m.orbits)
            chk.equal(part, sorted(tuple(sorted(o)) for o in ref.orbits), "orbits are not the congruence classes of clusters within the cutoffs")
            for o in m.orbits:
                chk.equal(int(o.multiplicity), len(o.cluster_site_indices), "an orbit's multiplicity is not its number of clusters")
            keci = keci_of(len(m.get_orbit_fingerprints()))
            chk.equal(len(keci), len(ref.features), "one feature per orbit expected")
            m.set_parameters(params(m, keci, -2.5))
            re1 = LocalClusterExpansion.from_dict(json.loads(json.dumps(m.as_dict())))
            re1.set_parameters(params(m, keci, -2.5))
            occs = [tuple(1 if i in c else 0 for i in range(n)) for k in range(n + 1 if T else 3) for c in itertools.combinations(range(n), k)]
            if not T:
                occs += [tuple(1 - x for x in o) for o in occs]
            for occ in occs:
                loc = env.local(occ)
                want = ref.energy(loc, keci, -2.5)
                chk.state((name, cut, loc))
                for via, mm in (("built", m), ("from_dict", re1)):
                    st, ev = state_event(loc, 1)
                    chk.step()
                    chk.close(float(mm.compute(simulation_state=st, event=ev)), want, "energy differs from the explicit cluster sum",
                              rel=1e-9, abs_=1e-9, via=via, occ=loc, cut=cut, env=name)
            chk.outcome((name, cut, len(part)))


def rebuilds(chk, T):
    """every history of build / set_parameters / compute of one model object over a few environments: the energy returned is that of the
    parameters given for the environment the model describes, or the request is refused"""
    envs = {}
    ENV["wide4"] = lambda: iso(["Si"] * 4, [(2.4, 0, 0), (0, 2.4, 0), (-2.4, 0, 0), (0, -2.4, 0)], B2)  # as many features as square4
    for name, cut in (("square4", CUTS[0]), ("rect4", CUTS[0]), ("wide4", CUTS[0]), ("square4", CUTS[2])):
        e = Env(name)
        e.check_env(chk)
        m = build(e, cut)
        fp = m.get_orbit_fingerprints()
        envs[(name, cut)] = (e, e.ref(cut), fp, m.local_environment_hash)
    del ENV["wide4"]
    keys = list(envs)
    # "p": full record of that environment; "q": bare coefficients (allowed to fit any model with as many features)
    ops = [("build", k) for k in keys] + [("p", k) for k in keys[: 3 if not T else 4]] + [("q", keys[0])]
    depth = 4 if T else 3
    probe = (0, 1, 1, 0)
    for hist in itertools.product(ops, repeat=depth):
        if hist[0][0] != "build":
            continue
        m = LocalClusterExpansion()
        cur = None
        par = None        # (key the parameters were accepted for, keci)
        ok = True
        for op, k in hist:
            e, ref, fp, h = envs[k]
            chk.step()
            if op == "build":
                m.build(e.ll, cutoff_cluster=list(k[1]))
                cur = k
                continue
            keci = keci_of(len(fp), 0.0 if op == "p" else 0.7)
            d = dict(keci=keci, empty_cluster=1.5)
            if op == "p":
                d.update(orbit_fingerprints=fp, local_environment_hash=h)
            fits = (k == cur) if op == "p" else len(fp) == len(envs[cur][2])
            if not fits:
                chk.raises(lambda: m.set_parameters(d), "parameters of another model were accepted", history=hist)
            else:
                m.set_parameters(d)
                par = (cur, keci)
        st, ev = state_event(probe, 0)
        if par is None or par[0] != cur:
            chk.raises(lambda: m.compute(simulation_state=st, event=ev), "an energy was computed with the parameters of another environment",
                       history=hist, parameters_of=None if par is None else par[0], environment=cur)
        else:
            e, ref, fp, h = envs[cur]
            chk.close(float(m.compute(simulation_state=st, event=ev)), ref.energy(probe, par[1], 1.5),
                      "energy after a history of rebuilds differs from the explicit cluster sum", rel=1e-9, abs_=1e-9, history=hist)
        chk.state((cur, par and par[0], par and round(par[1][0], 3)))
        chk.trace()
        chk.outcome((cur == (par or [None])[0],))


def main(chk):
    T = chk.thorough
    chk.bounds = dict(environments=sorted(ENV), cutoffs=CUTS, occupations="all", bases=["chebyshev", "occupation"],
                      parameters="generic irrational coefficients; every pair of models for the rejection check")
    chk.assumptions = ["orbits are classes of congruent clusters (equal template species and inter-site distances within 1e-3)",
                       "decorations of sites with more than two species are assigned by position in the local order (pinned by the project's tests)"]
    big = ("octa6", "prism6", "mixed6", "nasicon")
    for name in ENV:
        for basis in ("chebyshev", "occupation"):
            with chk.scenario("energy/%s/%s" % (name, basis)) as on:
                if not on:
                    continue
                env = Env(name, basis)
                env.check_env(chk)
                cuts = CUTS if (T or name not in big) else CUTS[:3]
                if basis == "occupation" and not T:
                    cuts = cuts[:1] + cuts[3:5]
                memo = {}
                for cut in cuts:
                    m = build(env, cut)
                    ref = env.ref(cut, basis)
                    chk.note(env=name, basis=basis, cut=cut)
                    part = sorted(tuple(sorted(tuple(sorted(int(i) for i in c)) for c in o.cluster_site_indices)) for o in m.orbits)
                    chk.equal(part, sorted(tuple(sorted(o)) for o in ref.orbits), "orbits are not the congruence classes of clusters within the cutoffs")
                    fps = m.get_orbit_fingerprints()
                    chk.expect(len(fps) == len(ref.features) and len(set(fps)) == len(fps), "one distinct fingerprint per feature expected",
                               got=len(fps), want=len(ref.features))
                    keci = keci_of(len(fps))
                    m.set_parameters(params(m, keci, E_EMPTY))
                    d = json.loads(json.dumps(m.as_dict()))
                    m.to("lce14.json") if hasattr(m, "to") else None
                    re1 = LocalClusterExpansion.from_dict(d)
                    re1.set_parameters(record(json.loads(json.dumps(params(m, keci, E_EMPTY)))))
                    models = [("built", m), ("from_dict", re1)]
                    if cut == CUTS[0] or T:
                        re2 = LocalClusterExpansion.from_file("lce14.json")
                        record(params(m, keci, E_EMPTY)).to("p14.json")
                        re2.load_parameters_from_file("p14.json")
                        models.append(("from_file", re2))
                    for occ in env.occs():
                        loc = env.local(occ)
                        want = ref.energy(loc, keci, E_EMPTY)
                        memo[(cut, loc)] = want
                        chk.state((cut, loc))
                        for via, mm in models:
                            for var in (0, 1):
                                st, ev = state_event(loc, var)
                                got = float(mm.compute(simulation_state=st, event=ev))
                                chk.step()
                                chk.close(got, want, "energy differs from the explicit cluster sum", rel=1e-9, abs_=1e-9, via=via, occ=loc, placement=var, cut=cut)
                        if cut in CUTS[:1] or T:
                            for sh, dx in ((0, 0.0), (1, 0.006)):
                                s = env.structure(occ, sh, dx)
                                if s is None:
                                    continue
                                fo, fc = m.get_occ_corr_from_structure(s)
                                chk.close(list(fc), ref.corr(loc), "correlation from a structure differs", rel=1e-9, abs_=1e-9, occ=loc, shuffled=sh, shift=dx)
                                chk.close(list(m.get_corr_from_structure(s)), list(fc), "get_corr_from_structure differs from get_occ_corr_from_structure")
                                e2 = float(np.dot(fc, keci) + E_EMPTY)
                                chk.close(e2, want, "energy from a structure differs from energy from the state", rel=1e-9, abs_=1e-9, occ=loc)
                                fc2 = re1.get_corr_from_structure(s, reference_local_lattice_structure=env.ll)
                                chk.close(list(fc2), list(fc), "reloaded model gives other correlations", occ=loc)
                                chk.step(3)
                        chk.outcome((name, round(want, 6)))
                    # all automorphisms of the environment leave the energy unchanged (two-state sites)
                    if max(env.counts()) == 2:
                        n = len(env.order)
                        autos = []
                        for p in itertools.permutations(range(n)):
                            if all(env.order[p[i]][0] == env.order[i][0] for i in range(n)) and all(
                                    abs(ref.dist[i][j] - ref.dist[p[i]][p[j]]) < 1e-6 for i in range(n) for j in range(i)):
                                autos.append(p)
                        for occ in env.occs():
                            loc = env.local(occ)
                            st, ev = state_event(loc, 0)
                            e0 = float(m.compute(simulation_state=st, event=ev))
                            for p in autos:
                                st, ev = state_event(tuple(loc[p[i]] for i in range(n)), 0)
                                chk.close(float(m.compute(simulation_state=st, event=ev)), e0, "symmetry-equivalent occupations have different energies",
                                          rel=1e-9, abs_=1e-9, occ=loc, permutation=p)
                                chk.step()
                chk.sample(dict(env=name, basis=basis, sites=env.order[:2], states=len(memo)))
    with chk.scenario("large environments") as on:
        if on:
            large_envs(chk, T)
    with chk.scenario("rebuild histories") as on:
        if on:
            rebuilds(chk, T)
    with chk.scenario("multistate-symmetry") as on:
        if on:
            # specific input of the known finding: regular triangle of three-state sites, generic parameters
            env = Env("tri3_3")
            env.check_env(chk)
            m = build(env, CUTS[0])
            m.set_parameters(params(m, keci_of(len(m.get_orbit_fingerprints())), 0.0))
            for loc in itertools.product(range(3), repeat=3):
                st, ev = state_event(loc, 0)
                e0 = float(m.compute(simulation_state=st, event=ev))
                for p in itertools.permutations(range(3)):
                    st, ev = state_event(tuple(loc[i] for i in p), 0)
                    if abs(float(m.compute(simulation_state=st, event=ev)) - e0) > 1e-9:
                        chk.fail("symmetry-equivalent occupations of three-state sites have different energies", key="multistate-symmetry", occ=loc, permutation=p)
    with chk.scenario("parameters") as on:
        if on:
            pool = []
            # the same geometry in another site order, and triangles whose edges are exchanged
            extra = {"xyz_rev": lambda: iso(["Si", "Si", "Si", "Si"], [(2, 0, 1), (2, 0, -1), (-2, 0.1, 0), (2, -1, 0)], B2,
                                            local_site_order={"name": "z", "sort_keys": ["cartesian_z", "cartesian_y", "cartesian_x"]}),
                     "tri_a": lambda: iso(["Na", "Si", "Si"], [(0, 0, 0), (2, 0, 0), (-1, 2.5, 0)], NA,
                                          local_site_order={"name": "t", "sort_keys": ["species_string", "cartesian_y"]}),
                     # distances (Na,Si1) and (Na,Si2) exchanged
                     "tri_b": lambda: iso(["Na", "Si", "Si"], [(0, 0, 0), (1, -2.5, 0), (-2, 0, 0)], NA,
                                          local_site_order={"name": "t", "sort_keys": ["species_string", "cartesian_y"]})}
            ENV.update(extra)
            cat = [(n, c) for n, c in itertools.product(("square4", "rect4", "near4", "generic5", "mixed6", "vacfirst", "center_in", "center_out", "tri3_3"),
                                                        (CUTS[0], CUTS[1], CUTS[2]))]
            cat += [(n, c) for n in ("xyz", "xyz_rev", "tri_a", "tri_b") for c in (CUTS[0], (0.0, 9.0, 0.0))]
            for name, cut in cat:
                env = Env(name)
                env.check_env(chk)
                m = build(env, cut)
                n = len(m.get_orbit_fingerprints())
                pool.append((name, cut, env, m, params(m, keci_of(n), 1.5)))
            for n in extra:
                del ENV[n]

            def identity(env, cut):
                """what the coefficients refer to: per class, the clusters with their sites, labels and distances"""
                r = env.ref(cut)
                return [[(c, [env.order[i][0] for i in c], [[round(r.dist[i][j], 6) for j in c] for i in c]) for c in o] for o in r.orbits]
            ids = {(name, cut): identity(env, cut) for name, cut, env, m, p in pool}
            for name, cut, env, m, p in pool:
                fp = p["orbit_fingerprints"]
                n = len(fp)
                loc = tuple(0 for _ in env.order)
                st, ev = state_event(loc, 0)
                chk.raises(lambda: m.compute(simulation_state=st, event=ev), "energy without parameters was returned")
                m.set_parameters(p)
                e0 = float(m.compute(simulation_state=st, event=ev))
                bad = {"short": dict(p, keci=p["keci"][:-1]), "long": dict(p, keci=p["keci"] + [1.0]),
                       "short_no_fp": dict(keci=p["keci"][:-1], empty_cluster=0.0), "empty": dict(p, keci=[]),
                       "fp_short": dict(p, orbit_fingerprints=fp[:-1]), "fp_other": dict(p, orbit_fingerprints=fp[:-1] + ["0" * 64]),
                       "hash": dict(p, local_environment_hash="0" * 64)}
                if n > 1:
                    bad["fp_swapped"] = dict(p, orbit_fingerprints=[fp[1], fp[0]] + fp[2:])
                    bad["fp_reversed"] = dict(p, orbit_fingerprints=fp[::-1])
                    bad["fp_swapped_no_hash"] = dict(keci=p["keci"], empty_cluster=1.5, orbit_fingerprints=fp[::-1])
                for k, b in bad.items():
                    for form in ("dict", "object"):
                        q = b if form == "dict" else record(b)
                        chk.raises(lambda: m.set_parameters(q), "parameters that do not fit the model were accepted", env=name, cut=cut, defect=k, form=form)
                        chk.close(float(m.compute(simulation_state=st, event=ev)), e0, "a rejected parameter set changed the energy", env=name, defect=k)
                        chk.step()
                for name2, cut2, env2, m2, p2 in pool:
                    same = (p2["orbit_fingerprints"] == fp and p2["local_environment_hash"] == p["local_environment_hash"])
                    same_ref = (env2.order == env.order and env.counts() == env2.counts() and env.ref(cut).orbits == env.ref(cut2).orbits)
                    chk.expect(same == same_ref, "parameter identity does not identify the model", a=(name, cut), b=(name2, cut2), same=same)
                    if not same_ref:
                        chk.raises(lambda: m.set_parameters(p2), "parameters of another model were accepted", model=(name, cut), parameters=(name2, cut2))
                    else:
                        m.set_parameters(p2)
                    q2 = {k: v for k, v in p2.items() if k != "local_environment_hash"}
                    if ids[(name, cut)] != ids[(name2, cut2)]:
                        chk.raises(lambda: m.set_parameters(q2), "parameters of other clusters were accepted", model=(name, cut), parameters=(name2, cut2))
                    chk.step()
                    chk.state((name, cut, name2, cut2))
                # environments of another size, tampered files
                for k in (len(loc) - 1, len(loc) + 1):
                    st2, ev2 = state_event((0,) * k, 0) if k > 0 else (st, Event(mobile_ion_indices=(0, 1), local_env_indices=()))
                    chk.raises(lambda: m.compute(simulation_state=st2, event=ev2), "an event of another environment size was evaluated", env=name, size=k)
                d = m.as_dict()
                if n > 1:
                    d2 = json.loads(json.dumps(d))
                    d2["orbit_fingerprints"] = d2["orbit_fingerprints"][::-1]
                    chk.raises(lambda: LocalClusterExpansion.from_dict(d2), "model file with wrong fingerprints was accepted", env=name)
                for name2, cut2, env2, m2, p2 in pool:
                    if env2.order != env.order:
                        chk.raises(lambda: m.validate_reference_lattice_structure(env2.ll), "another environment was accepted as reference", env=name, other=name2)
                    else:
                        m.validate_reference_lattice_structure(env2.ll)
