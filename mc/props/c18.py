"""C18: enumerated environments are complete and endpoint pairs describe one hop.

All requests (centre x cutoff x ordering x variable sites x variable species x composition x base structure x limit) on
a catalogue of small lattice models are compared with a brute-force product over the sites found by image sums; all
occupations x all ordered site pairs give the endpoint pairs, judged site by site.
"""
import itertools
from collections import Counter

import numpy as np
from pymatgen.core import DummySpecies, Lattice, Species, Structure

from kmcpy.event import Event
from kmcpy.structure import (LatticeStructure, Occupation, enumerate_local_environments,
                             enumerate_neb_endpoint_pairs, generate_neb_endpoint_pair)

VAC = ("X", "Vacancy", "Va", "vacancy", "VA")
# name -> (lattice rows, [(species, frac)], mapping, basis)
MODELS = {
    "big": ([[9.0, 0, 0], [0, 10.0, 0], [0, 0, 11.0]], [("Na", (.0, .0, .0)), ("O", (.1, .1, .1)), ("Na", (.2, .03, .05)), ("Si", (.3, .1, .0)), ("Si", (.05, .3, .1))],
            {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}, "chebyshev"),
    "occ": ([[9.0, 0, 0], [0, 10.0, 0], [0, 0, 11.0]], [("Si", (.3, .1, .0)), ("Na", (.0, .0, .0)), ("O", (.1, .1, .1)), ("Na", (.2, .03, .05)), ("Na", (.9, .95, .02))],
            {"Na": ["Na", "Va"], "Si": ["Si", "P"], "O": ["O"]}, "occupation"),
    "tri": ([[8.0, 0, 0], [1.0, 9.0, 0], [0, 0, 10.0]], [("Na", (.0, .0, .0)), ("Si", (.25, .1, .0)), ("Na", (.1, .2, .1)), ("O", (.3, .3, .3))],
            {"Na": ["Na", "K", "X"], "Si": ["Si", "P", "Ge"], "O": "O"}, "chebyshev"),
    "mixed": ([[8.0, 0, 0], [0, 9.0, 0], [0, 0, 10.0]], [("Na", (.0, .0, .0)), ("K", (.2, .0, .0)), ("Na", (.1, .2, .1)), ("Li", (.1, .1, .3))],
              {"Na": ["Na", "X", "K"], "K": ["K", "Na"], "Li": ["X", "Li"]}, "chebyshev"),
    "cross": ([[8.0, 0, 0], [0, 9.0, 0], [0, 0, 10.0]], [("Na", (.0, .0, .0)), ("K", (.2, .0, .0)), ("Na", (.1, .2, .1)), ("O", (.5, .5, .5))],
              {"Na": ["Na", "X"], "K": ["Na", "K", "Vacancy"], "O": "O"}, "chebyshev"),
    "charged": ([[8.0, 0, 0], [0, 9.0, 0], [0, 0, 10.0]], [("Na+", (.0, .0, .0)), ("Fe3+", (.2, .0, .0)), ("Na+", (.1, .2, .1)), ("O2-", (.3, .2, .1))],
                {"Na+": ["Na+", "X"], "Fe3+": ["Fe3+", "Fe2+"], "O2-": "O2-"}, "chebyshev"),
    "two": ([[8.0, 0, 0], [0, 9.0, 0], [0, 0, 10.0]], [("Li", (.0123456789, .0, .0)), ("Na", (.2109876543, .0301234567, .0)), ("Li", (.1, .2098765432, .1)), ("K", (.3, .2, .1)), ("O", (.5, .6, .5))],
            {"Na": ["Na", "X"], "Li": ["Li", "Va"], "K": ["K", "Na", "X"], "O": "O"}, "chebyshev"),
    "small": ([[3.0, 0, 0], [0.4, 3.6, 0], [0, 0, 8.0]], [("Na", (.0, .0, .0)), ("Na", (.5, .45, .1)), ("Si", (.1, .6, .3)), ("O", (.6, .2, .7))],
              {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}, "chebyshev"),
}
CUT = {"big": [2.6, 4.7], "occ": [2.7, 4.7], "tri": [2.4, 6.0], "mixed": [2.3, 6.0], "cross": [2.4, 6.0], "charged": [2.3, 6.0], "two": [2.3, 6.0], "small": [2.7, 3.3, 4.4]}


def lab(s):
    return "X" if s in VAC else s


def sp(s):
    return DummySpecies("X") if s in VAC else Species(s)


def text(s):
    sym = getattr(s, "symbol", str(s))
    if sym in VAC:
        return "X"
    ox = getattr(s, "oxi_state", None)
    return str(s) if ox else sym


def symbol(s):
    return s.rstrip("+-0123456789")


class Model:
    def __init__(self, name):
        self.name = name
        latt, sites, mp, basis = MODELS[name]
        self.latt = np.array(latt, float)
        self.sites = sites
        self.basis = basis
        self.mp = mp
        self.t = Structure(Lattice(latt), [sp(s) for s, _ in sites], [f for _, f in sites])
        self.ls = LatticeStructure(self.t, mp) if basis == "chebyshev" else LatticeStructure(self.t, mp, basis_type=basis)
        self.full_allowed = [[lab(x) for x in (mp[s] if isinstance(mp[s], list) else [mp[s]])] for s, _ in sites]
        self.active = [i for i, a in enumerate(self.full_allowed) if len(a) > 1]
        self.allowed = [self.full_allowed[i] for i in self.active]
        self.n = len(self.active)
        self.frac = [np.array(sites[i][1]) for i in self.active]

    def value(self, state):
        return state if self.basis == "chebyshev" else 1 - state

    def state(self, value):
        return value if self.basis == "chebyshev" else 1 - value

    def local(self, centre, cutoff, exclude):
        c = self.frac[centre] if isinstance(centre, int) else np.array(centre)
        out = []
        for j in range(self.n):
            for m in itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=3):
                x = (self.frac[j] + m - c) @ self.latt
                d = np.linalg.norm(x)
                assert abs(d - cutoff) > 1e-4
                if d < cutoff:
                    if exclude and (d < 1e-3 or (isinstance(centre, int) and j == centre)):
                        continue
                    out.append((j, self.sites[self.active[j]][0], (self.frac[j] + m) @ self.latt))
        return out

    def structure(self, states):
        s, f = [], []
        k = 0
        for i, (name, frac) in enumerate(self.sites):
            a = name if i not in self.active else self.allowed[self.active.index(i)][states[self.active.index(i)]]
            if a != "X":
                s.append(sp(a))
                f.append(frac)
        return Structure(Lattice(self.latt), s, f)

    def judge(self, chk, got, states, what):
        chk.expect(np.allclose(got.lattice.matrix, self.latt), what + ": cell changed")
        want = {}
        for i, (name, frac) in enumerate(self.sites):
            a = name if i not in self.active else self.allowed[self.active.index(i)][states[self.active.index(i)]]
            if a != "X":
                want[i] = a
        seen = {}
        for x in got:
            hit = [i for i, (_, f) in enumerate(self.sites) if np.linalg.norm((np.array(f) - x.frac_coords) - np.round(np.array(f) - x.frac_coords)) < 1e-6]
            chk.expect(len(hit) == 1 and hit[0] not in seen, what + ": two ions on one site or an ion off the lattice")
            seen[hit[0]] = text(x.specie)
        chk.equal(seen, want, what + ": species on sites", states=states)


def compositions(m, choices):
    """every composition reachable by the variable sites, plus unreachable ones"""
    out = []
    seen = set()
    for p in itertools.product(*choices):
        c = tuple(sorted(Counter(p).items()))
        if c not in seen:
            seen.add(c)
            out.append(dict(c))
    return out


def judge_env(chk, m, res, base, local, var, what):
    got_local = [int(x) for x in res.local_site_indices]
    chk.expect(Counter(got_local) == Counter(j for j, _, _ in local), what + ": local sites", got=got_local)
    chk.equal([int(x) for x in res.variable_site_indices], list(var), what + ": variable sites")
    occ = [m.state(int(x)) for x in res.full_occupation.values]
    chk.equal([m.state(int(x)) for x in res.local_occupation.values], [occ[j] for j in got_local], what + ": local occupation")
    for j in range(m.n):
        if j not in var:
            chk.expect(occ[j] == base[j], what + ": a site that was not varied changed", site=j)
    chk.expect({int(k): symbol(v) for k, v in res.species_by_site.items()} == {j: symbol(m.allowed[j][occ[j]]) for j in var}, what + ": species by site", got=res.species_by_site)
    m.judge(chk, res.structure, occ, what)
    return tuple(occ[j] for j in var)


class AllOrderings:
    """a transformation that returns every ordering of a disordered structure"""

    def __init__(self, form, shuffle):
        self.form, self.shuffle = form, shuffle

    def apply_transformation(self, s, return_ranked_list=False):
        opts = []
        for x in s:
            o = [(k, v) for k, v in x.species.items()]
            tot = sum(v for _, v in o)
            c = [k for k, _ in o]
            if tot < 1 - 1e-6:
                c.append(None)
            opts.append(c)
        out = []
        for p in itertools.product(*opts):
            keep = [(c, x.frac_coords) for c, x in zip(p, s) if c is not None]
            if not keep:
                continue
            if self.shuffle:
                keep = keep[::-1]
            o = Structure(s.lattice, [k for k, _ in keep], [f for _, f in keep])
            out.append({"structure": o, "energy": float(len(out))} if self.form == "dict" else o)
        return out if self.form != "one" else (out[0] if isinstance(out[0], Structure) else out[0]["structure"])


def requests(chk, m, cutoff):
    centres = list(range(m.n)) + [(0.11, 0.13, 0.07)]
    for centre in centres:
        for order in (None, "nasicon_nat_commun_2022"):
            for exc in (None, True, False):
                exclude = exc if exc is not None else order is not None
                yield centre, order, exc, exclude


def enumerations(chk, m):
    bases = [None, [len(a) - 1 for a in m.allowed], [i % len(a) for i, a in enumerate(m.allowed)]]
    for cutoff in CUT[m.name]:
        for centre, order, exc, exclude in requests(chk, m, cutoff):
            local = m.local(centre, cutoff, exclude)
            if not local:
                continue
            present = list(dict.fromkeys(j for j, _, _ in local))
            first = None
            for bi, base in enumerate(bases):
                if base is not None and (order is not None or exc is not None) and not chk.thorough:
                    continue
                kw = dict(center=centre if isinstance(centre, int) else list(centre), cutoff=cutoff)
                if order is not None:
                    kw["local_site_order"] = order
                if exc is not None:
                    kw["exclude_center_site"] = exc
                bs = [0] * m.n
                if base is not None:
                    st = m.structure(base)
                    kw["base_structure"] = st
                    bs = base
                specs = [None]
                names = sorted({a for j in present for a in m.allowed[j]})
                for r in (1, 2, 3):
                    specs += [list(x) for x in itertools.combinations(names, r)]
                if not chk.thorough:
                    if (isinstance(centre, int) and centre != 0) or cutoff != CUT[m.name][-1]:
                        specs = specs[:1]
                    elif bi or order is not None or exc is not None:
                        specs = specs[:1] + specs[-1:]
                for vs in specs:
                    ch = {j: [a for a in m.allowed[j] if vs is None or a in vs] for j in present}
                    auto = [j for j in present if len(ch[j]) > 1]
                    picks = [None]
                    if order is None and exc is None:
                        for r in (1, 2):
                            picks += [list(x) for x in itertools.permutations(present, r)]
                        picks += [[j, j] for j in present] + [[present[-1], present[0], present[-1]]]
                        if not chk.thorough and (vs is not None or centre != 0):
                            picks = picks[:1] + picks[-3:]
                    for pick in picks:
                        what = "centre=%s cutoff=%g order=%s exclude=%s base=%s species=%s sites=%s" % (centre, cutoff, order, exc, bi, vs, pick)
                        args = dict(kw)
                        if vs is not None:
                            args["variable_species"] = vs
                        if pick is not None:
                            args["variable_site_indices"] = pick
                            if any(not ch[j] for j in pick):
                                chk.raises(lambda: enumerate_local_environments(m.ls, **args), what + ": inadmissible species accepted")
                                continue
                        res = enumerate_local_environments(m.ls, **args)
                        var = [int(x) for x in res[0].variable_site_indices] if res else None
                        chk.expect(res, what + ": no environment")
                        chk.expect(sorted(var) == sorted(auto) if pick is None else var == list(dict.fromkeys(pick)), what + ": variable sites", got=var)
                        got_local = tuple(int(x) for x in res[0].local_site_indices)
                        if first is None:
                            first = got_local
                        chk.expect(got_local == first, what + ": local order depends on the request")
                        want = list(itertools.product(*([m.allowed[j].index(a) for a in ch[j]] for j in var)))
                        got = [judge_env(chk, m, r, bs, local, var, what) for r in res]
                        chk.expect(Counter(got) == Counter(want), what + ": not every assignment exactly once", got=len(got), want=len(want))
                        chk.expect(m.name == "charged" or len({r.label for r in res}) == len(set(got)), what + ": environments are not told apart by their labels")
                        chk.state((what,))
                        chk.step(len(got))
                        for k in (1, 2, len(got)) if chk.thorough or bi == 0 else ():
                            lim = enumerate_local_environments(m.ls, max_results=k, **args)
                            chk.expect([judge_env(chk, m, r, bs, local, var, what) for r in lim] == got[:k], what + ": a limited enumeration is not a prefix", limit=k)
                        if (order is None and exc is None and (pick is None or len(pick) == 1) and (bi == 0 or vs is None and centre == 0)) or chk.thorough:
                            counts(chk, m, args, ch, var, got, what)
                            if vs is None or pick is None:
                                transforms(chk, m, args, ch, var, got, bs, local, what)
            # ordering rule of the local sites
            if first is not None:
                names = [m.sites[m.active[j]][0] for j in first]
                groups = [k for k, _ in itertools.groupby(names)]
                chk.expect(len(groups) == len(set(groups)), "species are not contiguous in the local order", order=first)


def counts(chk, m, args, ch, var, got, what):
    comps = compositions(m, [ch[j] for j in var])
    names = sorted({a for j in var for a in ch[j]})
    for comp in comps:
        variants = [comp, {**{n: 0 for n in names}, **comp}]
        if "X" in comp:
            variants.append({("Vacancy" if k == "X" else k): v for k, v in comp.items()})
        variants.append({sp(k): v for k, v in comp.items()} if not any(k.startswith("Fe") for k in comp) else comp)
        want = [g for g in got if Counter(m.allowed[j][s] for j, s in zip(var, g)) == Counter(comp)]
        for v in variants:
            res = enumerate_local_environments(m.ls, species_counts=v, **args)
            r = [tuple(m.state(int(x.full_occupation.values[j])) for j in var) for x in res]
            chk.expect(r == want, what + ": composition-constrained enumeration", counts={str(k): n for k, n in v.items()}, got=r, want=want)
            chk.step()
        if var:
            chk.raises(lambda: enumerate_local_environments(m.ls, species_counts={**comp, names[0]: comp.get(names[0], 0) + 1}, **args), what + ": counts that do not fit the sites accepted")
            k = max(comp, key=comp.get)
            if comp[k] > 0:
                chk.raises(lambda: enumerate_local_environments(m.ls, species_counts={**comp, k: comp[k] - 1}, **args), what + ": counts that leave sites open accepted", counts=comp, less=k)


def transforms(chk, m, args, ch, var, got, bs, local, what):
    # a disordered site cannot consist of vacancies only
    if any(ch[j] == ["X"] for j in var):
        return
    # a cell left empty cannot be represented
    for form, shuffle in (("list", False), ("dict", True)):
        res = enumerate_local_environments(m.ls, transformation=AllOrderings(form, shuffle), **args)
        r = [judge_env(chk, m, x, bs, local, var, what + " transformation") for x in res]
        want = got
        if len(m.active) == m.n:
            def occupied(g):
                st = list(bs)
                for j, s in zip(var, g):
                    st[j] = s
                return any(m.allowed[j][st[j]] != "X" for j in range(m.n))
            want = [g for g in got if occupied(g)]
        chk.expect(Counter(r) == Counter(want), what + ": transformed structures are not the assignments", got=sorted(r), want=sorted(want))
        chk.step()


def endpoints(chk, m):
    states = list(itertools.product(*[range(len(a)) for a in m.allowed]))
    for a, b in itertools.product(range(m.n), repeat=2):
        ok = a != b and m.allowed[a][0] != "X" and m.allowed[a][0] == m.allowed[b][0] and "X" in m.allowed[a] and "X" in m.allowed[b]
        for st in states:
            vals = [m.value(x) for x in st]
            full = [0] * len(m.sites)
            for k, i in enumerate(m.active):
                full[i] = vals[k]
            if m.basis == "occupation":
                full = [1 if i not in m.active else full[i] for i in range(len(m.sites))]
            forms = [vals, Occupation(vals, basis=m.ls.basis), full]
            for fi, form in enumerate(forms):
                mob = (a, b) if fi != 1 else Event(mobile_ion_indices=(a, b), local_env_indices=())
                what = "hop %s->%s occupation=%s form=%d" % (a, b, st, fi)
                if not ok:
                    chk.raises(lambda: generate_neb_endpoint_pair(m.ls, form, mob), what + ": impossible hop accepted")
                    continue
                before = list(getattr(form, "values", form))
                p = generate_neb_endpoint_pair(m.ls, form, mob)
                judge_pair(chk, m, p, st, a, b, what)
                chk.expect(list(getattr(form, "values", form)) == before, what + ": input changed")
                chk.state((a, b, st))
                chk.step()


def judge_pair(chk, m, p, st, a, b, what):
    i, f = list(st), list(st)
    i[a], i[b] = 0, m.allowed[b].index("X")
    f[a], f[b] = m.allowed[a].index("X"), 0
    chk.equal([m.state(int(x)) for x in p.initial_occupation.values], i, what + ": initial occupation")
    chk.equal([m.state(int(x)) for x in p.final_occupation.values], f, what + ": final occupation")
    chk.equal(tuple(int(x) for x in p.mobile_ion_indices), (a, b), what + ": hop")
    m.judge(chk, p.initial, i, what + " initial")
    m.judge(chk, p.final, f, what + " final")
    chk.equal(len(p.initial), len(p.final), what + ": atom count")
    moved = 0
    for x, y in zip(p.initial, p.final):
        chk.expect(text(x.specie) == text(y.specie), what + ": atoms of the endpoints do not correspond")
        if np.linalg.norm((x.frac_coords - y.frac_coords) - np.round(x.frac_coords - y.frac_coords)) > 1e-6:
            moved += 1
            chk.expect(np.allclose(x.frac_coords, m.frac[a]) and np.allclose(y.frac_coords, m.frac[b]), what + ": another atom moved")
    chk.expect(moved == 1, what + ": not exactly one atom moved", moved=moved)


def combined(chk, m):
    """enumerate_neb_endpoint_pairs = the endpoint pair of every enumerated environment"""
    n = 0
    for a, b in itertools.permutations(range(m.n), 2):
        ok = m.allowed[a][0] != "X" and m.allowed[a][0] == m.allowed[b][0] and "X" in m.allowed[a] and "X" in m.allowed[b]
        if not ok:
            continue
        for cutoff in CUT[m.name]:
            for centre in (None, b, (0.1, 0.1, 0.1)):
                c = a if centre is None else centre
                others = [j for j in dict.fromkeys(j for j, _, _ in m.local(c, cutoff, False)) if j not in (a, b)]
                picks = [None] + [list(x) for r in (1, 2) for x in itertools.combinations(others, r)]
                for pick in picks:
                    kw = dict(cutoff=cutoff)
                    if pick is not None:
                        kw["variable_site_indices"] = pick
                    envs = enumerate_local_environments(m.ls, center=list(c) if isinstance(c, tuple) else c, **kw)
                    k2 = dict(kw)
                    if centre is not None:
                        k2["center"] = list(centre) if isinstance(centre, tuple) else centre
                    pairs = enumerate_neb_endpoint_pairs(m.ls, (a, b), **k2)
                    chk.equal(len(pairs), len(envs), "one endpoint pair per environment")
                    seen = Counter()
                    for q, (e, p) in enumerate(zip(envs, pairs)):
                        chk.equal(p.metadata["local_environment_index"], q, "number of the environment")
                        st = [m.state(int(x)) for x in e.full_occupation.values]
                        judge_pair(chk, m, p, st, a, b, "pairs")
                        seen[tuple(int(x) for x in p.initial_occupation.values)] += 1
                        chk.step()
                        chk.equal(p.metadata["local_environment_label"], e.label, "label of the environment")
                    if pick is not None:
                        chk.expect(max(seen.values()) == 1, "an endpoint pair is repeated")
                    chk.state((a, b, cutoff, str(centre), str(pick)))
                    n += 1


def rejections(chk):
    m = Model("big")
    e = lambda **k: enumerate_local_environments(m.ls, **{**dict(center=0, cutoff=2.6), **k})
    e()
    chk.raises(lambda: e(max_results=0), "max_results=0")
    chk.raises(lambda: e(max_results=-1), "negative max_results")
    chk.raises(lambda: e(exclude_species=["O"]), "exclude_species")
    chk.raises(lambda: e(variable_site_indices=[3]), "variable site outside the environment")
    chk.raises(lambda: e(variable_site_indices=[-1]), "negative variable site")
    chk.raises(lambda: e(variable_site_indices=[99]), "site out of range")
    chk.raises(lambda: e(species_counts={"Na": 5}), "too many species")
    chk.raises(lambda: e(center="Na"), "centre of a wrong type")
    for bad in [(0,), (0, 1, 2), (), (0, 99), (-1, 0), (0, 0)]:
        chk.raises(lambda: generate_neb_endpoint_pair(m.ls, [0] * m.n, bad), "hop %s" % (bad,))
    for bad in [[0] * (m.n - 1), [0] * (m.n + 2), [7] * m.n]:
        chk.raises(lambda: generate_neb_endpoint_pair(m.ls, bad, (0, 1)), "occupation %s" % (bad,))


def base_rejections(chk):
    """a base structure that does not fit the lattice model is refused"""
    for name in MODELS:
        m = Model(name)
        full = [m.allowed[m.active.index(i)][0] if i in m.active else None for i in range(len(m.sites))]
        act = [i in m.active for i in range(len(m.sites)) if full[i] != "X"]      # per atom of the base structure
        good = m.structure([0] * m.n)
        run = lambda b, **k: enumerate_local_environments(m.ls, center=0, cutoff=CUT[name][-1], base_structure=b, **k)
        run(good)
        for i in range(len(good)):
            if not act[i]:
                continue
            for d in ((.23, 0, 0), (0, .25, 0), (0.2, .0, .21), (0, 0, .3)):
                f = good[i].frac_coords + np.array(d)
                near = min(np.linalg.norm((f - np.array(g)) - np.round(f - np.array(g))) for _, g in m.sites)
                if near < 0.15:
                    continue
                b = good.copy()
                b.translate_sites([i], d)
                chk.raises(lambda: run(b), "base structure with a misplaced atom accepted", model=name, atom=i, shift=d)
                chk.step()
            b = good.copy()
            b.replace(i, Species("Xe"))
            chk.raises(lambda: run(b), "base structure with a foreign species accepted", model=name, atom=i)
            b = Structure(good.lattice, list(good.species) + [good[i].specie], [x.frac_coords for x in good] + [good[i].frac_coords + 0.004])
            chk.raises(lambda: run(b), "base structure with two atoms on one site accepted", model=name, atom=i)
            chk.step(2)
            chk.state((name, i))
        b = Structure(Lattice(m.latt * 1.3), good.species, [x.frac_coords for x in good])
        chk.raises(lambda: run(b), "base structure with another cell accepted", model=name)


def many(chk):
    """more than a thousand assignments around one site"""
    MODELS["many"] = ([[14.0, 0, 0], [0, 15.0, 0], [0, 0, 16.0]],
                      [("Na", (.5, .5, .5))] + [("Na" if i % 3 else "Si", (.5 + .06 * ((-1) ** i) * (1 + i // 4), .5 + .05 * (i % 4 - 1.5), .5 + .04 * (i % 5 - 2))) for i in range(10)],
                      {"Na": ["Na", "X"], "Si": ["Si", "P"]}, "chebyshev")
    try:
        m = Model("many")
    finally:
        del MODELS["many"]
    local = m.local(0, 6.5, True)
    assert len(local) == 10, len(local)
    kw = dict(center=0, cutoff=6.5, exclude_center_site=True)
    for extra in (dict(), dict(variable_species=["Na", "X", "Si", "P"])) if chk.thorough else (dict(),):
        res = enumerate_local_environments(m.ls, **kw, **extra)
        var = [int(x) for x in res[0].variable_site_indices]
        chk.expect(sorted(var) == list(range(1, 11)), "variable sites of a large environment", got=var)
        got = []
        for k, r in enumerate(res):
            occ = tuple(m.state(int(x)) for x in r.full_occupation.values)
            got.append(tuple(occ[j] for j in var))
            if k % 37 == 0 or k > 1000:
                judge_env(chk, m, r, [0] * m.n, local, var, "large environment")
        chk.expect(Counter(got) == Counter(itertools.product((0, 1), repeat=10)), "not every assignment exactly once", got=len(got), want=1024)
        chk.expect(len({r.label for r in res}) == 1024, "environments are not told apart by their labels")
        chk.step(len(got))
        for lim in (700, 1023):
            part = enumerate_local_environments(m.ls, max_results=lim, **kw, **extra)
            chk.expect([tuple(m.state(int(x)) for x in r.full_occupation.values) for r in part] == [tuple(m.state(int(x)) for x in r.full_occupation.values) for r in res[:lim]],
                       "a limited enumeration is not a prefix", limit=lim)
        chk.state(("many", bool(extra)))


def main(chk):
    chk.bounds = dict(models=list(MODELS), cutoffs=CUT, centres="every active site and one coordinate", limits="1, 2, all", compositions="every reachable composition, with and without zero entries",
                      endpoints="every occupation x every ordered pair of active sites x 3 input forms")
    chk.assumptions = ["a cell from which every atom is removed cannot be represented as a structure and is excluded"]
    for name in MODELS:
        for what, fn in (("enumerate", enumerations), ("endpoints", endpoints), ("pairs", combined)):
            with chk.scenario("%s %s" % (what, name)) as on:
                if on:
                    fn(chk, Model(name))
    with chk.scenario("many") as on:
        if on:
            many(chk)
    with chk.scenario("rejections") as on:
        if on:
            rejections(chk)
    with chk.scenario("base structures") as on:
        if on:
            base_rejections(chk)
