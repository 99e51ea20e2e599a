"""C20: barrier datasets keep structures, energies, correlations, metadata and weights aligned.

rows     - every occupation of the reference cell x atom order x periodic image: the row is that structure's own;
orders   - every ordering of a structure catalogue x every cut of it into additions by every public route;
ops      - every sequence of additions, rejected additions and exports up to a depth, against a plain list;
weights  - every accepted and rejected weight specification;
references - every choice of environment for the loader and for the call: the row is of the environment asked for;
tolerances - displaced structures x tolerances: every route accepts the same ones with the same row;
lengths  - models whose vectors differ in one of the two lengths never share a dataset;
fit      - a fit on the exported inputs is the fit of those rows, and the fitted model gives back its predictions.
Oracle: occupations are known by construction, correlations come from the independent cluster-expansion reference.
"""
import itertools
import json
import math
import os
from types import SimpleNamespace

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.event import Event
from kmcpy.io.neb.data import NEBDataLoader, NEBEntry
from kmcpy.models import LocalClusterExpansion
from kmcpy.simulator.state import State
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure
from mc import lasso_ref, lce_ref

LAT = np.diag([11.0, 12.0, 13.0])
CUT = [7.0, 7.0, 7.0]


class Cell:
    """one reference cell with its sites, allowed species and a model of the surroundings of its first site"""

    def __init__(self, species, coords, mapping, cutoff=7.5, cut=CUT, basis="chebyshev"):
        self.species, self.coords, self.mapping, self.basis = species, coords, mapping, basis
        self.template = Structure(Lattice(LAT), species, coords)
        self.active = [i for i, s in enumerate(species) if isinstance(mapping[s], list) and len(mapping[s]) > 1]
        self.allowed = [mapping[species[i]] for i in self.active]
        self.local = LocalLatticeStructure(self.template, center=self.active[0], cutoff=cutoff, site_mapping=mapping, basis_type=basis, exclude_center_site=True)
        self.model = LocalClusterExpansion()
        self.model.build(self.local, cutoff_cluster=list(cut))
        idx = [int(i) for i in self.local.site_indices]
        self.sites = idx
        self.ref = lce_ref.of_model(self.model, [len(self.allowed[i]) for i in idx], cut, basis)
        self.corr = {o: self.ref.corr([o[i] for i in idx]) for o in self.states()}

    def states(self):
        return list(itertools.product(*(range(len(a)) for a in self.allowed)))

    def data(self, occ):
        if self.basis == "chebyshev":
            return list(occ)
        return [1 if s == 0 else 0 for s in occ]

    def structure(self, occ, perm=0, image=0):
        st = dict(zip(self.active, occ))
        atoms = []
        for i, s in enumerate(self.species):
            sp = self.mapping[s][st[i]] if i in st else s
            if sp != "X":
                k = (image * (i + 1)) % 3 - 1 if image else 0
                atoms.append((sp, [c + k for c in self.coords[i]]))
        if perm == 1:
            atoms = atoms[::-1]
        elif perm == 2:
            atoms = atoms[1::2] + atoms[::2]
        return Structure(Lattice(LAT), [a for a, _ in atoms], [c for _, c in atoms])


def cells():
    yield "binary", Cell(["Na", "Na", "Na", "Si", "O"], [[0.1, 0.1, 0.1], [0.45, 0.1, 0.12], [0.1, 0.5, 0.1], [0.3, 0.3, 0.45], [0.5, 0.5, 0.5]],
                         {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"})
    yield "mixed", Cell(["O", "Si", "Na", "O", "Na", "K"], [[0.5, 0.5, 0.5], [0.3, 0.3, 0.45], [0.1, 0.1, 0.1], [0.8, 0.1, 0.8], [0.45, 0.1, 0.12], [0.1, 0.5, 0.1]],
                        {"Na": ["X", "Na"], "Si": ["Si", "P", "Al"], "O": "O", "K": ["K", "X", "Na"]})
    yield "occ", Cell(["Na", "Na", "Si", "O"], [[0.1, 0.1, 0.1], [0.45, 0.1, 0.12], [0.3, 0.3, 0.45], [0.5, 0.5, 0.5]],
                      {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}, basis="occupation")


def four():
    """four-state sites: correlations with many digits"""
    return Cell(["Na", "Na", "Si", "O"], [[0.1, 0.1, 0.1], [0.45, 0.1, 0.12], [0.3, 0.3, 0.45], [0.5, 0.5, 0.5]],
                {"Na": ["Na", "X", "K"], "Si": ["Si", "P", "Al", "Ge"], "O": "O"})


def ok_row(row, want, tol=1e-9):
    return len(row) == len(want) and all(abs(a - b) <= tol * max(1.0, abs(b)) for a, b in zip(row, want))


class Item:
    def __init__(self, cell, occ, value, meta=None, path=None):
        self.cell, self.occ, self.value, self.meta, self.path = cell, occ, value, meta, path

    def metadata(self):
        m = dict(self.meta or {})
        if self.path is not None:
            m.setdefault("structure_file", str(self.path))
        return m


def judge(chk, ld, items, what, **kw):
    chk.expect(len(ld) == len(items) and len(ld.neb_entries) == len(items), what + ": number of rows", got=len(ld), want=len(items), **kw)
    if not items:
        for f in (ld.get_correlation_matrix, ld.get_occupation_matrix, ld.get_properties):
            chk.raises(f, "an empty dataset has no rows", exc=ValueError)
        return
    C, O, Y = ld.get_correlation_matrix(), ld.get_occupation_matrix(), ld.get_properties()
    chk.expect(len(C) == len(O) == len(Y) == len(items), what + ": matrix sizes", **kw)
    for i, it in enumerate(items):
        chk.expect(ok_row(list(C[i]), it.cell.corr[it.occ]), what + ": correlation row %d" % i, got=list(map(float, C[i])), want=it.cell.corr[it.occ], **kw)
        chk.expect([int(v) for v in O[i]] == it.cell.data(it.occ), what + ": occupation row %d" % i, got=[int(v) for v in O[i]], want=it.cell.data(it.occ), **kw)
        chk.expect(float(Y[i]) == float(it.value), what + ": property %d" % i, got=float(Y[i]), want=it.value, **kw)
        chk.expect((ld.neb_entries[i].metadata or {}) == it.metadata(), what + ": metadata %d" % i, got=ld.neb_entries[i].metadata, want=it.metadata(), **kw)


def export(chk, ld, items, out, weight=1.0, **kw):
    f = ld.to(out, prefix="set")
    with open(f) as fh:
        d = json.load(fh)
    chk.equal(d["n_structures"], len(items), "exported dataset: number of structures", **kw)
    for k in ("correlation_matrix", "occupation_matrix", "properties", "metadata"):
        chk.expect(len(d[k]) == len(items), "exported dataset: length of " + k, **kw)
    C = ld.get_correlation_matrix()
    for i, it in enumerate(items):
        chk.expect(d["correlation_matrix"][i] == [float(v) for v in C[i]], "exported dataset: correlation row", row=i, **kw)
        chk.expect(d["occupation_matrix"][i] == it.cell.data(it.occ), "exported dataset: occupation row", row=i, **kw)
        chk.expect(d["properties"][i] == float(it.value), "exported dataset: property", row=i, **kw)
        chk.expect(d["metadata"][i] == it.metadata(), "exported dataset: metadata", row=i, got=d["metadata"][i], **kw)
    p = ld.write_fitting_inputs(out, weight=weight)
    with open(p["corr_fname"]) as fh:
        rows = [[float(v) for v in l.split()] for l in fh if l.strip()]
    chk.expect(rows == [[float(v) for v in r] for r in C], "exported fitting inputs: correlation matrix", got=rows[:3], **kw)
    with open(p["ekra_fname"]) as fh:
        ys = [float(l) for l in fh if l.strip()]
    chk.expect(ys == [float(it.value) for it in items], "exported fitting inputs: barriers", got=ys, **kw)
    with open(p["weight_fname"]) as fh:
        ws = [float(l) for l in fh if l.strip()]
    want = [float(weight)] * len(items) if np.isscalar(weight) else [float(v) for v in weight]
    chk.expect(ws == want, "exported fitting inputs: weights", got=ws, want=want, **kw)
    return p


def rows(chk, name, cell):
    ld = NEBDataLoader(cell.model)
    items = []
    every = list(itertools.product(cell.states(), (0, 1, 2), (0, 1, 2)))
    for n, (occ, perm, image) in enumerate(every[::2] + every[1::2][::-1]):
        v = 100.0 + 7.25 * n if n % 2 else -3.0 / (n + 1)
        e = NEBEntry.from_structure(cell.structure(occ, perm, image), v, metadata={"n": n})
        ld.add(e)
        items.append(Item(cell, occ, v, {"n": n}))
        chk.expect([int(x) for x in e.occupation.data] == cell.data(occ), "occupation of one entry", occ=occ, perm=perm, image=image)
        chk.expect(ok_row(list(e.correlation), cell.corr[occ]), "correlation of one entry", occ=occ, perm=perm, image=image)
        chk.state((name, occ))
        chk.step()
    judge(chk, ld, items, "dataset of all occupations")
    export(chk, ld, items, "all_" + name)


ROUTES = ("entry", "entry_struct", "structure", "path", "bulk")


def extend(ld, route, its, model=None):
    """add the items through one public route"""
    S = [i.cell.structure(i.occ, i.value % 3 if isinstance(i.value, int) else 0) for i in its]
    src = [i.path if i.path is not None else s for i, s in zip(its, S)]
    kw = {} if model is None else {"model": model}
    if route == "bulk":
        ld.add_structures(src, [i.value for i in its], metadata=[i.meta for i in its] if any(i.meta is not None for i in its) else None, **kw)
    elif route == "bulk_array":
        ld.add_structures(src, np.array([i.value for i in its]), metadata=[i.meta or {} for i in its], **kw)
    elif route == "bulk_tuple":
        ld.add_structures(tuple(src), tuple(i.value for i in its), **kw)
    else:
        for i, s, x in zip(its, S, src):
            if route == "entry":
                ld.add(NEBEntry(structure=s, property_value=i.value, metadata=i.meta), **kw)
            elif route == "entry_struct":
                ld.add(NEBEntry.from_structure(x, i.value, metadata=i.meta), **kw)
            else:
                e = ld.add_structure(x, i.value, metadata=i.meta, **kw)
                assert e is ld.neb_entries[-1]


def write_paths(cell, tag):
    out = {}
    for n, occ in enumerate(cell.states()):
        if all(cell.allowed[i][s] == "X" for i, s in enumerate(occ)) and len(cell.active) == len(cell.species):
            continue
        f = os.path.abspath("%s_%d.%s" % (tag, n, ("vasp", "cif", "json")[n % 3]))
        cell.structure(occ, n % 3).to(filename=f, fmt=("poscar", "cif", "json")[n % 3])
        out[occ] = f
    return out


def orders(chk, name, cell, count, tag):
    paths = write_paths(cell, tag)
    occs = [o for i, o in enumerate(cell.states()) if o in paths][::max(1, len(paths) // count)][:count]
    its = []
    for n, o in enumerate(occs):
        its.append(Item(cell, o, [250.5, 250.5, -1.0, 300, 1e-3, 77.0][n % 6], [None, {"id": n}, {"structure_file": "mine", "k": [1, 2]}, {"id": n}][n % 4], paths[o] if n % 2 else None))
    for perm in itertools.permutations(its):
        # every cut of the order into consecutive batches, batches rotating through the routes
        for cuts in itertools.product((0, 1), repeat=count - 1):
            batches, cur = [], [perm[0]]
            for x, c in zip(perm[1:], cuts):
                if c:
                    batches.append(cur)
                    cur = [x]
                else:
                    cur.append(x)
            batches.append(cur)
            n = sum(c << i for i, c in enumerate(cuts)) + len(batches)
            ld = NEBDataLoader(cell.model) if n % 2 else NEBDataLoader()
            kw = None if n % 2 else cell.model
            done = []
            for b, batch in enumerate(batches):
                route = ("bulk", "entry_struct", "bulk_array", "path", "structure")[(b + n) % 5]
                extend(ld, route, batch, kw)
                done += batch
            judge(chk, ld, done, "order", order=[i.occ for i in perm], cuts=cuts)
            chk.step(len(batches))
        fs = NEBDataLoader.from_structures([i.path or i.cell.structure(i.occ) for i in perm], [i.value for i in perm], cell.model, metadata=[i.meta for i in perm],
                                           reference_local_lattice_structure=cell.local)
        judge(chk, fs, list(perm), "from_structures")
        chk.trace()
        chk.state((name, tuple(i.occ for i in perm)))


def bad_ops(chk, cell, other):
    """rejected additions: name -> callable(loader)"""
    good = cell.structure(cell.states()[0])
    stretched = Structure(Lattice(LAT * 1.07), [s.specie for s in good], good.frac_coords)
    first = next(i for i in range(len(good)) if [str(good[i].specie)] and any(str(good[i].specie) in a for a in cell.allowed))
    double = good.copy()
    double.append(good[first].specie, good[first].frac_coords + np.array([1e-4, 0, 0]))
    swap = good.copy()
    swap.replace(first, "Xe")
    return {
        "not an entry": lambda l: l.add({"structure": good, "property_value": 1.0}),
        "foreign species": lambda l: l.add_structure(swap, 1.0, model=cell.model),
        "stretched cell": lambda l: l.add(NEBEntry(stretched, 1.0), model=cell.model),
        "two atoms on one site": lambda l: l.add_structure(double, 1.0, model=cell.model),
        "lengths differ": lambda l: l.add_structures([good, good], [1.0], model=cell.model),
        "lengths differ 2": lambda l: l.add_structures([good], [1.0, 2.0], model=cell.model),
        "metadata lengths differ": lambda l: l.add_structures([good, good], [1.0, 2.0], metadata=[{}], model=cell.model),
        "reader options for a structure": lambda l: l.add_structure(good, 1.0, model=cell.model, primitive=True),
        "not a structure": lambda l: l.add_structure(17, 1.0, model=cell.model),
        "missing file": lambda l: l.add_structure("nowhere.cif", 1.0, model=cell.model),
        "legacy argument": lambda l: l.add_structure(good, 1.0, model=cell.model, exclude_species=["O"]),
        "not a number": lambda l: l.add_structure(good, "high", model=cell.model),
    }


def ops(chk, name, cell, other, depth, tag):
    paths = write_paths(cell, tag)
    occs = [o for o in cell.states() if o in paths]
    A, B = occs[1], occs[-2]
    good = [("entry", Item(cell, A, 11.5, None)), ("entry_struct", Item(cell, B, -2.0, {"b": 1}, paths[B])), ("structure", Item(cell, B, 11.5, {"c": 2})),
            ("path", Item(cell, A, 4, None, paths[A])), ("bulk2", [Item(cell, B, 1.0, {"x": 1}), Item(cell, A, 2.0, {"x": 2}, paths[A])])]
    bad = bad_ops(chk, cell, other)
    mism = ("vectors of another model", lambda l: l.add_structure(other.structure(other.states()[1]), 3.0, model=other.model))
    partial = ("bulk with one bad", None)
    alphabet = [("add", r) for r in range(len(good))] + [("bad", k) for k in bad] + [("mism", 0), ("partial", 0), ("export", 0)]
    out = os.path.abspath(tag + "_x")

    def walk(seq):
        ld = NEBDataLoader(cell.model)
        items = []
        for step, (kind, x) in enumerate(seq):
            last = step == len(seq) - 1
            if kind == "add":
                route, it = good[x]
                if route == "bulk2":
                    extend(ld, "bulk", it)
                    items = items + it
                else:
                    extend(ld, route, [it])
                    items = items + [it]
            elif kind == "bad":
                chk.raises(lambda: bad[x](ld), "an addition that cannot be used was accepted", kind=x, seq=seq)
            elif kind == "mism":
                if items:
                    chk.raises(lambda: mism[1](ld), "rows of another model were accepted", seq=seq)
            elif kind == "partial":
                a, b = Item(cell, A, 5.0), Item(cell, B, 6.0)
                before = list(items)
                try:
                    ld.add_structures([a.cell.structure(a.occ), 17, b.cell.structure(b.occ)], [5.0, 1.0, 6.0])
                    chk.fail("a batch with something that is not a structure was accepted", seq=seq)
                except TypeError:
                    pass
                chk.expect(len(ld) in (len(before), len(before) + 1), "a failed batch leaves a prefix of itself", got=len(ld), seq=seq)
                if len(ld) > len(before):
                    items = before + [a]
            elif kind == "export" and items:
                export(chk, ld, items, out, weight=[0.5 + i for i in range(len(items))] if len(items) % 2 else 2.0, seq=seq)
            if last:
                judge(chk, ld, items, "after operations", seq=seq)
        chk.step(len(seq))
        chk.trace()
        if len(seq) < depth:
            for op in alphabet:
                # rejected operations change nothing: two in a row add no new state
                if seq and op[0] == "bad" and seq[-1][0] == "bad":
                    continue
                walk(seq + (op,))
        chk.state((name, tuple((i.occ, i.value) for i in items)))
    walk(())


def weights(chk, name, cell):
    occs = cell.states()
    for n in (1, 2, 3):
        ld = NEBDataLoader(cell.model)
        its = [Item(cell, occs[(3 * i + 1) % len(occs)], 50.0 * i + 1 / 3) for i in range(n)]
        extend(ld, "structure", its)
        vec = [0.25 + 0.5 * i for i in range(n)]
        for w in (1.0, 3, 0.1, np.float64(2.5), vec, tuple(vec), np.array(vec), [int(i) for i in range(1, n + 1)]):
            export(chk, ld, its, "w_%s" % name, weight=w)
            chk.step()
        for w in (vec + [1.0], vec[:-1], [vec], [[v] for v in vec], np.ones((n, n + 1)), "heavy"):
            chk.raises(lambda: ld.write_fitting_inputs("w_bad", weight=w), "weights of the wrong shape were accepted", weight=str(w), n=n)
            judge(chk, ld, its, "after rejected weights")
            chk.step()
        # files in another place and under other names, overwritten by a later, longer export
        p = ld.write_fitting_inputs(os.path.join("w_sub", name), corr_fname="c.dat", ekra_fname="e.dat", weight_fname="w.dat")
        chk.equal(sorted(os.path.basename(v) for v in p.values()), ["c.dat", "e.dat", "w.dat"], "file names")
        chk.state((name, n))


def fit(chk, name, cell, sizes, alphas):
    occs = cell.states()
    for n, alpha, norm, wk in itertools.product(sizes, alphas, (True, False), (0, 1)):
        its = [Item(cell, occs[(5 * i + 2) % len(occs)], 200.0 + 40.0 * math.sin(2.1 * i + n)) for i in range(n)]
        ld = NEBDataLoader(cell.model)
        extend(ld, "structure", its)
        w = [0.5 + (i * 7 % 5) * 0.5 for i in range(n)] if wk else [1.0] * n
        out = "fit_" + name
        p = export(chk, ld, its, out, weight=w)
        params, pred, true = cell.model.fit(alpha=alpha, normalize=norm, keci_fname=os.path.join(out, "keci.txt"), lce_params_fname=os.path.join(out, "p.json"),
                                            lce_params_history_fname=None, **p)
        x = [cell.corr[i.occ] for i in its]
        y = [i.value for i in its]
        c, b, best = lasso_ref.solve(x, y, w, alpha, norm)
        got = lasso_ref.objective(x, y, w, alpha, norm, params.keci, params.empty_cluster)
        chk.expect(got <= best + 2e-4 * lasso_ref.scale(y, w) + 1e-9, "the fit on exported inputs is the fit of the rows", got=got, best=best, n=n, alpha=alpha, normalize=norm)
        chk.expect([float(v) for v in true] == y, "true values of the fit")
        chk.expect([float(v) for v in params.weight] == w, "weights of the fit", got=params.weight, want=w)
        m = LocalClusterExpansion()
        m.build(cell.local, cutoff_cluster=CUT)
        m.load_parameters_from_file(os.path.join(out, "p.json"))
        ev = Event(mobile_ion_indices=(cell.sites[0], cell.sites[-1]), local_env_indices=tuple(cell.sites))
        for i, it in enumerate(its):
            e = float(m.compute(State(occupations=list(it.occ)), ev))
            chk.close(e, float(pred[i]), "fitted model on a training structure", rel=1e-7, abs_=1e-6, row=i)
        chk.step(n)
        chk.state((name, n, alpha, norm, wk))


class Twin:
    """two translationally equivalent centres in one cell: either is a valid reference of the model built around the first"""

    def __init__(self):
        half = [("Na", (0.05, 0.5, 0.5)), ("Na", (0.15, 0.62, 0.5)), ("Si", (0.1, 0.4, 0.62)), ("K", (0.02, 0.45, 0.35))]
        self.species = [s for s, _ in half] * 2
        self.coords = [list(c) for _, c in half] + [[c[0] + 0.5, c[1], c[2]] for _, c in half]
        self.mapping = {"Na": ["Na", "X"], "Si": ["Si", "P"], "K": ["K", "X"]}
        self.lat = np.diag([24.0, 12.0, 13.0])
        self.template = Structure(Lattice(self.lat), self.species, self.coords)
        self.refs = [LocalLatticeStructure(self.template, center=c, cutoff=4.5, site_mapping=self.mapping, basis_type="chebyshev", exclude_center_site=True) for c in (0, 4)]
        self.model = LocalClusterExpansion()
        self.model.build(self.refs[0], cutoff_cluster=list(CUT))
        self.idx = [[int(i) for i in r.site_indices] for r in self.refs]
        self.ref = lce_ref.of_model(self.model, [2] * len(self.idx[0]), CUT, "chebyshev")

    def structure(self, occ):
        at = [(self.mapping[s][o], c) for s, o, c in zip(self.species, occ, self.coords) if self.mapping[s][o] != "X"]
        return Structure(Lattice(self.lat), [a for a, _ in at], [c for _, c in at])

    def row(self, occ, which):
        return self.ref.corr([occ[i] for i in self.idx[which]])


def call(route, ld_args, structure, value, model, **kw):
    """a loader to which one structure was given by the route"""
    if route == "from":
        ref = kw.pop("reference_local_lattice_structure", None)
        return NEBDataLoader.from_structures([structure], [value], model, reference_local_lattice_structure=ref or ld_args.get("reference_local_lattice_structure"), **kw)
    ld = NEBDataLoader(model, **ld_args)
    if route == "entry":
        ld.add(NEBEntry(structure, value), **kw)
    elif route == "structure":
        ld.add_structure(structure, value, **kw)
    else:
        ld.add_structures([structure], [value], **kw)
    return ld


def references(chk):
    tw = Twin()
    chk.expect(sorted(tw.idx[0]) == [1, 2, 3] and sorted(tw.idx[1]) == [5, 6, 7], "environments of the two centres", got=tw.idx)
    for own, arg, route in itertools.product((None, 0, 1), (None, 0, 1), ("entry", "structure", "bulk", "from")):
        want = arg if arg is not None else own if own is not None else 0
        for occ in itertools.product((0, 1), repeat=8):
            if occ[0] or occ[4]:
                continue
            la = {} if own is None else dict(reference_local_lattice_structure=tw.refs[own])
            kw = {} if arg is None else dict(reference_local_lattice_structure=tw.refs[arg])
            ld = call(route, la, tw.structure(occ), 5.0, tw.model, **kw)
            chk.expect(ok_row(list(ld.get_correlation_matrix()[0]), tw.row(occ, want)), "row of the environment that was asked for", loader=own, argument=arg, route=route, occ=occ,
                       got=[float(v) for v in ld.get_correlation_matrix()[0]], want=tw.row(occ, want))
            chk.step()
        chk.state((own, arg, route))


def tolerances(chk, cell):
    """every route agrees on which displaced structures belong to the reference, and with which row"""
    occs = [o for o in cell.states()][::3]
    # displacement and tolerance in Angstrom; near a tolerance nothing is said
    for occ, shift, tol in itertools.product(occs, (0.0, 0.002, 0.03, 0.15, 0.5), (1e-3, 1e-2, 0.1, 0.4)):
        # (a complete structure in template order is compared in fractional, others in Cartesian coordinates)
        accepted = True if shift <= tol / 2 else False if shift / LAT.max() >= 2 * tol else None
        st = cell.structure(occ)
        for i in range(len(st)):
            st.translate_sites([i], [shift if i % 2 else -shift, 0, 0], frac_coords=False)
        seen = {}
        for route in ("entry", "structure", "bulk", "from"):
            try:
                ld = call(route, {}, st.copy(), 5.0, cell.model, tol=tol)
                seen[route] = [round(float(v), 9) for v in ld.get_correlation_matrix()[0]]
            except ValueError:
                seen[route] = None
        chk.expect(all(v == seen["entry"] for v in seen.values()), "the routes treat one structure alike", shift=shift, tol=tol, occ=occ, got=seen)
        if accepted:
            chk.expect(seen["entry"] is not None and ok_row(seen["entry"], cell.corr[occ], 1e-8), "a structure within the tolerance has its row", shift=shift, tol=tol, occ=occ, got=seen["entry"])
        elif accepted is False:
            chk.expect(seen["entry"] is None, "a structure beyond the tolerance was accepted", shift=shift, tol=tol, occ=occ)
        chk.step(4)
        chk.state((occ, shift, tol))


def lengths(chk):
    """models whose vectors differ in one of the two lengths only: no row of one joins rows of the other"""
    mp = {"Na": ["Na", "X"], "Si": ["Si", "P"]}

    def mk(sp, co, cut):
        t = Structure(Lattice(LAT), sp, co)
        lo = LocalLatticeStructure(t, center=0, cutoff=3.5, site_mapping=mp, basis_type="chebyshev", exclude_center_site=True)
        m = LocalClusterExpansion()
        m.build(lo, cutoff_cluster=list(cut))
        return t, m
    c = [0.5, 0.5, 0.5]
    few = mk(["Na", "Na", "Si"], [c, [0.7, 0.5, 0.5], [0.5, 0.5, 0.7]], [1.0] * 3)
    many = mk(["Na", "Na", "Na", "Si"], [c, [0.7, 0.5, 0.5], [0.3, 0.5, 0.5], [0.5, 0.5, 0.7]], [1.0] * 3)
    wide = mk(["Na", "Na", "Na", "Si"], [c, [0.7, 0.5, 0.5], [0.3, 0.5, 0.5], [0.5, 0.5, 0.7]], [8.0] * 3)
    shape = {}
    for n, (t, m) in dict(few=few, many=many, wide=wide).items():
        ld = NEBDataLoader(m)
        ld.add_structure(t, 1.0)
        shape[n] = (ld.get_occupation_matrix().shape[1], ld.get_correlation_matrix().shape[1])
    chk.expect(shape['few'][1] == shape['many'][1] and shape['many'][0] == shape['wide'][0], 'vector lengths of the three models', got=shape)
    for (n, a), (k, b) in itertools.permutations(dict(few=few, many=many, wide=wide).items(), 2):
        if shape[n] == shape[k]:
            continue
        for pre, route in itertools.product((1, 2), ("entry", "structure", "bulk")):
            ld = NEBDataLoader(a[1])
            for i in range(pre):
                ld.add_structure(a[0], float(i))
            kw = dict(model=b[1])
            f = {"entry": lambda: ld.add(NEBEntry(b[0], 9.0), **kw), "structure": lambda: ld.add_structure(b[0], 9.0, **kw), "bulk": lambda: ld.add_structures([b[0]], [9.0], **kw)}[route]
            chk.raises(f, "a row with vectors of another length was accepted", first=n, second=k, shapes=shape, route=route)
            chk.expect([float(v) for v in ld.get_properties()] == [float(i) for i in range(pre)] and ld.get_occupation_matrix().shape == (pre, shape[n][0]) and
                       ld.get_correlation_matrix().shape == (pre, shape[n][1]), "the dataset is as before", first=n, second=k)
            chk.step()
            chk.state((n, k, pre, route))


def main(chk):
    T = chk.thorough
    depth = 4 if T else 3
    count = 5 if T else 4
    chk.bounds = dict(cells=4, occupations="all of each reference cell x 3 atom orders x 3 periodic images", orders="all %d! orders x all cuts into batches" % count,
                      op_depth=depth, weights="8 accepted, 6 rejected forms", fits="sizes x alphas x normalisation x weights")
    chk.assumptions = ["structures given to a dataset have the cell of the reference environment", "an entry object is added to one dataset only",
                       "a batch that fails half way may keep the structures before the failing one"]
    cs = dict(cells())
    for name, cell in cs.items():
        with chk.scenario("rows/" + name) as on:
            if on:
                rows(chk, name, cell)
        with chk.scenario("orders/" + name) as on:
            if on:
                orders(chk, name, cell, count if name != "occ" else min(count, 4), "o_" + name)
        with chk.scenario("weights/" + name) as on:
            if on:
                weights(chk, name, cell)
        with chk.scenario("fit/" + name) as on:
            if on and name != "occ":
                fit(chk, name, cell, (3, 4, 6, 8) if not T else range(2, 13), (0.05, 2.0) if not T else (0.001, 0.05, 0.5, 2.0, 50.0))
    with chk.scenario("rows/four") as on:
        if on:
            rows(chk, "four", four())
    with chk.scenario("references") as on:
        if on:
            references(chk)
    for name in ("binary", "mixed"):
        with chk.scenario("tolerances/" + name) as on:
            if on:
                tolerances(chk, cs[name])
    with chk.scenario("lengths") as on:
        if on:
            lengths(chk)
    for name, oth in (("binary", "mixed"), ("mixed", "binary")):
        with chk.scenario("ops/" + name) as on:
            if on:
                ops(chk, name, cs[name], cs[oth], depth if name == "binary" else 2 + (1 if T else 0), "q_" + name)
