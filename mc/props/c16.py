"""C16: occupations and structures convert into each other without loss.

Every occupation (or, above the stated size, every occupation within two deviations of a uniform one) of every
template of a catalogue x supercell matrix x basis is turned into a structure and read back; the structure is
judged site by site against an independent position -> species table; reading is repeated for permuted, displaced,
re-imaged, dummy-decorated copies; every single-defect structure must be rejected.
"""
import itertools
import json

import numpy as np
from pymatgen.core import DummySpecies, Lattice, Species, Structure

from kmcpy.structure import ActiveSiteOrder, LatticeStructure, Occupation

LATT = {"ortho": np.diag([3.0, 4.1, 5.3]), "tric": np.array([[4.0, 0, 0], [1.3, 3.8, 0], [0.7, -0.9, 5.0]]),
        "fcc": 2.1 * np.array([[0, 1.0, 1.0], [1.0, 0, 1.0], [1.0, 1.0, 0]])}
POS = [[0.05, 0.10, 0.15], [0.55, 0.35, 0.80], [0.30, 0.85, 0.45], [0.80, 0.60, 0.05]]
# name -> (template species, mapping)
MAPS = {
    "bin": {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O", "K": ["Vacancy", "K"]},
    "tri": {"Na": ["Na", "X", "K"], "Si": ["P", "Si", "Va"], "O": ["O"], "K": ["X", "K"]},
    "charged": {"Na+": ["Na+", "X"], "Fe3+": ["Fe2+", "Fe3+", "X"], "O2-": ["O2-"], "K": ["K", "X"]},
    "dummy": {"X": ["Na", "X"], "O": ["O"], "Si": ["Si", "P"]},
    "spell": {"Na": ["Na", "VA"], "Si": ["vacancy", "Si", "P"], "O": ["O", "Vacancy"], "K": ["Va", "K"]},
}
SEQ = {
    "bin": ["Na", "K", "Na O", "O Na", "Si Na", "Na Si O", "Na Si Na", "O K Na"],
    "tri": ["Na", "Si K", "Na O Si", "K Na O"],
    "charged": ["Na+", "Fe3+", "Na+ Fe3+ O2-", "K Fe3+"],
    "dummy": ["X", "O X", "Si X O"],
    "spell": ["Na", "Na Si", "K O", "Na Si O"],
}
SC = {"1": np.eye(3, dtype=int), "2a": np.diag([2, 1, 1]), "2b": np.diag([1, 2, 1]), "3c": np.diag([1, 1, 3]), "22": np.diag([2, 2, 1]),
      "rot": np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]]), "shear": np.array([[1, 0, 1], [0, 1, 0], [0, 0, 1]]),
      "shear2": np.array([[2, 1, 0], [0, 1, 0], [0, 0, 1]]),
      "big": np.diag([4, 4, 5]), "big2": np.diag([6, 6, 5])}
VAC = ("X", "Vacancy", "Va", "vacancy", "VA")
CHARGED = {"Na+": "Na", "Fe3+": "Fe", "Fe2+": "Fe", "O2-": "O"}


def lab(s):
    return "X" if s in VAC else s


def sp(s):
    return DummySpecies("X") if s == "X" else Species(s)


def text(s):
    """species text, with charge only when the species carries one"""
    sym = getattr(s, "symbol", str(s))
    if sym in VAC:
        return "X"
    ox = getattr(s, "oxi_state", None)
    return str(s) if ox else sym


def template(seq, latt):
    return Structure(Lattice(LATT[latt]), [sp(s) for s in seq], POS[:len(seq)])


def allowed_of(mp, s):
    v = MAPS[mp][s]
    return [lab(x) for x in (v if isinstance(v, (list, tuple)) else [v])]


def dist(latt, a, b):
    """shortest image distance, brute force over 5^3 images"""
    d = np.asarray(a) - np.asarray(b)
    d = d - np.round(d)
    return min(np.linalg.norm((d + m) @ latt) for m in itertools.product((-1, 0, 1), repeat=3))


class Cell:
    def __init__(self, mp, seq, latt, sc, basis):
        self.seq = seq.split()
        self.mp, self.sc, self.basis = mp, SC[sc], basis
        self.t = template(self.seq, latt)
        self.ls = LatticeStructure(self.t, MAPS[mp], basis_type=basis) if basis != "chebyshev" else LatticeStructure(self.t, MAPS[mp])
        sup = self.t.copy()
        sup.add_site_property("i", list(range(len(sup))))
        sup.make_supercell(self.sc)
        self.pos = np.array(sup.frac_coords)
        self.latt = np.array(sup.lattice.matrix)
        self.prim = [int(x.properties["i"]) for x in sup]
        self.allowed = [allowed_of(mp, self.seq[i]) for i in self.prim]
        self.n = len(self.prim)

    def value(self, state):
        if self.basis == "chebyshev":
            return state
        return 1 if state == 0 else 0

    def structure(self, states, dummies=False, order=None, shift=None):
        """independent construction of the structure an occupation denotes"""
        s, c = [], []
        for j in (order if order is not None else range(self.n)):
            a = self.allowed[j][states[j]]
            if a == "X" and not dummies:
                continue
            s.append(sp(a))
            c.append(self.pos[j] + (shift(j) if shift else 0))
        return Structure(Lattice(self.latt), s, c) if s else None

    def occupations(self, limit):
        ranges = [range(len(a)) for a in self.allowed]
        tot = int(np.prod([len(r) for r in ranges]))
        if tot <= limit:
            return list(itertools.product(*ranges))
        out = set()
        for base in range(3):
            b = [min(base, len(r) - 1) for r in ranges]
            for i, j in itertools.combinations(range(self.n), 2):
                for x, y in itertools.product(ranges[i], ranges[j]):
                    o = list(b)
                    o[i], o[j] = x, y
                    out.add(tuple(o))
        return sorted(out)


def judge_structure(chk, c, got, states, what):
    chk.expect(np.allclose(got.lattice.matrix, c.latt, atol=1e-6), what + ": lattice", got=got.lattice.matrix.tolist())
    want = {j: c.allowed[j][states[j]] for j in range(c.n)}
    seen = {}
    F = np.array(got.frac_coords)
    for k in range(len(got)):
        d = c.pos - F[k]
        d -= np.round(d)
        j = int(np.argmin(np.linalg.norm(d @ c.latt, axis=1)))
        chk.expect(np.linalg.norm(d[j] @ c.latt) < 1e-4 and j not in seen, what + ": site is not a template site", site=k)
        seen[j] = text(got[k].specie)
    for j, s in want.items():
        chk.expect(seen.get(j, "X") == s, what + ": wrong species on a site", site=j, got=seen.get(j), want=s, occupation=states)


def read(chk, c, s, states, what, **kw):
    want = [c.value(x) for x in states]
    before = [(text(x.specie), tuple(x.frac_coords)) for x in s]
    occ = c.ls.get_occ_from_structure(s, **kw)
    got = [int(x) for x in occ.values]
    # a site that allows no vacancy is present in every structure, so no fallback is involved here
    chk.expect(got == want, what, got=got, want=want, states=states)
    chk.expect(before == [(text(x.specie), tuple(x.frac_coords)) for x in s], "reading changed the structure")
    chk.step()
    return occ


def empty(c):
    s = Structure(Lattice(c.latt), ["H"], [[0, 0, 0]])
    s.remove_sites([0])
    return s


DISP = [np.array([0.02, -0.015, 0.01]), np.array([-0.02, 0.0, 0.018]), np.array([0.012, 0.02, -0.02])]


def walk(chk, c, limit, full_variants):
    n = c.n
    t0 = [(text(x.specie), tuple(x.frac_coords)) for x in c.t]
    al0 = [[text(s) for s in a] for a in c.ls.allowed_species]
    perms = [list(range(n))[::-1], [(i + 1) % n for i in range(n)], [(i * 2) % n for i in range(n)] if n % 2 else [i ^ 1 if (i ^ 1) < n else i for i in range(n)]]
    for k, states in enumerate(c.occupations(limit)):
        chk.state(tuple(states))
        occ = Occupation([c.value(x) for x in states], basis=c.ls.basis)
        m = c.sc if k % 2 else c.sc.tolist()
        args = (occ,) if (c.sc == np.eye(3)).all() and k % 2 else (occ, m)
        s = c.ls.get_structure_from_occ(*args)
        judge_structure(chk, c, s, states, "structure built from an occupation")
        chk.expect([int(x) for x in occ.values] == [c.value(x) for x in states], "building a structure changed the occupation")
        occ2 = read(chk, c, s, states, "reading back a built structure")
        chk.expect(occ2 == occ and occ2.basis == occ.basis, "occupation read back is not equal to the original")
        s2 = c.ls.get_structure_from_occ(occ2, m)
        judge_structure(chk, c, s2, states, "structure rebuilt from the occupation read back")
        variants = range(7) if full_variants else (k % 7, (k + 3) % 7)
        for v in variants:
            if v < 3:
                x = c.structure(states, order=perms[v])
                if x is not None:
                    read(chk, c, x, states, "reading a permuted structure", **({"sc_matrix": c.sc} if k % 3 == 0 else {}))
            elif v == 3:
                x = c.structure(states, shift=lambda j: DISP[j % 3])
                if x is not None:
                    read(chk, c, x, states, "reading a displaced structure")
            elif v == 4:
                x = c.structure(states, order=perms[0], shift=lambda j: np.array([(1, 0, -1), (0, -1, 2), (-2, 1, 0)][j % 3]))
                if x is not None:
                    read(chk, c, x, states, "reading a structure with sites in other cells")
            elif v == 5:
                read(chk, c, c.structure(states, dummies=True, order=perms[1]), states, "reading a structure with dummy vacancies")
            else:
                order = perms[0]
                x = c.structure(states, dummies=True, order=order, shift=lambda j: np.array([0.31, 0.17, 0.23]))
                read(chk, c, x, states, "reading with an explicit site mapping", structure_site_mapping=order)
                keep = [j for j in perms[1] if c.allowed[j][states[j]] != "X"]
                if keep:
                    x = c.structure(states, order=keep)
                    read(chk, c, x, states, "reading with an explicit partial site mapping", structure_site_mapping=np.array(keep))
        if all(c.allowed[j][states[j]] == "X" for j in range(n)):
            read(chk, c, empty(c), states, "reading an empty structure")
        chk.outcome(tuple(sorted(c.allowed[j][x] for j, x in enumerate(states))))
    chk.expect(t0 == [(text(x.specie), tuple(x.frac_coords)) for x in c.t] and al0 == [[text(s) for s in a] for a in c.ls.allowed_species]
               and len(c.ls.template_structure) == len(c.seq), "conversion changed the template")
    # single-site queries agree with the conversion
    for i, s in enumerate(c.seq):
        al = allowed_of(c.mp, s)
        for q, a in enumerate(al):
            chk.expect(c.ls.occupation_value_for_species(i, sp(a)) == c.value(q), "occupation value of a species", site=i, species=a)
            if c.basis == "chebyshev" or len(al) <= 2:
                chk.expect(text(c.ls.species_for_occupation_value(i, c.value(q))) == a, "species of an occupation value", site=i, value=c.value(q))
        chk.raises(lambda: c.ls.occupation_value_for_species(i, Species("Xe")), "unknown species has an occupation value")
        chk.raises(lambda: c.ls.species_for_occupation_value(i, 7), "value outside the basis denotes a species")
        if c.basis == "chebyshev":
            chk.raises(lambda: c.ls.species_for_occupation_value(i, len(al)), "value beyond the allowed species denotes a species", site=i)


def large(chk, mp, seq, latt, sc, basis):
    """systems beyond a hundred sites: uniform, striped, half-filled and one-deviation occupations"""
    c = Cell(mp, seq, latt, sc, basis)
    k = [len(a) for a in c.allowed]
    pats = []
    for base in range(3):
        pats.append(tuple(min(base, q - 1) for q in k))
    pats.append(tuple(j % q for j, q in enumerate(k)))
    pats.append(tuple((j * j // 3) % q for j, q in enumerate(k)))
    pats.append(tuple(0 if j < c.n // 2 else q - 1 for j, q in enumerate(k)))
    for i in (0, 1, 63, 64, 65, 99, 100, 127, 128, c.n - 1):
        if i < c.n:
            for base in (0, 1):
                o = [min(base, q - 1) for q in k]
                o[i] = k[i] - 1 - o[i]
                pats.append(tuple(o))
    for states in dict.fromkeys(pats):
        chk.state(states)
        occ = Occupation([c.value(x) for x in states], basis=c.ls.basis)
        s = c.ls.get_structure_from_occ(occ, c.sc)
        judge_structure(chk, c, s, states, "large structure built from an occupation")
        if len(s):
            read(chk, c, s, states, "reading back a large structure")
            x = c.structure(states, order=list(range(c.n))[::-1], shift=lambda j: np.array([(1, 0, -1), (0, -1, 2), (-2, 1, 0)][j % 3]))
            read(chk, c, x, states, "reading a large permuted structure")
        chk.outcome(len(s))


def defects(chk, c):
    n = c.n
    base = tuple(0 for _ in range(n))
    full = c.structure(base, dummies=True)
    read(chk, c, full, base, "reading the defect-free structure")
    every = sorted({x for a in c.allowed for x in a} | {"Xe", "Rb+"})
    ok = {"X": "X"}

    def elem(x):
        return CHARGED.get(x, x.rstrip("+-0123456789") or x)
    for j in range(n):
        al = {elem(x) for x in c.allowed[j]}
        for e in every:
            if elem(e) in al:
                continue
            x = full.copy()
            x.replace(j, sp(e))
            chk.raises(lambda: c.ls.get_occ_from_structure(x), "species not allowed on the site accepted", site=j, species=e, exc=ValueError)
            chk.step()
        # misplaced beyond the tolerance (fractional 0.1 by default), away from every template site
        for v in itertools.product((-0.3, -0.15, 0.0, 0.15, 0.3), repeat=3):
            p = c.pos[j] + np.array(v)
            d = c.pos - p
            d -= np.round(d)
            if np.linalg.norm(d, axis=1).min() < 0.125:
                continue
            x = full.copy()
            x.replace(j, full[j].specie, p)
            chk.raises(lambda: c.ls.get_occ_from_structure(x), "misplaced site accepted", site=j, shift=v, exc=ValueError)
            chk.step()
        # a tighter tolerance is honoured
        x = full.copy()
        x.replace(j, full[j].specie, c.pos[j] + np.array([0.03, 0.0, 0.0]))
        chk.raises(lambda: c.ls.get_occ_from_structure(x, tol=0.01), "displacement beyond the given tolerance accepted", site=j, exc=ValueError)
        read(chk, c, x, base, "displacement within the given tolerance", tol=0.05)
        # duplicated site
        for e in (full[j].specie, sp(c.allowed[j][-1])):
            x = full.copy()
            x.append(e, c.pos[j] + np.array([0.01, 0.0, 0.01]), validate_proximity=False)
            chk.raises(lambda: c.ls.get_occ_from_structure(x), "duplicated site accepted", site=j, exc=ValueError)
            if n > 1:
                x = full.copy()
                x.remove_sites([(j + 1) % n])
                x.append(e, c.pos[j] + np.array([0.01, 0.0, 0.01]), validate_proximity=False)
                chk.raises(lambda: c.ls.get_occ_from_structure(x), "duplicated site replacing another accepted", site=j, exc=ValueError)
            chk.step()
    # wrong cells
    for name, L in (("stretched", c.latt * 1.05), ("one axis", np.diag([1, 1.5, 1]) @ c.latt), ("half", c.latt * 0.5), ("sheared", c.latt + np.array([[0, 0.4, 0], [0, 0, 0], [0, 0, 0]])),
                    ("swapped", c.latt[[1, 0, 2]] @ np.diag([1, 1, 1.07]))):
        x = Structure(Lattice(L), full.species, full.frac_coords)
        chk.raises(lambda: c.ls.get_occ_from_structure(x), "structure with another cell accepted", cell=name, exc=ValueError)
        chk.step()
    for m in (np.diag([2, 1, 1]) @ c.sc, np.diag([1, 1, 2]) @ c.sc):
        chk.raises(lambda: c.ls.get_occ_from_structure(full, sc_matrix=m), "explicit supercell matrix of another cell accepted", exc=ValueError)
    # explicit mapping defects
    ident = list(range(n))
    for bad in (ident[:-1], ident + [0], [ident[0] - 1] + ident[1:], ident[:-1] + [n], [0] * n if n > 1 else [5]):
        chk.raises(lambda: c.ls.get_occ_from_structure(full, structure_site_mapping=bad), "invalid site mapping accepted", mapping=bad, exc=ValueError)
    # occupations that do not fit
    for ln in {0, 1, n - 1, n + 1, 2 * n} - {n}:
        o = Occupation([c.value(0)] * ln, basis=c.ls.basis)
        chk.raises(lambda: c.ls.get_structure_from_occ(o, c.sc), "occupation of wrong length accepted", length=ln)
    for j in range(n):
        v = [c.value(0)] * n
        v[j] = len(c.allowed[j]) if c.basis == "chebyshev" else 3
        o = Occupation(v, basis=c.ls.basis, validate=False)
        chk.raises(lambda: c.ls.get_structure_from_occ(o, c.sc), "occupation value outside the allowed states accepted", site=j)


def active(chk, mp, seq, latt, shape):
    """reading in the active-site layout agrees with reading in the full layout"""
    seq = seq.split()
    t = template(seq, latt)
    ls = LatticeStructure(t, MAPS[mp])
    o = ActiveSiteOrder.from_structure_and_mapping(t, MAPS[mp], shape)
    full = o.full_structure_with_properties()
    pos, L = np.array(full.frac_coords), np.array(full.lattice.matrix)
    prim = []
    for j in range(len(full)):
        for i, f in enumerate(t.frac_coords):
            d = pos[j] * np.array(shape) - f
            if np.linalg.norm(d - np.round(d)) < 1e-6:
                prim.append(i)
    al = [allowed_of(mp, seq[i]) for i in prim]
    als = ls.get_active_lattice_structure(shape)
    act = [int(x) for x in o.active_to_original]
    chk.expect(len(als.template_structure) == len(act) and [[text(s) for s in a] for a in als.allowed_species] == [al[x] for x in act],
               "active lattice structure", got=[[text(s) for s in a] for a in als.allowed_species])
    prod = list(itertools.product(*(range(len(al[j])) for j in act)))
    for states in prod[:400]:
        fs = [0] * len(full)
        for a, x in zip(act, states):
            fs[a] = x
        keep = [j for j in range(len(full)) if al[j][fs[j]] != "X"]
        if not keep:
            continue
        s = Structure(Lattice(L), [sp(al[j][fs[j]]) for j in keep[::-1]], pos[keep[::-1]])
        occ = [int(x) for x in ls.get_occ_from_structure(s).values]
        chk.expect(occ == fs, "full-layout occupation", got=occ, want=fs)
        chk.equal([int(x) for x in o.select_active_values(occ)], list(states), "active values selected from the occupation of a structure")
        if set(keep) & set(act):
            a = o.filter_active_structure(s)
            got = [int(x) for x in als.get_occ_from_structure(a).values]
            chk.expect(got == list(states), "active-layout occupation of the filtered structure", got=got, want=list(states))
            b = als.get_structure_from_occ(Occupation(list(states), basis=als.basis))
            chk.expect(len(b) == len(a) and all(any(dist(L, x.frac_coords, y.frac_coords) < 1e-4 and text(x.specie) == text(y.specie) for y in b) for x in a),
                       "structure of an active occupation differs from the filtered structure", states=states)
        chk.state(tuple(states))
        chk.step()


def container(chk, N):
    """Occupation: values survive copying, slicing, basis changes; validation is exact"""
    for n in range(1, N + 1):
        for v in itertools.product((0, 1), repeat=n):
            for b, other in (("chebyshev", "occupation"), ("occupation", "chebyshev")):
                o = Occupation(list(v), basis=b)
                chk.expect(tuple(o.values) == v and tuple(o) == v and len(o) == n and [o[i] for i in range(n)] == list(v), "values of an occupation")
                p = o.to_basis(other)
                chk.expect(tuple(p.values) == tuple(1 - x for x in v) and p.basis == other, "occupation in another basis", got=p.values, value=v)
                chk.expect(p.to_basis(b) == o and o.equivalent_to(p) and p.equivalent_to(o) and o != p, "basis round trip", value=v)
                c = o.copy()
                for i in range(n):
                    f = o.flip(i)
                    chk.expect(tuple(f.values) == tuple(1 - x if k == i else x for k, x in enumerate(v)) and tuple(o.values) == v, "flipping one site")
                    chk.expect(f.flip([i]) == o and not f.equivalent_to(o), "flipping twice")
                    g = o.copy()
                    g.flip_inplace([i])
                    chk.expect(g == f and c == o, "flipping in place")
                    c2 = o.copy()
                    c2[i] = 1 - v[i]
                    chk.expect(c2 == f and tuple(o.values) == v, "changing a copy changed the original")
                o.data[0] = 1 - v[0]
                o.values[0] = 1 - v[0]
                chk.expect(tuple(o.values) == v, "the exposed data is not a copy")
                occd = [i for i in range(n) if v[i] == (0 if b == "chebyshev" else 1)]
                chk.expect(o.get_occupied_indices() == occd == o.get_match_indices() and o.count_occupied() == len(occd) == o.count_match()
                           and o.get_vacant_indices() == [i for i in range(n) if i not in occd] == o.get_mismatch_indices() and o.count_vacant() == n - len(occd) == o.count_mismatch(),
                           "occupied and vacant sites", value=v)
                for i, j in itertools.combinations(range(n + 1), 2):
                    chk.expect(tuple(o[i:j].values) == v[i:j] and tuple(o[list(range(i, j))].values) == v[i:j], "slice of an occupation")
                chk.state((v, b))
                for i in range(n):
                    w = list(v)
                    w[i] = 2
                    chk.raises(lambda: Occupation(w, basis=b), "invalid occupation value accepted", value=w)
                    w[i] = -1
                    chk.raises(lambda: Occupation(w, basis=b), "invalid occupation value accepted", value=w)


def multistate(chk, N):
    """occupations of several states per site, bases through storage, and the uniform and random constructors"""
    from kmcpy.structure.basis import BasisFunction, get_basis
    for q in range(2, 6):
        b = get_basis("chebyshev", max_states=q)
        for b2 in (b, BasisFunction.from_dict(b.as_dict()), type(b).from_dict(json.loads(json.dumps(b.as_dict())))):
            chk.expect(b2.valid_values == set(range(q)), "values a basis accepts", states=q, got=sorted(b2.valid_values))
            chk.close(np.array(b2.site_basis_values(q)), np.array(b.site_basis_values(q)), "site functions of a reloaded basis")
            for n in range(1, N + 1):
                for v in itertools.product(range(q), repeat=n):
                    o = Occupation(list(v), basis=b2)
                    c = o.copy()
                    chk.expect(tuple(o.values) == v and c == o and tuple(c.values) == v and o[0:n] == o and o[list(range(n))] == o and o.array_equal(list(v)),
                               "values of an occupation with several states", states=q, value=v)
                    for i in range(n):
                        for x in range(q + 1):
                            c = o.copy()
                            w = v[:i] + (x,) + v[i + 1:]
                            if x < q:
                                c[i] = x
                                chk.expect(tuple(c.values) == w and (c == o) == (w == v) and tuple(o.values) == v, "changing a copy", states=q, value=v, to=w)
                            else:
                                chk.raises(lambda: c.__setitem__(i, x), "invalid state accepted", states=q, value=x)
                    chk.state((q, v))
                    chk.step()
    for name in ("chebyshev", "occupation"):
        b = get_basis(name)
        b2 = BasisFunction.from_dict(b.as_dict())
        chk.expect(type(b2) is type(b) and b2.valid_values == b.valid_values and b2.match_value == b.match_value, "reloaded basis", name=name)
        chk.raises(lambda: BasisFunction.from_dict(dict(b.as_dict(), **{"@class": "Other", "name": "other"})), "unknown basis accepted")
        for n in range(0, 7):
            for how in (name, b):
                z, u = Occupation.zeros(n, basis=how), Occupation.ones(n, basis=how)
                vac, occ = (1, 0) if name == "chebyshev" else (0, 1)
                chk.expect(z.values == [vac] * n and z.count_vacant() == n and u.values == [occ] * n and u.count_occupied() == n, "uniform occupations", basis=name, n=n)
                for seed in (0, 1, 2, 12345):
                    for f in (0.0, 0.3, 1.0):
                        r = Occupation.random(n, basis=how, fill_fraction=f, seed=seed)
                        r2 = Occupation.random(n, basis=how, fill_fraction=f, seed=seed)
                        chk.expect(len(r) == n and r == r2 and set(r.values) <= {0, 1}, "random occupation of a seed", basis=name, n=n, seed=seed)
                        chk.expect((f != 0.0 or r.count_occupied() == 0) and (f != 1.0 or r.count_vacant() == 0), "fraction of a random occupation", basis=name, f=f)
                        chk.step()
    for x in ("nope", 3, None):
        chk.raises(lambda: Occupation([0, 1], basis=x), "unknown basis accepted", basis=x)


def main(chk):
    T = chk.thorough
    lim = 400 if T else 60
    latts = ["ortho", "tric", "fcc"] if T else ["ortho", "tric"]
    scs = [x for x in SC if not x.startswith("big")] if T else ["1", "2a", "3c", "22", "rot", "shear2"]
    chk.bounds = dict(templates=SEQ, lattices=latts, supercells=scs, occupations="all when at most %d, else all within two sites of each uniform occupation" % lim,
                      reading="permuted, displaced, re-imaged, dummy vacancies, explicit mapping", defects="every site x every species; 5^3 displacements; duplicates; 5 wrong cells")
    chk.assumptions = ["the occupation basis is only used with sites of at most two states (it has two values)",
                       "displaced atoms stay closer (fractionally) to their own site than to any other",
                       "sites that allow no vacancy are present (kMCpy documents a fallback state for absent ones)"]
    for mp in MAPS:
        for si, seq in enumerate(SEQ[mp]):
            for li, latt in enumerate(latts):
                for ki, sc in enumerate(scs):
                    if not T and (si + ki) % len(latts) != li:
                        continue
                    n = len(seq.split()) * int(round(abs(np.linalg.det(SC[sc]))))
                    if n > (12 if T else 8):
                        continue
                    bases = ["chebyshev"] + (["occupation"] if all(len(allowed_of(mp, s)) <= 2 for s in seq.split()) and (T or ki % 2 == si % 2) else [])
                    for b in bases:
                        with chk.scenario("convert/%s/%s/%s/%s/%s" % (mp, seq.replace(" ", "-"), latt, sc, b)) as on:
                            if on:
                                c = Cell(mp, seq, latt, sc, b)
                                walk(chk, c, lim, T or n <= 2)
                                if T or n <= 4:
                                    defects(chk, c)
    for mp, seq, latt, shape in [("bin", "Na Si O", "ortho", (1, 2, 1)), ("bin", "O K Na", "tric", (2, 1, 1)), ("tri", "Na O Si", "tric", (1, 1, 1)), ("charged", "Na+ Fe3+ O2-", "ortho", (1, 1, 2)),
                                 ("bin", "Na Si Na", "ortho", (1, 1, 2))] + ([("tri", "K Na O", "fcc", (1, 2, 1)), ("bin", "Si Na", "tric", (2, 2, 1))] if T else []):
        with chk.scenario("active/%s/%s/%s/%s" % (mp, seq.replace(" ", "-"), latt, shape)) as on:
            if on:
                active(chk, mp, seq, latt, shape)
    for mp, seq, latt, sc, b in [("bin", "Na Si", "tric", "big", "chebyshev"), ("bin", "O Na", "ortho", "big", "occupation")] + ([("tri", "Na Si", "fcc", "big2", "chebyshev")] if T else []):
        with chk.scenario("large/%s/%s/%s" % (mp, seq.replace(" ", "-"), b)) as on:
            if on:
                large(chk, mp, seq, latt, sc, b)
    with chk.scenario("unmapped") as on:
        if on:
            # a template species without an entry in the mapping cannot be read
            for seq in (["Na", "Zr"], ["Zr", "Na"]):
                t = template(seq, "ortho")
                def go():
                    ls = LatticeStructure(t, {"Na": ["Na", "X"]})
                    return ls.get_occ_from_structure(t)
                chk.raises(go, "structure with an unmapped site accepted", template=seq)
                chk.step()
            t = template(["Na"], "ortho")
            chk.raises(lambda: LatticeStructure(t, {"Na": ["Na", "X"]}, basis_type="nope"), "unknown basis accepted", exc=ValueError)
            chk.state("u")
    with chk.scenario("occupation-container") as on:
        if on:
            container(chk, 6 if T else 4)
    with chk.scenario("multistate-container") as on:
        if on:
            multistate(chk, 4 if T else 3)
