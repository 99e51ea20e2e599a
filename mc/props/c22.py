"""C22: loading a crystal indexes every symmetry image once, with the label of the atom that generates it.

groups   - every symmetry group of a catalogue x every position of a grid (general, on axes, planes, inversion centres) x file forms;
near     - atoms displaced from a symmetry element by less than their thermal motion: their images stay separate sites;
pairs    - every pair of positions (distinct, equal, or symmetry images of each other) x occupancies: merged exactly when they share a site;
text     - every spelling of numbers, symbols, oxidation states, occupancies, blocks and compressed files;
cells    - every supercell matrix of a catalogue: every image of every site once, found back by its label, sequence and cell.
Oracle: orbits in exact rational arithmetic.
"""
import gzip
import itertools
import warnings
from fractions import Fraction as Fr

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.io.cif import load_labeled_structure_from_cif, load_labeled_structure_from_string, load_labeled_structures_from_cif
from kmcpy.structure.sites import (build_site_index, find_site_by_wyckoff_sequence_and_label, find_site_by_wyckoff_sequence_label_and_supercell,
                                   make_kmc_supercell, site_index_key)

I3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def op(r, t=(0, 0, 0)):
    return tuple(map(tuple, r)), tuple(Fr(x) for x in t)


def diag(*d):
    return ((d[0], 0, 0), (0, d[1], 0), (0, 0, d[2]))


R4 = ((0, -1, 0), (1, 0, 0), (0, 0, 1))
R3 = ((0, -1, 0), (1, -1, 0), (0, 0, 1))
R3C = ((0, 0, 1), (1, 0, 0), (0, 1, 0))
H = Fr(1, 2)
GENS = {
    "P1": [], "P-1": [op(diag(-1, -1, -1))], "P2": [op(diag(-1, 1, -1))], "P21/c": [op(diag(-1, 1, -1), (0, H, H)), op(diag(-1, -1, -1))],
    "C2/m": [op(I3, (H, H, 0)), op(diag(-1, 1, -1)), op(diag(-1, -1, -1))], "P4": [op(R4)], "P41": [op(R4, (0, 0, Fr(1, 4)))],
    "P-42m": [op(((0, 1, 0), (-1, 0, 0), (0, 0, -1))), op(diag(-1, 1, -1))], "P31": [op(R3, (0, 0, Fr(1, 3)))],
    "R-3": [op(I3, (Fr(2, 3), Fr(1, 3), Fr(1, 3))), op(R3), op(diag(-1, -1, -1))], "P6/m": [op(R3), op(diag(-1, -1, 1)), op(diag(-1, -1, -1))],
    "I222": [op(I3, (H, H, H)), op(diag(-1, -1, 1)), op(diag(-1, 1, -1))], "P23": [op(R3C), op(diag(-1, -1, 1))],
    "F-43m": [op(I3, (H, H, 0)), op(I3, (0, H, H)), op(R3C), op(((0, 1, 0), (-1, 0, 0), (0, 0, -1)))],
}
HEX = {"P31", "R-3", "P6/m"}


def mul(a, b):
    (ra, ta), (rb, tb) = a, b
    return (tuple(tuple(sum(ra[i][k] * rb[k][j] for k in range(3)) for j in range(3)) for i in range(3)),
            tuple((sum(ra[i][k] * tb[k] for k in range(3)) + ta[i]) % 1 for i in range(3)))


def closure(gens):
    out = [op(I3)]
    new = list(out)
    while new:
        nxt = []
        for a in new:
            for g in gens:
                c = mul(g, a)
                if c not in out:
                    out.append(c)
                    nxt.append(c)
        new = nxt
    return out


GROUPS = {k: closure(g) for k, g in GENS.items()}


def act(o, p):
    r, t = o
    return tuple((sum(r[i][k] * p[k] for k in range(3)) + t[i]) % 1 for i in range(3))


def orbit(ops, p):
    return list(dict.fromkeys(act(o, p) for o in ops))


def xyz(o):
    r, t = o
    out = []
    for i in range(3):
        s = ""
        for c, n in zip(r[i], "xyz"):
            if c:
                s += ("+" if c > 0 and s else "-" if c < 0 else "") + n
        if t[i]:
            s += "+%d/%d" % (t[i].numerator, t[i].denominator)
        out.append(s)
    return ", ".join(out)


def cif(ops, atoms, hexa=False, fmt="%.6f", symbol=True, occ=True, oxi=None, name="mc", header=""):
    """atoms: (label, element, position, occupancy)"""
    a = (7.0, 7.0, 11.0, 90, 90, 120) if hexa else (8.0, 8.0, 8.0, 90, 90, 90)
    out = ["data_" + name, header] + ["_cell_length_a %s" % a[0], "_cell_length_b %s" % a[1], "_cell_length_c %s" % a[2], "_cell_angle_alpha %s" % a[3], "_cell_angle_beta %s" % a[4],
                                      "_cell_angle_gamma %s" % a[5], "loop_", "_symmetry_equiv_pos_as_xyz"] + ["  '%s'" % xyz(o) for o in ops]
    if oxi:
        out += ["loop_", "_atom_type_symbol", "_atom_type_oxidation_number"] + ["  %s %s" % kv for kv in oxi.items()]
    out += ["loop_", "_atom_site_label"] + (["_atom_site_type_symbol"] if symbol else []) + ["_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z"] + (["_atom_site_occupancy"] if occ else [])
    for l, e, p, o in atoms:
        cs = [x if isinstance(x, str) else fmt % float(x) for x in p]
        out.append("  " + " ".join([l] + ([e] if symbol else []) + cs + ([str(o)] if occ else [])))
    return "\n".join(x for x in out if x) + "\n"


def key(c):
    return tuple(float(v) for v in c)


def same(a, b):
    return all(abs((x - y + 0.5) % 1 - 0.5) < 2e-4 for x, y in zip(a, b))


def load(text, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return load_labeled_structure_from_string(text, **kw)


def expected(ops, atoms):
    """list of (label, {element: occupancy}, orbit) after merging atoms that share a site"""
    out = []
    for l, e, p, o in atoms:
        if o == 0:
            continue
        p = tuple(Fr(x) if not isinstance(x, str) else Fr(x) for x in p)
        for rec in out:
            if tuple(v % 1 for v in p) in rec[2]:
                rec[0] += l
                rec[1][e] = rec[1].get(e, 0) + o
                break
        else:
            out.append([l, {e: o}, orbit(ops, p)])
    return out


def judge(chk, s, ops, atoms, dup_labels=False, **kw):
    want = expected(ops, atoms)
    total = sum(len(w[2]) for w in want)
    chk.expect(len(s) == total, "number of sites", got=len(s), want=total, **kw)
    left = list(range(len(s)))
    for label, comp, orb in want:
        norm = sum(comp.values()) if sum(comp.values()) > 1 else 1.0
        seqs = []
        for p in orb:
            hit = [i for i in left if same(key(s[i].frac_coords), p) and s[i].properties["label"] == label]
            chk.expect(len(hit) == 1, "a symmetry image is missing, listed twice or labelled differently", image=[str(x) for x in p], label=label, hits=len(hit), **kw)
            i = hit[0]
            left.remove(i)
            got = {}
            for sp, a in s[i].species.items():
                got[sp.symbol] = got.get(sp.symbol, 0.0) + a
            chk.expect(set(got) == set(comp) and all(abs(got[k] - comp[k] / norm) < 1e-6 for k in comp), "species of a site", got=got, want=comp, **kw)
            chk.expect(all(-1e-9 <= c < 1 + 1e-9 for c in s[i].frac_coords), "sites lie in the cell", **kw)
            seqs.append(s[i].properties["wyckoff_sequence"])
            if not dup_labels:
                f = find_site_by_wyckoff_sequence_and_label(s, s[i].properties["wyckoff_sequence"], label)
                chk.expect(same(key(f.frac_coords), p), "a site is found by its label and sequence", **kw)
        chk.expect(sorted(seqs) == list(range(len(orb))), "the images of one atom are numbered from zero", got=sorted(seqs), label=label, **kw)
    idx = sorted(int(x) for x in s.site_properties["local_index"])
    chk.expect(idx == list(range(total)), "site numbers are unique", got=idx, **kw)


def grid(g, T):
    v = [Fr(0), Fr(1, 4), Fr(1, 3), Fr(1, 2), Fr(13, 100)] + ([Fr(2, 3), Fr(3, 4), Fr(87, 100), Fr(41, 100)] if T else [])
    return list(itertools.product(v, repeat=3))


def groups(chk, T):
    for name, ops in GROUPS.items():
        G = grid(name, T)
        if len(ops) > 20 and not T:
            G = [p for p in G if len(set(p)) < 3 or p[2] == Fr(13, 100)]
        for n, p in enumerate(G):
            kw = [dict(), dict(symbol=False), dict(occ=False), dict(fmt="%.5f")][n % 4]
            at = [("Na1", "Na", p, 1)]
            s = load(cif(ops, at, name in HEX, **kw))
            judge(chk, s, ops, at, group=name, position=[str(x) for x in p])
            chk.step()
            chk.state((name, p))


def near(chk, T):
    """atoms close to a symmetry element: their images are close to each other but separate sites"""
    names = list(GROUPS) if T else ["P-1", "P2", "C2/m", "P4", "R-3", "P23"]
    d = [Fr(2, 1000), Fr(4, 1000), Fr(-3, 1000)] + ([Fr(15, 10000), Fr(9, 1000), Fr(20, 1000)] if T else [Fr(9, 1000)])
    for name in names:
        ops = GROUPS[name]
        for c, e in itertools.product([(0, 0, 0), (H, 0, 0), (H, H, H)], itertools.product([Fr(0)] + d, repeat=3)):
            if sum(1 for x in e if x) == 0 or (len(ops) > 12 and len(set(e)) == 3 and not T):
                continue
            p = tuple((Fr(a) + b) % 1 for a, b in zip(c, e))
            imgs = orbit(ops, p)
            if min(max(abs((x - y + H) % 1 - H) for x, y in zip(a, b)) for a, b in itertools.combinations(imgs, 2)) < Fr(25, 10000) if len(imgs) > 1 else False:
                continue
            at = [("Na1", "Na", p, 1)]
            s = load(cif(ops, at, name in HEX))
            judge(chk, s, ops, at, group=name, position=[str(x) for x in p])
            chk.step()
            chk.state((name, p))


def pairs(chk, T):
    names = list(GROUPS) if T else ["P1", "P-1", "P21/c", "C2/m", "P41", "R-3", "P23", "I222"]
    for name in names:
        ops = GROUPS[name]
        A = [(Fr(13, 100), Fr(1, 4), Fr(41, 100)), (Fr(0), Fr(0), Fr(0)), (H, Fr(0), Fr(29, 100))]
        for p in A:
            imgs = orbit(ops, p)
            cand = imgs + [tuple(x + k for x, k in zip(p, (1, 0, -1))), tuple(-x for x in p), (Fr(77, 100), Fr(11, 100), Fr(59, 100)), tuple(x + Fr(1, 2) for x in p)]
            for q in dict.fromkeys(cand):
                for (e1, o1), (e2, o2) in ((("Na", 0.5), ("K", 0.5)), (("Na", 0.25), ("K", 0.5)), (("Na", 1), ("Cl", 0)), (("Na", 0.5), ("Na", 0.5)), (("Na", 0.99), ("K", 0.0075)), (("Na", 1e-4), ("K", 1e-3))):
                    if e2 == "Cl" and q != cand[0]:
                        continue
                    at = [("A1", e1, p, o1), ("B1", e2, q, o2), ("O1", "O", (Fr(31, 100), Fr(37, 100), Fr(83, 100)), 1)]
                    exp = expected(ops, at)
                    # sites that are distinct in exact arithmetic but closer than the tolerance are not decided here
                    s = load(cif(ops, at, name in HEX))
                    judge(chk, s, ops, at, group=name, first=[str(x) for x in p], second=[str(x) for x in q], occupancies=(o1, o2))
                    chk.step()
                chk.state((name, p, q))


def text(chk):
    ops = GROUPS["P21/c"]
    P, Q = (Fr(13, 100), Fr(1, 4), Fr(41, 100)), (Fr(3, 10), Fr(6, 10), Fr(1, 10))
    spell = [lambda v: "%.4f" % v, lambda v: "%.4f(12)" % v, lambda v: "%.4f(3" % v, lambda v: "%.2f" % v, lambda v: ("%.4f" % v).lstrip("0"), lambda v: "%.4E" % v]
    for f, sym, oxi, occ in itertools.product(spell, (True, False), (None, {"Na+": 1, "O2-": -2}, {"Na": 1, "O": -2}), (True, False)):
        at = [("Na1", "Na+" if oxi and "Na+" in oxi and sym else "Na", tuple(f(float(x)) for x in P), "1.0"), ("O2", "O2-" if oxi and "O2-" in oxi and sym else "O", tuple(f(float(x)) for x in Q), "1")]
        ref = [("Na1", "Na", P, 1), ("O2", "O", Q, 1)]
        s = load(cif(ops, at, symbol=sym, oxi=oxi, occ=occ))
        judge(chk, s, ops, ref, spelling=f(0.41), symbol=sym, oxidation=oxi)
        chk.step()
        chk.state((f(0.41), sym, str(oxi), occ))
    # occupancy above one within the tolerance is rescaled, duplicates of one label stay separate sites
    at = [("Na1", "Na", P, 0.6), ("K1", "K", P, 0.45)]
    s = load(cif(ops, at), occupancy_tolerance=1.2)
    judge(chk, s, ops, at)
    at = [("Na1", "Na", P, 1), ("Na1", "Na", Q, 1)]
    s = load(cif(ops, at))
    chk.equal(len(s), 8, "atoms that share a label are separate sites")
    chk.equal(sorted(s.site_properties["local_index"]), list(range(8)), "site numbers are unique")
    # files, compressed files and several blocks
    b1 = [("Na1", "Na", P, 1), ("O2", "O", Q, 1)]
    b2 = [("Li1", "Li", Q, 1)]
    t = cif(ops, b1) + "\n" + cif(GROUPS["P-1"], b2, name="second")
    for fn, opener in (("a.cif", open), ("a.cif.gz", gzip.open)):
        with opener(fn, "wt") as h:
            h.write(t)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = load_labeled_structure_from_cif(fn)
            many = load_labeled_structures_from_cif(fn)
            sym = load_labeled_structures_from_cif(fn, symmetrized=True)
        judge(chk, one, ops, b1)
        chk.equal(len(many), 2, "one structure per block")
        judge(chk, many[0], ops, b1)
        judge(chk, many[1], GROUPS["P-1"], b2)
        judge(chk, sym[0], ops, b1)
        chk.step(3)
    # several blocks in one text: the first, and all in order
    blocks = [(GROUPS[g], [("%s%d" % (e, i), e, p, 1) for i, (e, p) in enumerate(zip(el, (P, Q)))]) for g, el in (("P1", ("Na",)), ("P-1", ("Li", "O")), ("P21/c", ("K",)), ("P2", ("Na", "Cl")))]
    for n in (1, 2, 3):
        for sel in itertools.permutations(range(len(blocks)), n):
            t = "\n".join(cif(blocks[i][0], blocks[i][1], name="b%d" % i) for i in sel)
            judge(chk, load(t), *blocks[sel[0]], blocks=sel)
            with open("m.cif", "w") as h:
                h.write(t)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                judge(chk, load_labeled_structure_from_cif("m.cif"), *blocks[sel[0]], blocks=sel)
                many = load_labeled_structures_from_cif("m.cif")
            chk.equal(len(many), n, "one structure per block")
            for i, m in zip(sel, many):
                judge(chk, m, *blocks[i], blocks=sel)
            chk.step()
            chk.state(("blocks", sel))
    for bad in ("", "data_x\n_cell_length_a 3\n", cif(ops, [("Na1", "Na", ("?", "0.1", "0.2"), 1)])):
        chk.raises(lambda: load(bad), "a file without a usable structure was accepted", text=bad[:60])
        chk.step()


def cells(chk, T):
    mats = [(1, 1, 1), (2, 1, 1), (1, 2, 3), (3, 1, 2), (2, 2, 2), (12, 1, 1), (1, 1, 13), ((1, 1, 0), (-1, 1, 0), (0, 0, 1)), ((2, 0, 0), (0, 1, 1), (0, 0, 2)), ((0, 1, 1), (1, 0, 1), (1, 1, 0)), ((-1, 1, 1), (1, -1, 1), (1, 1, -1))]
    if T:
        mats += [m for m in itertools.product((1, 2, 3), repeat=3) if m not in mats] + [((1, 2, 0), (0, 1, 0), (0, 1, 2)), ((2, 1, 0), (1, 2, 0), (0, 0, 1))]
    for name in ("P1", "P21/c", "R-3", "C2/m"):
        ops = GROUPS[name]
        for positions in (((Fr(13, 100), Fr(1, 4), Fr(41, 100)),), ((Fr(0), Fr(0), Fr(0)), (Fr(0), Fr(0), H)), ((Fr(99, 100), Fr(1, 100), Fr(1, 2)), (H, Fr(0), Fr(0)))):
            at = [("Na%d" % (i + 1), ("Na", "K")[i % 2], p, 1) for i, p in enumerate(positions)]
            s = load(cif(ops, at, name in HEX))
            base = [(key(x.frac_coords), x.properties["label"], x.properties["local_index"], x.properties["wyckoff_sequence"], x.species_string) for x in s]
            before = s.as_dict()
            for m in mats:
                M = np.diag(m) if not isinstance(m[0], tuple) else np.array(m)
                det = int(round(abs(np.linalg.det(M))))
                for unit in (True, False):
                    sc = make_kmc_supercell(s, m, to_unit_cell=unit)
                    chk.expect(len(sc) == det * len(s), "a supercell lists every image once", got=len(sc), want=det * len(s), matrix=m)
                    chk.expect(np.allclose(sc.lattice.matrix, M @ s.lattice.matrix), "supercell lattice", matrix=m)
                    seen = set()
                    inv = np.linalg.inv(M)
                    for i, x in enumerate(sc):
                        img = x.properties["supercell"]
                        src = [b for b in base if b[1] == x.properties["label"] and b[2] == x.properties["local_index"]]
                        chk.expect(len(src) == 1, "a supercell site belongs to one site of the cell", matrix=m)
                        b = src[0]
                        chk.expect(b[3] == x.properties["wyckoff_sequence"] and b[4] == x.species_string, "properties of a supercell site", matrix=m)
                        want = (np.array(b[0]) + np.array(img)) @ inv
                        d = np.array(x.frac_coords) - want
                        chk.expect(np.abs(d - np.rint(d)).max() < 1e-6, "a supercell site lies in the cell it is labelled with", matrix=m, image=img, site=i)
                        seen.add((img, b[1], b[2]))
                    chk.expect(len(seen) == len(sc), "two supercell sites have one identity", matrix=m)
                    # images are distinct modulo the supercell
                    cls = {tuple(np.round(((np.array(i) @ inv) % 1 + 1e-9) % 1, 6)) for i, _, _ in seen}
                    chk.expect(len(cls) == det, "the cells of a supercell differ", got=len(cls), want=det, matrix=m)
                    ix = build_site_index(sc, skip_check=False)
                    chk.expect(len(ix) == len(sc), "site index", matrix=m)
                    for i, x in enumerate(sc):
                        pr = x.properties
                        chk.expect(ix[site_index_key(pr["supercell"], pr["label"], pr["local_index"])] == i, "site index", site=i, matrix=m)
                        if unit:
                            j = find_site_by_wyckoff_sequence_label_and_supercell(sc, pr["wyckoff_sequence"], pr["label"], pr["supercell"])
                            chk.expect(j == i, "a site is found by its label, sequence and cell", site=i, got=j, matrix=m)
                    chk.step()
                    chk.state((name, positions, m))
            chk.expect(s.as_dict() == before, "building a supercell changed the structure")
            sc = make_kmc_supercell(s, (2, 1, 1))
            for args in ((99, "Na1", (0, 0, 0)), (0, "Zz", (0, 0, 0)), (0, "Na1", (7, 0, 0))):
                chk.raises(lambda: find_site_by_wyckoff_sequence_label_and_supercell(sc, *args), "a site that does not exist was found", args=args)
            chk.raises(lambda: find_site_by_wyckoff_sequence_and_label(s, 99, "Na1"), "a site that does not exist was found")
            doubled = Structure.from_sites(list(sc) + [sc[0]])
            chk.raises(lambda: build_site_index(doubled, skip_check=False), "two sites with one identity were accepted")
            plain = Structure(Lattice.cubic(3), ["Na"], [[0, 0, 0]])
            for f in (lambda: build_site_index(plain), lambda: find_site_by_wyckoff_sequence_and_label(plain), lambda: find_site_by_wyckoff_sequence_label_and_supercell(plain)):
                chk.raises(f, "a structure without labels was accepted")


def main(chk):
    T = chk.thorough
    chk.bounds = dict(groups={k: len(v) for k, v in GROUPS.items()}, positions="all of {0,1/4,1/3,1/2,0.13}^3" + (" and four more coordinates" if T else ""), pairs="every symmetry image and other partners",
                      supercells="diagonal and oblique integer matrices")
    chk.assumptions = ["positions closer than the site tolerance but not equal are not judged", "conventional cells (no reduction to a primitive cell), non-magnetic files"]
    for n, f in (("groups", lambda: groups(chk, T)), ("near", lambda: near(chk, T)), ("pairs", lambda: pairs(chk, T)), ("text", lambda: text(chk)), ("cells", lambda: cells(chk, T))):
        with chk.scenario(n) as on:
            if on:
                f()
