"""C23: gathered Monte Carlo and KMC data describe the files they come from.

supercell - every prim description of a catalogue x shape: the template holds every image of every active site once, in the order of the prim;
occ       - every occupation of small templates (template species, other species, nothing per site) x orders of the atoms, periodic images,
            rounding noise: entry i is -1 exactly when the template's species sits on template site i;
gather    - every set of result folders up to a size x every order in which the folders are finished by the workers x locations:
            one row per folder with its own numbers and occupation, ordered by composition, then index;
kmc       - every set of result files up to a size x row counts x locations: every record once, in order, numbered within its file.
Oracle: the names and contents the harness wrote.
"""
import contextlib
import io
import itertools
import json
import multiprocessing
import os
import shutil
import threading
from unittest import mock

import joblib
import numpy as np
import pandas as pd
from pymatgen.core import Lattice, Structure

from kmcpy.tools import gather_kmc_data, gather_mc_data, get_data

CUB = [[6.0, 0, 0], [0, 7.0, 0], [0, 0, 8.0]]
TRI = [[6.5, 0.3, -0.2], [1.1, 6.1, 0.4], [-0.7, 0.9, 7.3]]
BASIS = {
    "two": [(["Na", "Va"], (0.0, 0.0, 0.0)), (["Si", "P"], (0.5, 0.5, 0.25))],
    "frame": [(["Zr"], (0.25, 0.25, 0.25)), (["Na", "Va"], (0.0, 0.5, 0.0)), (["O"], (0.1, 0.2, 0.7)), (["Si", "P"], (0.5, 0.5, 0.25)),
              (["O"], (0.6, 0.7, 0.9))],
    "lead": [(["Va", "Na"], (0.0, 0.0, 0.0)), (["Na", "Va"], (0.5, 0.0, 0.5))],
    "mixed": [(["Na", "N", "Va"], (1 / 3, 0.0, 0.0)), (["Si", "S", "P"], (0.0, 2 / 3, 0.5)), (["Na", "Va"], (0.9999, 0.25, 0.5))],
    "close": [(["P", "Si"], (0.0, 0.0, 0.0)), (["Na", "Va"], (0.02, 0.0, 0.0)), (["Na", "Va"], (0.5, 0.98, 0.5)), (["Si", "P"], (0.5, 0.0, 0.5))],
}
SHAPES = [(1, 1, 1), (2, 1, 1), (1, 1, 3), (1, 2, 2), (3, 2, 1)]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def prim(name, lat, path):
    d = dict(title=name, coordinate_mode="Fractional", lattice_vectors=lat,
             basis=[dict(coordinate=list(c), occupant_dof=list(s)) for s, c in BASIS[name]])
    with open(path, "w") as f:
        json.dump(d, f)
    return path


def active(name):
    return [(s[0], c) for s, c in BASIS[name] if s[0] not in ("Zr", "O")]


def supercell(chk):
    for name, lat, shape in itertools.product([n for n in BASIS if n != "lead"], (CUB, TRI), SHAPES):
        p = prim(name, lat, "prim.json")
        for sh in (shape, list(shape), np.array(shape)):
            with quiet():
                st = gather_mc_data.generate_supercell(p, sh)
            chk.step()
            want = [(s, tuple((np.array(c) + im) / shape)) for s, c in active(name) for im in itertools.product(*map(range, shape))]
            data = dict(prim=name, shape=shape)
            chk.expect(len(st) == len(want), "the template does not hold every active site of the supercell once", got=len(st), **data)
            chk.expect(np.allclose(st.lattice.matrix, np.array(lat) * np.array(shape)[:, None]), "wrong cell of the template", **data)
            n = int(np.prod(shape))
            for i in range(0, len(want), n):
                blk = [(s.specie.symbol, s.frac_coords) for s in st[i:i + n]]
                for s, c in want[i:i + n]:
                    hits = [j for j, (q, x) in enumerate(blk) if q == s and np.abs((x - c + 0.5) % 1 - 0.5).max() < 1e-8]
                    chk.expect(len(hits) == 1, "a site image is missing, doubled or in another site's block", site=(s, c), **data)
        chk.state((name, str(lat), shape))


def write(path, lat, atoms):
    """a POSCAR written by hand: atoms = [(symbol, frac)] in the given order, grouped as they come"""
    runs = [(k, len(list(g))) for k, g in itertools.groupby(s for s, _ in atoms)]
    txt = ["mc", "1.0"] + [" ".join("%.12f" % x for x in v) for v in np.array(lat)]
    txt += [" ".join(k for k, _ in runs), " ".join(str(n) for _, n in runs), "Direct"]
    txt += [" ".join("%.12f" % x for x in c) for _, c in atoms]
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as f:
        f.write("\n".join(txt) + "\n")


FRAME = [("Zr", (0.13, 0.77, 0.41)), ("O", (0.91, 0.33, 0.05)), ("Zr", (0.63, 0.21, 0.87))]


def content(tmpl, occ):
    return [(o, tuple(s.frac_coords)) for s, o in zip(tmpl, occ) if o]


def ref(tmpl, occ):
    return [-1 if o == s.specie.symbol else 1 for s, o in zip(tmpl, occ)]


def options(sym, more):
    return [sym, None] + ({"Na": ["N"], "Si": ["S", "P"], "P": ["Si"]}[sym] if more else {"Na": [], "Si": ["P"], "P": ["Si"]}[sym])


def orders(atoms, k):
    yield "given", atoms
    yield "reversed", atoms[::-1]
    yield "sorted", sorted(atoms)
    yield "rotated", atoms[len(atoms) // 2:] + atoms[:len(atoms) // 2]
    if k:
        for i, p in enumerate(itertools.permutations(range(min(len(atoms), 4)))):
            yield "perm%d" % i, [atoms[j] for j in p] + atoms[4:]


NOISE = [("exact", lambda i, c: c), ("image", lambda i, c: tuple(x + (-1) ** (i + j) for j, x in enumerate(c))),
         ("rounding", lambda i, c: tuple(x + (-1) ** (i + j) * 2e-9 for j, x in enumerate(c))),
         ("edge", lambda i, c: tuple((x - 1e-9) % 1 for x in c))]


def occ(chk):
    cells = [("two", CUB, (2, 1, 1), True), ("mixed", TRI, (1, 1, 1), True), ("frame", TRI, (1, 2, 1), False),
             ("close", CUB, (1, 1, 1), True)]
    if chk.thorough:
        cells += [("mixed", CUB, (2, 1, 1), False), ("two", TRI, (1, 1, 3), True)]
    for name, lat, shape, more in cells:
        with quiet():
            t = gather_mc_data.generate_supercell(prim(name, lat, "prim.json"), shape)
        for k, o in enumerate(itertools.product(*[options(s.specie.symbol, more) for s in t])):
            atoms = content(t, o)
            if not atoms:
                continue
            want = ref(t, o)
            chk.state((name, shape, o))
            for on, at in orders(atoms, chk.thorough or k % 16 == 0):
                for nn, f in NOISE if on in ("given", "perm5") or chk.thorough else NOISE[1:2]:
                    full = [(s, f(i, c)) for i, (s, c) in enumerate(at)]
                    full = FRAME[:1] + full + FRAME[1:] if k % 2 else full[:1] + FRAME + full[1:]
                    write("POSCAR.final", t.lattice.matrix, full)
                    with quiet():
                        got = gather_mc_data.get_occ("POSCAR.final", t)
                    chk.step()
                    chk.expect([int(x) for x in got] == want and all(float(x) in (-1.0, 1.0) for x in got),
                               "an occupation entry does not say whether the template's species is on its site",
                               prim=name, shape=shape, occ=o, order=on, noise=nn, got=[float(x) for x in got], want=want)
        # an atom that sits on no template site occupies none
        syms = [s.specie.symbol for s in t]
        for i in range(len(t)):
            for d in itertools.product((-0.03, 0, 0.03), repeat=3):
                if not any(d):
                    continue
                at = content(t, syms)
                at[i] = (at[i][0], tuple(np.array(at[i][1]) + d))
                write("POSCAR.final", t.lattice.matrix, FRAME + at)
                with quiet():
                    got = gather_mc_data.get_occ("POSCAR.final", t)
                dist = [min(np.linalg.norm((np.array(c) - s.frac_coords - np.round(np.array(c) - s.frac_coords)) @ t.lattice.matrix)
                            for q, c in at if q == sy) for s, sy in zip(t, syms)]
                if any(1e-5 < x < 0.05 for x in dist):
                    continue
                chk.step()
                chk.equal([int(x) for x in got], [-1 if x < 1e-5 else 1 for x in dist], "an atom away from every site occupies one",
                          prim=name, moved=i, by=d)


def _plain():
    return gather_mc_data.get_occ


class Turns:
    """workers finish their folders in the given order (a controlled scheduler; folders processed in the main thread are not held)"""

    def __init__(self, fn, perm):
        self.fn, self.perm, self.done, self.cv, self.started = fn, perm, 0, threading.Condition(), 0
        self.main = threading.main_thread()

    def __reduce__(self):       # workers that are processes after all: not held
        return (_plain, ())

    def __call__(self, *a, **kw):
        if threading.current_thread() is self.main:
            return self.fn(*a, **kw)
        with self.cv:
            me = self.started
            self.started += 1
            turn = self.perm.index(me) if me < len(self.perm) else -1
            if turn >= 0:
                self.cv.wait_for(lambda: self.done >= turn, timeout=3)
        try:
            return self.fn(*a, **kw)
        finally:
            with self.cv:
                self.done += 1
                self.cv.notify_all()


NAMES = [(0.5, 2), (0.25, 11), (0.25, 3), (0.0, 1), (1.0, 1), (0.125, 2), (0.5, 10)]
NAMES += [(k / 16, i) for k in (3, 5, 7) for i in (1, 2, 12, 100)]
PLACES = ["", "sub", "run_7_9/deep_x", "a.b_3"]


def gather(chk):
    with quiet():
        t = gather_mc_data.generate_supercell(prim("two", CUB, "prim.json"), (2, 1, 1))
    codes = [o for o in itertools.product(*[options(s.specie.symbol, False) for s in t]) if any(o)]
    sets = [c for k in range(1, 5 if chk.thorough else 4) for c in itertools.combinations(range(7), k)] + [tuple(range(len(NAMES)))]
    for n, chosen in enumerate(sets):
        for pl in PLACES if chk.thorough and len(chosen) < 4 else [PLACES[n % 4]]:
            root = os.path.abspath(os.path.join("mc", pl))
            for j, i in enumerate(chosen):
                o = codes[(n * 5 + i * 7 + j) % len(codes)]
                write("%s/comp_%s_%d/conditions.0/trajectory/POSCAR.final" % (root, NAMES[i][0], NAMES[i][1]), t.lattice.matrix, FRAME + content(t, o))
            os.makedirs(root + "/other", exist_ok=True)
            want = sorted((NAMES[i] + (ref(t, codes[(n * 5 + i * 7 + j) % len(codes)]),)) for j, i in enumerate(chosen))
            k = len(chosen)
            perms = list(itertools.permutations(range(k))) if k < 5 else [tuple((a * i + b) % k for i in range(k)) for a in (1, k - 1) for b in range(0, k, 5)]
            for p in perms:
                for path in (root + "/comp*", os.path.relpath(root) + "/comp*") if p == perms[0] else (root + "/comp*",):
                    with quiet(), joblib.parallel_config(backend="threading"), \
                            mock.patch.object(multiprocessing, "cpu_count", lambda: max(4, k)), \
                            mock.patch.object(gather_mc_data, "get_occ", Turns(gather_mc_data.get_occ, p)):
                        df = gather_mc_data.gather_data(path, t)
                    chk.step()
                    chk.trace()
                    got = [(float(r["comp"]), int(r["structure_index"]), [int(x) for x in r["occ"]]) for _, r in df.iterrows()]
                    chk.equal(got, want, "a gathered row does not carry its folder's numbers and occupation", chosen=[NAMES[i] for i in chosen],
                              place=pl, finish_order=p)
            chk.state((chosen, pl))
            shutil.rmtree("mc")


def kmc(chk):
    cols = ["time", "D_J", "msd"]
    sets = [c for k in range(1, 4) for c in itertools.combinations(range(7), k)] + [tuple(range(len(NAMES)))]
    for n, chosen in enumerate(sets):
        for lens in itertools.product((1, 3), repeat=len(chosen)) if len(chosen) < 5 else [tuple(1 + i % 3 for i in chosen), (1200,) + (2,) * (len(chosen) - 1)]:
            for pl in PLACES if chk.thorough else [PLACES[(n + sum(lens)) % 4]]:
                root = os.path.abspath(os.path.join("kmc", pl))
                os.makedirs(root, exist_ok=True)
                tables = {}
                for i, ln in zip(chosen, lens):
                    rows = [[100 * i + k + 0.5, (i + 1) * 0.5 ** (3 + k % 6), k - 0.25] for k in range(ln)]
                    pd.DataFrame(rows, columns=cols).to_csv("%s/results_%s_%d.csv.gz" % ((root,) + NAMES[i]), compression="gzip", index=False)
                    tables[NAMES[i]] = rows
                for path in (root + "/results*.csv.gz", os.path.relpath(root) + "/results*.csv.gz"):
                    with quiet():
                        df = gather_kmc_data.gather_data(path)
                    chk.step()
                    got = {}
                    for _, r in df.iterrows():
                        got.setdefault((float(r["comp"]), int(r["structure_index"])), []).append((int(r["n_pass"]), [float(r[c]) for c in cols]))
                    want = {k: list(enumerate(v)) for k, v in tables.items()}
                    chk.equal(got, want, "gathered records differ from the files", chosen=[NAMES[i] for i in chosen], lens=lens, place=pl)
                    chk.expect(list(df.index) == list(range(len(df))), "the records of the gathered table are not numbered 0..n-1", chosen=chosen)
                shutil.rmtree("kmc")
                chk.state((chosen, lens, pl))


def main(chk):
    for name, fn in (("supercell", supercell), ("occ", occ), ("gather", gather), ("kmc", kmc)):
        with chk.scenario(name) as on:
            if on:
                fn(chk)
    chk.bounds.update(folders="up to %d in every finishing order, %d in rotations and reversals" % (4 if chk.thorough else 3, len(NAMES)), template_sites=4, shapes=SHAPES)
    chk.assumptions += ["the workers are threads under a controlled finishing order instead of processes",
                        "a Monte Carlo structure with at least one active atom; atoms either on a site (within 1e-8 of the cell) or at least 0.05 away"]
    chk.sample(dict(prims=list(BASIS), names=NAMES))
