"""C17: generated event libraries contain every hop once, in a consistent frame.

For every crystal of a catalogue (own CIF text: symmetry operations, labels, cells) x supercell shape x cutoff rule
x end-point selection, the generated library is compared with a brute-force enumeration over periodic images that
uses only the crystal's own coordinates; sites are identified by position in the active-site order a simulation of
the same inputs would use.
"""
import itertools
import os
import tempfile
from collections import Counter

import numpy as np

from kmcpy.event import EventGenerator, EventLib
from kmcpy.io.cif import load_labeled_structure_from_cif
from kmcpy.structure import (ActiveSiteOrder, get_cutoff_neighbor_info, get_range_cutoff_neighbor_info, prepare_cutoff_neighbor_lookup,
                             prepare_range_cutoff_neighbor_lookup)
from kmcpy.structure.cluster import Cluster, ClusterMatcher
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

P1 = ["x, y, z"]
INV = ["x, y, z", "-x, -y, -z"]
SCREW = ["x, y, z", "-x+1/2, -y, z+1/2"]
FOUR = ["x, y, z", "-y, x, z", "-x, -y, z", "y, -x, z"]
# name -> (a, b, c, alpha, beta, gamma), symmetry operations, [(label, symbol, x, y, z)]
CRYSTALS = {
    "pair": ((3.1, 4.3, 5.7, 90, 90, 90), P1, [("Na1", "Na", .05, .10, .15), ("Na10", "Na", .55, .40, .35), ("Si1", "Si", .30, .80, .60), ("O1", "O", .80, .20, .80), ("O2", "O", .10, .60, .90), ("O3", "O", .6, .9, .1)]),
    "close": ((3.7, 4.3, 4.9, 90, 90, 90), P1, [("Na1", "Na", .05, .10, .15), ("Na11", "Na", .40, .15, .20), ("Si1", "Si", .20, .40, .30), ("O1", "O", .80, .20, .80), ("O2", "O", .10, .60, .90), ("O3", "O", .6, .9, .1)]),
    "single": ((3.3, 3.9, 4.5, 78, 95, 104), P1, [("O1", "O", .5, .5, .5), ("Na1", "Na", .11, .07, .03), ("Cl1", "Cl", .52, .1, .7)]),
    "inv": ((4.2, 5.0, 6.1, 90, 103, 90), INV, [("Na1", "Na", .21, .13, .17), ("Na2", "Na", .5, .5, .5), ("Si1", "Si", .37, .71, .64), ("O1", "O", .10, .40, .85)]),
    "screw": ((5.1, 4.4, 4.0, 90, 90, 90), SCREW, [("Na1", "Na", .07, .12, .2), ("Si1", "Si", .31, .66, .4), ("O1", "O", .77, .33, .55)]),
    "four": ((5.2, 5.2, 4.6, 90, 90, 90), FOUR, [("Na1", "Na", .23, .11, .3), ("Na2", "Na", 0., 0., .72), ("Si1", "Si", .5, .5, .5), ("O1", "O", .5, 0., .1)]),
    "hex": ((4.0, 4.0, 5.5, 90, 90, 120), ["x, y, z", "-y, x-y, z", "-x+y, -x, z"], [("Li1", "Li", .30, .10, .2), ("P1", "P", 1 / 3, 2 / 3, .5), ("O1", "O", .6, .25, .77)]),
    "order": ((4.0, 4.6, 5.2, 90, 90, 90), P1, [("Cl1", "Cl", .9, .9, .5), ("Na2", "Na", .8, .1, .2), ("K1", "K", .4, .5, .1), ("Na1", "Na", .2, .6, .7), ("Cl2", "Cl", .1, .1, .9), ("Cl3", "Cl", .6, .3, .4)]),
}
MAPS = {
    "pair": [{"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}, {"Na": ["X", "Na"], "Si": "Si", "O": ["O"]}],
    "close": [{"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}],
    "single": [{"Na": ["Na", "Va"], "O": "O", "Cl": ["Cl", "Br"]}],
    "inv": [{"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}],
    "screw": [{"Na": ["Na", "Vacancy"], "Si": ["Si", "P"], "O": "O"}],
    "four": [{"Na": ["Na", "X"], "Si": ["Si", "Ge", "P"], "O": "O"}],
    "hex": [{"Li": ["Li", "X"], "P": "P", "O": "O"}],
    "order": [{"Cl": "Cl", "Na": ["Na", "X"], "K": ["K", "Rb"]}],
}
MOBILE = {"hex": "Li"}
SHAPES = [(1, 1, 1), (2, 1, 1), (1, 2, 3), (3, 2, 1)]
SHAPES_T = SHAPES + [(1, 2, 1), (1, 1, 3), (2, 2, 1), (2, 2, 2), (1, 3, 2), (4, 1, 2), (3, 3, 1)]
CUTS = [3.4, 4.03, 5.02]
CUTS_T = CUTS + [3.07, 4.51, 6.03]
CUTS_OF = {"close": [1.37, 1.62, 3.61]}


def cif(name):
    cell, ops, atoms = CRYSTALS[name]
    L = ["data_x", "_symmetry_space_group_name_H-M 'P 1'"]
    L += ["_cell_length_%s %r" % (k, float(v)) for k, v in zip("abc", cell)]
    L += ["_cell_angle_%s %r" % (k, float(v)) for k, v in zip(("alpha", "beta", "gamma"), cell[3:])]
    L += ["loop_", " _symmetry_equiv_pos_site_id", " _symmetry_equiv_pos_as_xyz"] + ["  %d  '%s'" % (i + 1, o) for i, o in enumerate(ops)]
    L += ["loop_", " _atom_site_label", " _atom_site_type_symbol", " _atom_site_fract_x", " _atom_site_fract_y", " _atom_site_fract_z", " _atom_site_occupancy"]
    L += ["  %s %s %.8f %.8f %.8f 1" % (l, s, x, y, z) for l, s, x, y, z in atoms]
    return "\n".join(L) + "\n"


def apply_op(op, v):
    x, y, z = v
    return [eval(c.replace("1/2", "0.5"), {"x": x, "y": y, "z": z}) for c in op.split(",")]


def own_sites(name):
    """[(label, symbol, frac)] of the unit cell, from symmetry operations alone"""
    _, ops, atoms = CRYSTALS[name]
    out = []
    for l, s, x, y, z in atoms:
        mine = []
        for op in ops:
            f = np.mod(np.array(apply_op(op, (x, y, z)), float), 1.0)
            if not any(np.linalg.norm((f - g) - np.round(f - g)) < 1e-3 for g in mine):
                mine.append(f)
        out += [(l, s, f) for f in mine]
    return out


def lattice(cell):
    a, b, c, al, be, ga = cell
    al, be, ga = np.radians([al, be, ga])
    v1 = np.array([a, 0, 0])
    v2 = b * np.array([np.cos(ga), np.sin(ga), 0])
    cx = np.cos(be)
    cy = (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga)
    v3 = c * np.array([cx, cy, np.sqrt(1 - cx * cx - cy * cy)])
    return np.array([v1, v2, v3])


class Crystal:
    def __init__(self, name, mi, d):
        self.name, self.map = name, MAPS[name][mi]
        self.path = os.path.join(d, "%s.cif" % name)
        with open(self.path, "w") as f:
            f.write(cif(name))
        self.latt = lattice(CRYSTALS[name][0])
        self.sites = own_sites(name)
        self.mobile = MOBILE.get(name, "Na")
        self.active = [i for i, s in enumerate(self.sites) if not isinstance(self.map[s[1]], str) and len(self.map[s[1]]) > 1]

    def environment(self, i, cutoff):
        """[(site, image)] of the active sites closer than cutoff(symbol, symbol) to site i"""
        out = []
        R = 4
        fi, si = self.sites[i][2], self.sites[i][1]
        for j in self.active:
            c = cutoff(si, self.sites[j][1])
            if not c:
                continue
            for m in itertools.product(range(-R, R + 1), repeat=3):
                d = np.linalg.norm((self.sites[j][2] + m - fi) @ self.latt)
                if 1e-6 < d < c:
                    assert abs(d - c) > 1e-4
                    out.append((j, m))
        return out


def index_map(chk, c, shape):
    """{(own site, cell): active index} read off the active-site order a simulation of these inputs would use, and that order"""
    full = load_labeled_structure_from_cif(c.path, primitive=False)
    order = ActiveSiteOrder.from_structure_and_mapping(full, c.map, supercell_shape=list(shape))
    act = order.active_structure()
    # pymatgen may orient the lattice differently: work in fractional coordinates of the primitive cell
    out = {}
    for k, site in enumerate(act):
        f = np.array(site.frac_coords) * np.array(shape)
        hit = None
        for j in c.active:
            r = f - c.sites[j][2]
            cell = np.round(r)
            if np.linalg.norm(r - cell) < 1e-3 and c.sites[j][1] == site.specie.symbol:
                hit = (j, tuple(int(x) for x in np.mod(cell, shape)))
        chk.expect(hit is not None and hit not in out, "active site of the simulation template is not a crystal site", site=k)
        out[hit] = k
    chk.equal(len(out), len(c.active) * int(np.prod(shape)), "number of active sites")
    return out, order


def oxidised(c):
    s = load_labeled_structure_from_cif(c.path, primitive=False)
    s.add_oxidation_state_by_guess()
    return {x.specie.symbol: x.species_string for x in s}


def selections(c):
    m = c.mobile
    labels = sorted({s[0] for s in c.sites if s[1] == m})
    sel = [("default", None, lambda s: s[1] == m, lambda s: s[1] == m),
           ("species", (m, m), lambda s: s[1] == m, lambda s: s[1] == m)]
    for a, b in itertools.product(labels, repeat=2):
        sel.append(("%s-%s" % (a, b), (a, b), lambda s, a=a: s[0] == a, lambda s, b=b: s[0] == b))
    if len(labels) > 1:
        sel.append(("list", (list(labels), [labels[-1]]), lambda s: s[1] == m, lambda s, b=labels[-1]: s[0] == b))
        sel.append(("list2", ([labels[0]], list(labels)), lambda s, a=labels[0]: s[0] == a, lambda s: s[1] == m))
    other = [s for s in {s[1] for s in c.sites} if s != m and not isinstance(c.map[s], str) and len(c.map[s]) > 1]
    return sel, other


def rules(c, cuts, thorough):
    """cutoff rules: (text, kwargs, cutoff function)"""
    ox = oxidised(c)
    m = c.mobile
    out = []
    for r in cuts:
        out.append(("uniform %g" % r, {"local_env_cutoff": r}, lambda a, b, r=r: r))
    others = sorted({c.sites[i][1] for i in c.active} - {m})
    for r1, r2 in itertools.permutations(cuts[:3], 2) if thorough else [(cuts[1], cuts[0]), (cuts[0], cuts[2])]:
        dd = {(ox[m], ox[m]): r1}
        for o in others:
            dd[(ox[m], ox[o])] = r2
        out.append(("dict %g %g" % (r1, r2), {"local_env_cutoff_dict": dd}, lambda a, b, r1=r1, r2=r2: r1 if a == b else r2))
        if others:
            dd = {(ox[o], ox[m]): r2 for o in others}
            dd[(ox[m], ox[m])] = r1
            out.append(("reversed keys %g %g" % (r1, r2), {"local_env_cutoff_dict": dd}, lambda a, b, r1=r1, r2=r2: r1 if a == b else r2))
    out.append(("mobile only %g" % cuts[-1], {"local_env_cutoff_dict": {(ox[m], ox[m]): cuts[-1]}}, lambda a, b, r=cuts[-1]: r if a == b else 0))
    return out


def signature(c, env):
    return tuple(sorted(Counter(c.sites[j][1] for j, _ in env).items()))


def dmat(c, env):
    P = np.array([(c.sites[j][2] + np.array(m)) @ c.latt for j, m in env])
    return np.linalg.norm(P[:, None] - P[None], axis=-1)


def judge(chk, c, shape, lib, sel, envs, where, kind):
    idx, order = index_map(chk, c, shape)
    back = {v: k for k, v in idx.items()}
    src, dst = sel
    want = Counter()
    env_of = {}
    for (j, cell), k in idx.items():
        if not src(c.sites[j]):
            continue
        E = [idx[(a, tuple(int(x) for x in np.mod(np.array(cell) + m, shape)))] for a, m in envs[j]]
        env_of[k] = Counter(E)
        for (a, m), t in zip(envs[j], E):
            if dst(c.sites[a]) and t != k:
                want[(k, t)] += 1
    got = Counter()
    order_of = {}
    for e in lib.events:
        a, b = (int(x) for x in e.mobile_ion_indices)
        le = tuple(int(x) for x in e.local_env_indices)
        chk.step()
        chk.expect(a in env_of, "event starts at a site that was not selected", event=(a, b), where=where)
        chk.expect(Counter(le) == env_of[a], "event environment is not the set of active sites within the cutoff", event=(a, b), got=sorted(le), want=sorted(env_of[a].elements()), where=where)
        chk.expect(order_of.setdefault(a, le) == le, "events of one site list their environment in different orders", site=a, where=where)
        if a != b:
            got[(a, b)] += 1
    once = Counter()
    for (a, b), n in want.items():
        once[frozenset((a, b))] = max(once[frozenset((a, b))], n)
    twice = any((b, a) in want for a, b in want)
    if got == want:
        pass
    elif twice:
        g = Counter()
        for (a, b), n in got.items():
            g[frozenset((a, b))] += n
        chk.expect(g == once and set(got) <= set(want), "library does not contain every hop exactly once", where=where, got=len(got), want=len(want))
    else:
        chk.fail("library does not contain every hop exactly once", where=where, missing=list((want - got).items())[:5], extra=list((got - want).items())[:5])
    # frames: translated copies list their environment in the corresponding order
    ref = {}
    for k, le in order_of.items():
        j, cell = back[k]
        rel = []
        for t in le:
            a, ca = back[t]
            rel.append((a, tuple(int(x) for x in np.mod(np.array(ca) - cell, shape))))
        r = ref.setdefault(j, tuple(rel))
        chk.expect(r == tuple(rel), "translated events list their environments in different orders", site=k, where=where)
        chk.state((kind, where, j))
    return order, order_of, ref, twice and got == want


def frames(chk, c, envs, ref, shape, where):
    """with a cell larger than twice the cutoff, centres of one signature list geometrically corresponding sites"""
    by_sig = {}
    for j, rel in ref.items():
        table = {}
        for a, m in envs[j]:
            table.setdefault((a, tuple(int(x) for x in np.mod(m, shape))), []).append((a, m))
        if any(len(v) > 1 for v in table.values()):
            return False
        env = [table[r][0] for r in rel]
        D = dmat(c, env)
        sp = [c.sites[a][1] for a, _ in env]
        sig = signature(c, env)
        if sig in by_sig:
            D0, sp0 = by_sig[sig]
            chk.expect(sp == sp0, "equivalent centres list species in different orders", where=where)
            chk.expect(np.allclose(D, D0, rtol=0.02, atol=0.02), "equivalent centres list environment sites in different geometric orders", where=where, centre=j)
            chk.checks += 1
        else:
            by_sig[sig] = (D, sp)
    return True


def main(chk):
    chk.bounds = dict(crystals=list(CRYSTALS), shapes=SHAPES_T if chk.thorough else SHAPES, cutoffs=CUTS_T if chk.thorough else CUTS, selections="default, species, every label pair, label lists")
    chk.assumptions = ["distances within 1e-4 of a cutoff are excluded from the catalogue", "a hop of a site onto its own periodic image (single-cell supercells) is not a hop between sites and is not judged",
                       "cutoff tables name species with the oxidation states pymatgen guesses, as in the project's own inputs"]
    doubled = []
    d = tempfile.mkdtemp(prefix="c17_")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for name in CRYSTALS:
            for mi in range(len(MAPS[name])):
                with chk.scenario("library %s map%d" % (name, mi)) as on:
                    if on or chk.only == "double-listed hops":
                        library(chk, Crystal(name, mi, d), d, doubled)
        with chk.scenario("double-listed hops") as on:
            if on and doubled:
                chk.fail("the library lists a hop in both orientations when the two end-point selections overlap: %s (%d libraries)" % (doubled[0], len(doubled)), key="double-listed-hop")
        with chk.scenario("matching") as on:
            if on:
                matching(chk, d)
        with chk.scenario("model frame") as on:
            if on:
                model_frame(chk, d)
        with chk.scenario("corresponding order") as on:
            if on:
                corresponding(chk)
        with chk.scenario("centres") as on:
            if on:
                centres(chk, d)
        with chk.scenario("neighbour lists") as on:
            if on:
                neighbours(chk, d)
        with chk.scenario("rejections") as on:
            if on:
                rejections(chk, d)
    finally:
        os.chdir(cwd)
        for r, _, fs in os.walk(d, topdown=False):
            for f in fs:
                os.remove(os.path.join(r, f))
            os.rmdir(r)


def generate(c, d, shape, ids, kw, **more):
    out = os.path.join(d, "events.json")
    if os.path.exists(out):
        os.remove(out)
    g = EventGenerator()
    a = dict(structure_file=c.path, site_mapping=c.map, supercell_shape=list(shape), event_file=out, find_nearest_if_fail=False)
    if ids is not None:
        a["mobile_ion_identifiers"] = ids
    a.update(kw)
    a.update(more)
    ref = g.generate_events(**a)
    return g, ref, EventLib.from_file(out)


def library(chk, c, d, doubled):
    sels, _ = selections(c)
    shapes = SHAPES_T if chk.thorough else SHAPES
    for ri, (rname, kw, cut) in enumerate(rules(c, CUTS_OF.get(c.name) or (CUTS_T if chk.thorough else CUTS), chk.thorough)):
        envs = {j: c.environment(j, cut) for j in c.active if c.sites[j][1] == c.mobile}
        for sname, ids, src, dst in sels:
            centres = [j for j in envs if src(c.sites[j])]
            # a first pass says whether all centres of one signature are congruent: otherwise the strict mode refuses
            any_target = any(dst(c.sites[a]) for j in centres for a, _ in envs[j])
            congruent = congruence(c, centres, envs)
            big = [(11, 1, 2), (4, 5, 3)] if ri == 0 and sname == "default" and c.name in ("pair", "four", "hex") else []
            for shape in shapes + big:
                where = "%s %s %s %s" % (c.name, rname, sname, shape)
                call = lambda **k: generate(c, d, shape, ids, kw, **k)
                if not any_target:
                    chk.raises(call, "a request without any hop must be rejected", where=where)
                    continue
                if not congruent:
                    chk.raises(call, "environments that cannot be matched must be rejected in strict mode", where=where)
                    if max(Counter(signature(c, envs[j]) for j in centres).values()) > 1 and max(n for j in centres for _, n in signature(c, envs[j])) <= 5:
                        _, ref, lib = call(find_nearest_if_fail=True)
                        judge(chk, c, shape, lib, (src, dst), envs, where, "nearest")
                    continue
                _, ref, lib = call()
                order, order_of, rel, dbl = judge(chk, c, shape, lib, (src, dst), envs, where, "strict")
                if dbl:
                    doubled.append(where)
                if shape in ((1, 1, 1), (2, 2, 1), (3, 2, 1)) or chk.thorough:
                    frames(chk, c, envs, rel, shape, where)
                chk.equal(len(ref), len({signature(c, envs[j]) for j in centres}), "one reference environment per species signature", where=where)
                lib.validate_index_metadata(order)
                sites = [set(map(int, e.mobile_ion_indices)) | set(map(int, e.local_env_indices)) for e in lib.events]
                for i, dep in enumerate(lib.event_dependencies):
                    got = set(map(int, dep))
                    swapped = {j for j in range(len(sites)) if sites[j] & set(map(int, lib.events[i].mobile_ion_indices))}
                    chk.expect(swapped <= got, "stored dependencies miss an event that sees the hop", where=where, event=i)
                chk.trace()


def congruence(c, centres, envs):
    """True / False when every same-signature pair is clearly congruent / not; catalogue asserts no borderline case"""
    seen = {}
    for j in centres:
        sig = signature(c, envs[j])
        if sig not in seen:
            seen[sig] = j
            continue
        if not congruent_pair(c, envs[seen[sig]], envs[j]):
            return False
    return True


def congruent_pair(c, e1, e2):
    D1, D2 = dmat(c, e1), dmat(c, e2)
    s1, s2 = [c.sites[a][1] for a, _ in e1], [c.sites[a][1] for a, _ in e2]
    n = len(s1)

    def go(i, used):
        if i == n:
            return True
        for k in range(n):
            if k in used or s1[i] != s2[k]:
                continue
            if all(abs(D1[i, x] - D2[k, used[x]]) <= 0.01 + 0.01 * D2[k, used[x]] for x in range(i)):
                if go(i + 1, used + [k]):
                    return True
        return False
    return go(0, [])


def matching(chk, d):
    """enlarging the supercell only multiplies the events"""
    for name in CRYSTALS:
        c = Crystal(name, 0, d)
        counts = {}
        for shape in [(1, 1, 1), (2, 1, 1), (2, 3, 1), (1, 2, 4)]:
            _, _, lib = generate(c, d, shape, None, {"local_env_cutoff": 4.03}, find_nearest_if_fail=True)
            counts[shape] = len(lib)
            chk.step()
        chk.expect(all(v == counts[(1, 1, 1)] * int(np.prod(s)) for s, v in counts.items()), "event count does not scale with the supercell", crystal=name, counts=counts)


def model_frame(chk, d):
    """a local cluster expansion centred on the reference site indexes sites in the order the events list them"""
    n = 0
    for name in CRYSTALS:
        for mi in range(len(MAPS[name])):
            c = Crystal(name, mi, d)
            full = load_labeled_structure_from_cif(c.path, primitive=False)
            for r in CUTS_T if chk.thorough else CUTS:
                envs = {j: c.environment(j, lambda a, b: r) for j in c.active if c.sites[j][1] == c.mobile}
                if not congruence(c, list(envs), envs):
                    continue
                if len({signature(c, e) for e in envs.values()}) != 1:
                    continue
                _, _, lib = generate(c, d, (1, 1, 1), None, {"local_env_cutoff": r})
                idx, order = index_map(chk, c, (1, 1, 1))
                first = int(lib.events[0].mobile_ion_indices[0])
                centre = int(order.active_to_original[first])
                loc = LocalLatticeStructure(full, centre, r, site_mapping=c.map, local_site_order="nasicon_nat_commun_2022")
                ev = tuple(int(x) for x in lib.events[0].local_env_indices)
                chk.expect(tuple(int(x) for x in loc.site_indices) == ev, "local environment of the model and of the events list different sites or orders", crystal=name, cutoff=r, model=[int(x) for x in loc.site_indices], event=ev)
                n += 1
                chk.step()
    chk.expect(n > 0, "nothing compared")


def rejections(chk, d):
    c = Crystal("pair", 0, d)
    gen = lambda **k: generate(c, d, (2, 1, 1), k.pop("ids", None), {"local_env_cutoff": 4.03}, **k)
    gen(find_nearest_if_fail=True)
    chk.raises(lambda: gen(site_mapping=None), "no site mapping")
    chk.raises(lambda: gen(site_mapping={"Na": ["Na", "K"], "Si": "Si", "O": "O"}), "no vacancy in the mapping and no mobile species")
    chk.raises(lambda: gen(site_mapping={"Na": "Na", "Si": "Si", "O": "O"}), "no mutable site")
    chk.raises(lambda: gen(ids=("Na1",)), "one identifier")
    chk.raises(lambda: gen(ids=("Na1", "Na2", "Na1")), "three identifiers")
    chk.raises(lambda: gen(ids=("Na7", "Na8")), "unknown labels")
    chk.raises(lambda: gen(ids=("Na1", "Na8")), "unknown target label")
    chk.raises(lambda: generate(c, d, (2, 1, 1), None, {"local_env_cutoff": 0.5}), "cutoff below every distance")
    out = os.path.join(d, "events.json")
    chk.expect(not os.path.exists(out), "a rejected request left an event file")
    for v in ("X", "Va", "VA", "Vacancy", "vacancy"):
        _, _, lib = gen(site_mapping={"Na": ["Na", v], "Si": ["Si", "P"], "O": "O"}, find_nearest_if_fail=True)
        chk.expect(len(lib) > 0, "vacancy spelling %s" % v)


SHAPES3 = {
    "line": [(0, 0, 0), (1.1, 0, 0), (3.0, 0, 0)],
    "square": [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0)],
    "generic": [(0, 0, 0), (1.3, .2, .4), (.5, 2.1, 1.0), (2.2, 1.4, 3.0)],
    "tetra": [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)],
    "pyramid": [(1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0), (0, 0, 1.7)],
    "chiral": [(0, 0, 0), (1.0, 0, 0), (0, 1.4, 0), (0, 0, 1.9), (2.3, .4, .6)],
}


def rotation(a, b, c):
    ca, sa, cb, sb, cc, sc = np.cos(a), np.sin(a), np.cos(b), np.sin(b), np.cos(c), np.sin(c)
    return np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]]) @ np.array([[cc, -sc, 0], [sc, cc, 0], [0, 0, 1]])


def corresponding(chk):
    """every listing order of every decorated cluster is brought back to the order of its reference, or refused"""
    R = rotation(.3, .7, -.2)
    for name, pts in SHAPES3.items():
        P = np.array(pts, float)
        n = len(P)
        D0 = np.linalg.norm(P[:, None] - P[None], axis=-1)
        decorations = sorted({tuple("Na" if b else "Si" for b in bits) for bits in itertools.product((0, 1), repeat=n)})
        if not chk.thorough and n == 5:
            decorations = decorations[::3]
        for deco in decorations:
            ref = Cluster(species=deco, coords=P, site_indices=[10 + i for i in range(n)])
            sym = [p for p in itertools.permutations(range(n)) if all(deco[p[i]] == deco[i] for i in range(n)) and np.allclose(D0[np.ix_(p, p)], D0, atol=1e-6)]
            for perm in itertools.permutations(range(n)):
                Q = P[list(perm)] @ R.T + [3.0, -1.0, 0.5]
                sp = tuple(deco[i] for i in perm)
                cand = Cluster(species=sp, coords=Q, site_indices=[20 + i for i in perm])
                m = ClusterMatcher(ref).match(cand)
                r2c = tuple(int(x) for x in m.reference_to_candidate)
                chk.step()
                chk.state((name, deco, perm))
                chk.expect(sorted(r2c) == list(range(n)), "match is not a permutation", got=r2c)
                chk.expect(all(sp[r2c[i]] == deco[i] for i in range(n)), "matched sites carry another species", cluster=name, species=deco, order=perm, got=r2c)
                D = np.linalg.norm(Q[list(r2c)][:, None] - Q[list(r2c)][None], axis=-1)
                chk.expect(np.allclose(D, D0, atol=2e-3), "matched sites do not correspond geometrically", cluster=name, species=deco, order=perm, got=r2c)
                chk.expect(tuple(m.candidate_to_reference[k] for k in r2c) == tuple(range(n)), "the two directions of a match disagree", got=(r2c, m.candidate_to_reference))
                chk.expect(tuple(int(x) for x in m.ordered_candidate_indices) == tuple(20 + perm[k] for k in r2c), "ordered site indices are not those of the matched sites", order=perm, got=m.ordered_candidate_indices)
                chk.expect(bool(m.is_unique) == (len(sym) == 1), "uniqueness of a match is misreported", cluster=name, species=deco, symmetries=len(sym))
                chk.equal(m.fingerprint == ref.fingerprint, True, "the re-ordered environment has another fingerprint", cluster=name, order=perm)
                if len(sym) > 1:
                    chk.raises(lambda: ClusterMatcher(ref).match(cand, require_unique=True), "an ambiguous match was accepted as unique", exc=ValueError)
                else:
                    ClusterMatcher(ref).match(cand, require_unique=True)
            # one site displaced, one species exchanged, one role changed, one site missing: no exact match
            for k in range(n):
                bad = P.copy()
                bad[k] += [.3, .2, -.25]
                for perm in itertools.permutations(range(n)) if n < 5 or chk.thorough else [tuple(range(n)), tuple(reversed(range(n)))]:
                    Q, sp = bad[list(perm)] @ R.T, tuple(deco[i] for i in perm)
                    DQ = np.linalg.norm(Q[:, None] - Q[None], axis=-1)
                    scores = {}
                    for q in itertools.permutations(range(n)):
                        if all(sp[q[i]] == deco[i] for i in range(n)):
                            scores[q] = float(np.abs(D0 - DQ[np.ix_(q, q)]).sum())
                    best = min(scores.values())
                    cand = Cluster(species=sp, coords=Q)
                    chk.step()
                    if any(np.allclose(DQ[np.ix_(q, q)], D0, atol=1e-2) for q in scores):
                        continue
                    chk.raises(lambda: ClusterMatcher(ref).match(cand), "a deformed environment was matched exactly", exc=ValueError, cluster=name, order=perm)
                    m = ClusterMatcher(ref).match(cand, find_nearest_if_fail=True)
                    q = tuple(int(x) for x in m.reference_to_candidate)
                    chk.expect(q in scores and scores[q] <= best + 1e-6, "the nearest match is not the nearest", cluster=name, species=deco, order=perm, got=q, score=scores.get(q), best=best)
                    chk.close(float(m.score), best, "score of the nearest match", rel=1e-6, abs_=1e-6)
                other = list(deco)
                other[k] = "K"
                chk.raises(lambda: ClusterMatcher(ref).match(Cluster(species=other, coords=P), find_nearest_if_fail=True), "environments of different species were matched", exc=ValueError)
                chk.raises(lambda: ClusterMatcher(ref).match(Cluster(species=deco, coords=P, roles=["r" if i == k else "" for i in range(n)]), find_nearest_if_fail=True), "environments of different roles were matched", exc=ValueError)
                keep = [i for i in range(n) if i != k]
                chk.raises(lambda: ClusterMatcher(ref).match(Cluster(species=[deco[i] for i in keep], coords=P[keep]), find_nearest_if_fail=True), "environments of different sizes were matched", exc=ValueError)
        chk.trace()


def centres(chk, d):
    """local environments of two centres of one crystal: re-ordering one like the other, and telling whether they are equivalent"""
    n = 0
    for name in CRYSTALS:
        for mi in range(len(MAPS[name])):
            c = Crystal(name, mi, d)
            full = load_labeled_structure_from_cif(c.path, primitive=False)
            order = ActiveSiteOrder.from_structure_and_mapping(full, c.map)
            own = {}
            for k, s in enumerate(full):
                for j in c.active:
                    r = np.array(s.frac_coords) - c.sites[j][2]
                    if np.linalg.norm(r - np.round(r)) < 1e-3:
                        own[j] = k
            for r in CUTS_T if chk.thorough else CUTS:
                envs = {j: c.environment(j, lambda a, b: r) for j in c.active if c.sites[j][1] == c.mobile}
                loc = {j: LocalLatticeStructure(full, own[j], r, site_mapping=c.map, exclude_center_site=True) for j in envs}
                for i, j in itertools.product(envs, repeat=2):
                    same = signature(c, envs[i]) == signature(c, envs[j]) and congruent_pair(c, envs[i], envs[j])
                    chk.step()
                    chk.state((name, mi, r, i, j))
                    got = loc[j].is_equivalent_to(loc[i])
                    chk.expect(bool(got) == same, "equivalence of two local environments is misjudged", crystal=name, centres=(i, j), cutoff=r, got=got, want=same)
                    if not same:
                        chk.raises(lambda: loc[j].match_with_reference(loc[i]), "environments that do not correspond were matched", exc=ValueError)
                        continue
                    before = list(loc[j].site_indices)
                    m = loc[j].match_with_reference(loc[i])
                    n += 1
                    chk.expect(list(loc[j].site_indices) == before, "matching changed the environment it was asked about")
                    chk.expect(sorted(m.site_indices) == sorted(before), "matching changed the set of sites", crystal=name, centres=(i, j))
                    A, B = np.array(m.structure.cart_coords), np.array(loc[i].structure.cart_coords)
                    chk.expect([s.species_string for s in m.structure] == [s.species_string for s in loc[i].structure], "species of corresponding sites differ")
                    da, db = (np.linalg.norm(X[:, None] - X[None], axis=-1) for X in (A, B))
                    chk.expect(np.allclose(da, db, rtol=5e-3, atol=5e-3), "sites of the matched environment do not correspond", crystal=name, centres=(i, j), cutoff=r)
                    # every site index still names the site at that position
                    act = order.active_structure()
                    for k, x in zip(m.site_indices, A + np.array(loc[j].center_site.coords)):
                        f = act.lattice.get_fractional_coords(x) - np.array(act[int(k)].frac_coords)
                        chk.expect(np.linalg.norm(f - np.round(f)) < 1e-3, "site index of the matched environment names another site", crystal=name, centres=(i, j))
    chk.expect(n > 0, "nothing matched")


def neighbours(chk, d):
    """fixed and range cutoffs: exactly the periodic images in range, each with its own site, cell and identity"""
    for name in CRYSTALS:
        c = Crystal(name, 0, d)
        full = load_labeled_structure_from_cif(c.path, primitive=False)
        F = np.array(full.frac_coords)
        M = np.array(full.lattice.matrix)
        sp = [s.species_string for s in full]
        kinds = sorted(set(sp))
        for r0, r1 in ((0.0, 3.4), (0.0, 4.61), (2.6, 4.61), (3.4, 5.02)):
            for table in ({(a, b): (r0, r1) for a, b in itertools.combinations_with_replacement(kinds, 2)},
                          {(kinds[-1], k): (r0, r1 + .13 * i) for i, k in enumerate(kinds)}, {}):
                lim = dict(table)
                lim.update({(b, a): v for (a, b), v in table.items()})
                ranged = prepare_range_cutoff_neighbor_lookup(table)
                plain = prepare_cutoff_neighbor_lookup({k: v[1] for k, v in table.items()})
                for n in range(len(full)):
                    for low, got in ((True, get_range_cutoff_neighbor_info(full, n, ranged)), (False, get_cutoff_neighbor_info(full, n, plain))):
                        want = Counter()
                        for j in range(len(full)):
                            a, b = lim.get((sp[n], sp[j]), (0.0, 0.0))
                            if not low:
                                a = 0.0
                            if b <= 0:
                                continue
                            for m in itertools.product(range(-3, 4), repeat=3):
                                x = np.linalg.norm((F[j] + m - F[n]) @ M)
                                if x > 1e-6 and a < x < b:
                                    want[(j, m)] += 1
                        chk.step()
                        have = Counter((int(i["site_index"]), tuple(int(x) for x in i["image"])) for i in got)
                        chk.expect(have == want, "neighbours are not exactly the sites in range", crystal=name, site=n, ranged=low, missing=list((want - have))[:4], extra=list((have - want))[:4])
                        for i in got:
                            j, m = int(i["site_index"]), np.array(i["image"])
                            chk.close(float(i["weight"]), float(np.linalg.norm((F[j] + m - F[n]) @ M)), "neighbour distance", rel=1e-6)
                            chk.expect(np.allclose(i["site"].frac_coords, F[j] + m, atol=1e-4), "neighbour position", crystal=name, site=n)
                            for key in ("wyckoff_sequence", "local_index", "label"):
                                chk.expect(i[key] == full[j].properties[key], "neighbour carries another site's identity", key=key, crystal=name, site=n, neighbour=j)
        chk.trace()
