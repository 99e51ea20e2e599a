"""C09: one active-site index space, or rejection.

orders  - every template (species sequence) of a catalogue x supercell shape: geometry-level bijection oracle computed
          independently from lattice translations;
filter  - every subset / permutation / displaced copy of small full structures must land on the same physical sites;
pairs   - every pair of orderings of a catalogue: accepted as equal iff template species, allowed species and shape agree;
lengths - every occupation length through every loading route;
config  - KMC.from_config with every event file x every configuration of a small catalogue.
"""
import itertools
import json

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.event import Event, EventLib, HopStateLookup, event_direction
from kmcpy.simulator.state import State
from kmcpy.structure.active_site_order import ACTIVE_SITE_PROPERTY, ActiveSiteOrder
from kmcpy.structure.sites import make_kmc_supercell

MAP = {"Na": ["Na", "X"], "Si": ["Si", "P", "X"], "K": ["X", "K"], "O": "O", "Zr": ["Zr"]}
SP = ("Na", "Si", "K", "O")
LATT = {"ortho": np.diag([3.0, 4.1, 5.3]), "tric": np.array([[4.0, 0, 0], [1.3, 3.8, 0], [0.7, -0.9, 5.0]])}
POS = [[0.05, 0.10, 0.15], [0.55, 0.35, 0.80], [0.30, 0.85, 0.45], [0.80, 0.60, 0.05], [0.95, 0.20, 0.60]]


def template(sp, latt="ortho"):
    return Structure(Lattice(LATT[latt]), list(sp), POS[:len(sp)])


def labels(v):
    v = v if isinstance(v, (list, tuple)) else [v]
    return tuple("X" if s in ("X", "Vacancy", "Va", "vacancy", "VA") else s for s in v)


def ref_positions(t, shape):
    """multiset of (primitive index, wrapped fractional position in the supercell)"""
    out = {}
    for i, f in enumerate(t.frac_coords):
        for m in itertools.product(*(range(k) for k in shape)):
            p = np.mod((np.array(f) + m) / np.array(shape), 1.0)
            out[(i, tuple(np.round(p, 6) % 1.0))] = m
    return out


def key(i, f):
    p = np.round(np.mod(np.array(f), 1.0), 6) % 1.0
    return (i, tuple(p))


def order_checks(chk, sp, latt, shape):
    t = template(sp, latt)
    o = ActiveSiteOrder.from_structure_and_mapping(t, MAP, shape)
    ref = ref_positions(t, shape)
    nact = [i for i, s in enumerate(sp) if len(labels(MAP[s])) > 1]
    vol = int(np.prod(shape))
    full = o.full_structure_with_properties()
    chk.expect(o.primitive_site_count == len(sp) and o.original_site_count == len(sp) * vol == len(full)
               and o.active_site_count == len(nact) * vol, "site counts", got=[o.primitive_site_count, o.original_site_count, o.active_site_count])
    chk.expect(list(o.primitive_active_indices) == nact, "active sites of the template", got=o.primitive_active_indices, want=nact)
    chk.expect([labels(a) for a in o.allowed_species_by_primitive_site] == [labels(MAP[s]) for s in sp], "allowed species", got=o.allowed_species_by_primitive_site)
    chk.expect(list(o.species_by_primitive_site) == list(sp), "template species")
    # full supercell: every translated template site exactly once, with the right species
    prim = []
    seen = set()
    for j, s in enumerate(full):
        hit = [i for i in range(len(sp)) if key(i, s.frac_coords) in ref]
        chk.expect(len(hit) == 1 and s.specie.symbol == sp[hit[0]], "site of the full supercell is not a translated template site", site=j)
        seen.add(key(hit[0], s.frac_coords))
        prim.append(hit[0])
    chk.expect(seen == set(ref), "the full supercell misses template sites")
    chk.expect(np.allclose(full.lattice.matrix, (np.array(LATT[latt]).T * np.array(shape)).T), "supercell lattice")
    # bijection active <-> non-fixed originals
    a2o = [int(x) for x in o.active_to_original]
    chk.expect(sorted(a2o + [int(x) for x in o.fixed_original_indices]) == list(range(len(full))), "active and fixed sites do not partition the cell")
    chk.expect(all(prim[x] in nact for x in a2o), "a fixed site was numbered as active")
    chk.expect([int(x) for x in o.active_to_primitive] == [prim[x] for x in a2o], "active_to_primitive", got=o.active_to_primitive, want=[prim[x] for x in a2o])
    chk.expect({int(k): int(v) for k, v in o.original_to_active.items()} == {x: i for i, x in enumerate(a2o)}, "original_to_active is not the inverse")
    chk.expect({int(k): int(v) for k, v in o.primitive_to_active.items()} == {x: i for i, x in enumerate(nact)}, "primitive_to_active")
    act = o.active_structure()
    chk.expect(len(act) == len(a2o) and all(key(0, act[i].frac_coords) == key(0, full[x].frac_coords) and act[i].specie.symbol == sp[prim[x]]
                                            for i, x in enumerate(a2o)), "active structure sites")
    chk.expect(np.allclose(act.lattice.matrix, full.lattice.matrix), "active structure lattice")
    # selection
    vals = [1000 + j for j in range(len(full))]
    chk.equal(o.select_active_values(vals), [1000 + x for x in a2o], "selecting active values from a full vector")
    av = [50 + i for i in range(len(a2o))]
    if len(a2o) != len(full):
        chk.equal(o.select_active_values(av), av, "an active vector was changed by selection")
    chk.equal(o.select_active_values(np.array(vals)), [1000 + x for x in a2o], "selecting from an array")
    for n in range(0, len(full) + 3):
        if n not in (len(full), len(a2o)):
            chk.raises(lambda: o.select_active_values([0] * n), "occupation of wrong length accepted", n=n, exc=ValueError)
            chk.raises(lambda: State.from_occupations([0] * n, active_site_order=o), "state of wrong length accepted", n=n, exc=ValueError)
    for idx in range(-2, len(a2o) + 3):
        if 0 <= idx < len(a2o):
            o.validate_active_indices([0, idx])
        else:
            chk.raises(lambda: o.validate_active_indices([0, idx]), "out-of-range index accepted", index=idx)
    # the template handed in is not modified
    chk.expect(list(t.site_properties) == [] and len(t) == len(sp), "the template structure was modified")
    # persistence
    d = json.loads(json.dumps(o.as_dict()))
    o2 = ActiveSiteOrder.from_dict(d)
    for f in ("primitive_site_count", "original_site_count", "primitive_active_indices", "active_to_original", "active_to_primitive",
              "fixed_original_indices", "supercell_shape", "species_by_primitive_site", "allowed_species_by_primitive_site", "fingerprint"):
        chk.expect(getattr(o2, f) == getattr(o, f), "reloaded ordering differs", field=f, got=getattr(o2, f), want=getattr(o, f))
    chk.equal(o2.select_active_values(vals), [1000 + x for x in a2o], "reloaded ordering selects other sites")
    chk.equal(o2.as_dict(), o.as_dict(), "saved form of the reloaded ordering")
    o.assert_same_order(o2)
    o.assert_same_order(d)
    o2.assert_same_order(o)
    # hop lookup: direction from species only
    for mob in ("Na", "K", "Si"):
        lk = HopStateLookup.from_active_site_order(o, mob)
        for a, b in itertools.permutations(range(min(len(a2o), 5)), 2):
            la, lb = labels(MAP[sp[prim[a2o[a]]]]), labels(MAP[sp[prim[a2o[b]]]])
            e = Event((a, b), ())
            lk.annotate_event(e)
            ok = all(x in l for x in (mob, "X") for l in (la, lb))
            for sa, sb in itertools.product(range(len(la)), range(len(lb))):
                occ = [0] * len(a2o)
                occ[a], occ[b] = sa, sb
                want = 0
                if ok:
                    want = 1 if (la[sa], lb[sb]) == (mob, "X") else -1 if (la[sa], lb[sb]) == ("X", mob) else 0
                chk.expect(event_direction(occ, e) == want, "hop direction", mobile=mob, sites=(a, b), states=(la[sa], lb[sb]))
    chk.state((sp, latt, shape))
    chk.step(len(full))
    chk.outcome((len(nact), vol))


def same_sites(chk, o, full, got, keep, what, **data):
    """got must be exactly the kept active sites in active order, with the right indices"""
    a2o = [int(x) for x in o.active_to_original]
    want = [i for i, x in enumerate(a2o) if x in keep]
    idx = [int(x) for x in got.site_properties[ACTIVE_SITE_PROPERTY]]
    chk.expect(idx == want, what + ": wrong active sites", got=idx, want=want, **data)
    for i, s in zip(idx, got):
        d = s.distance(full[a2o[i]])
        chk.expect(d < 0.02 and s.specie.symbol == full[a2o[i]].specie.symbol, what + ": site lies elsewhere", active=i, distance=d, **data)


def filters(chk, sp, latt, shape):
    t = template(sp, latt)
    o = ActiveSiteOrder.from_structure_and_mapping(t, MAP, shape)
    full = o.full_structure_with_properties()
    plain = Structure(full.lattice, [s.specie for s in full], full.frac_coords)
    n = len(full)
    a2o = set(int(x) for x in o.active_to_original)
    act = sorted(a2o)
    subsets = [set(c) for k in range(len(act) + 1) for c in itertools.combinations(act, k)]
    perms = list(itertools.permutations(range(n))) if n <= 4 else [tuple(range(n)), tuple(range(n))[::-1], tuple((i * 5 + 2) % n for i in range(n)) if n % 5 else tuple((i * 3 + 1) % n for i in range(n)),
                                                                   tuple((i + 1) % n for i in range(n)), (1, 0) + tuple(range(2, n))]
    perms = [p for p in perms if len(set(p)) == n]
    rng = [np.array([0.004, -0.003, 0.002]), np.array([-0.004, 0.004, -0.001])]
    for src, base in (("plain", plain), ("annotated", full)):
        for rem in subsets:
            keep = set(range(n)) - rem
            for pi, perm in enumerate(perms):
                sites = [base[i] for i in perm if i in keep]
                if not sites or not (keep & a2o):
                    continue
                if pi and len(rem) > 2 and len(subsets) > 40:
                    continue
                for disp in (0, 1):
                    s = Structure.from_sites(sites)
                    if disp:
                        for k in range(len(s)):
                            s.translate_sites([k], rng[k % 2], frac_coords=False)
                    before = s.frac_coords.copy()
                    got = o.filter_active_structure(s)
                    same_sites(chk, o, full, got, keep, "filtering a %s structure" % src, removed=sorted(rem), perm=perm, displaced=disp)
                    chk.expect((s.frac_coords == before).all() and len(s) == len(sites), "filtering changed its input")
                    chk.state((sp, latt, shape, src, tuple(sorted(rem)), perm, disp))
                    chk.step()
                    again = o.filter_active_structure(got)
                    same_sites(chk, o, full, again, keep, "filtering a filtered structure", removed=sorted(rem), perm=perm)
    # active structure itself
    same_sites(chk, o, full, o.filter_active_structure(o.active_structure()), set(range(n)), "filtering the active structure")
    # shuffled active structure
    ast = o.active_structure()
    for perm in ([tuple(range(len(ast)))[::-1]] if len(ast) > 4 else itertools.permutations(range(len(ast)))):
        s = Structure.from_sites([ast[i] for i in perm])
        same_sites(chk, o, full, o.filter_active_structure(s), set(range(n)), "filtering a shuffled active structure", perm=perm)
    # rejects: a stray site, a duplicated active site
    for k in act:
        drop = next((i for i in range(n) if i != k), None)
        if drop is None:
            continue
        s = Structure.from_sites([plain[i] for i in range(n) if i not in (k, drop)] or [plain[drop]])
        if len(s) + 1 == n:
            continue
        s.append(plain[k].specie, plain[k].frac_coords + np.array([0.23, 0.17, 0.11]) / np.array(shape))
        chk.raises(lambda: o.filter_active_structure(s), "a structure with a misplaced site was accepted", site=k)
        if n > 2:
            other = next(i for i in act if i != k) if len(act) > 1 else None
            if other is not None:
                s = Structure.from_sites([plain[i] for i in range(n) if i != k])
                s.append(plain[other].specie, plain[other].frac_coords, validate_proximity=False)
                chk.raises(lambda: o.filter_active_structure(s), "a structure with a duplicated active site was accepted", site=k)


def pairs(chk):
    M = {"base": MAP, "swap": dict(MAP, Na=["X", "Na"]), "fixK": dict(MAP, K="K"), "three": dict(MAP, Na=["Na", "X", "K"]),
         "label": dict(MAP, Na=["Na", "Vacancy"]), "list": dict(MAP, O=["O"]), "tuple": dict(MAP, Na=("Na", "Va"), O=("O",)), "ofree": dict(MAP, O=["O", "X"]),
         "P": dict(MAP, Si=["Si", "X", "P"])}
    cat = []
    for sp in (("Na",), ("Na", "Na"), ("Na", "O"), ("O", "Na"), ("Na", "K", "O"), ("K", "Na", "O"), ("Na", "Si", "O"), ("Na", "Na", "O"), ("Na", "O", "Na")):
        for mk, m in M.items():
            for shape in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 4, 1), (3, 1, 2), (2, 1, 3)):
                try:
                    o = ActiveSiteOrder.from_structure_and_mapping(template(sp), m, shape)
                except ValueError:
                    chk.expect(all(len(labels(m[s])) < 2 for s in sp), "a template with active sites was rejected", species=sp, mapping=mk)
                    continue
                ident = (sp, tuple(labels(m[s]) for s in sp), shape)
                lib = EventLib()
                k = o.active_site_count
                for a, b in [(i, j) for i in range(k) for j in range(i)][:3]:
                    lib.add_event(Event((a, b), ()))
                lib.set_index_metadata(o)
                cat.append((ident, mk, o, o.as_dict(), lib))
    step = 1 if chk.thorough else 1
    for (i1, m1, o1, d1, l1) in cat:
        for (i2, m2, o2, d2, l2) in cat[::step]:
            same = i1 == i2
            for what, fn in (("order", lambda: o1.assert_same_order(o2)), ("metadata", lambda: o1.assert_same_order(d2)),
                             ("event library", lambda: l2.validate_index_metadata(o1))):
                try:
                    fn()
                    ok = True
                except ValueError:
                    ok = False
                if ok != same:
                    chk.fail("%s of %s %s for another index space" % (what, "a different input accepted" if ok else "the same input rejected", ""),
                             one=[i1, m1], two=[i2, m2])
            chk.checks += 3
            chk.step()
        chk.state((i1, m1))


def tampered(chk):
    o = ActiveSiteOrder.from_structure_and_mapping(template(("Na", "Na", "O")), MAP, (2, 1, 1))
    n = o.active_site_count
    for a, b, e in itertools.product(range(-1, n + 2), range(-1, n + 2), (None, -1, 0, n - 1, n, n + 3)):
        if a == b:
            continue
        ev = Event((a, b), () if e is None else (0, e))
        ok = all(0 <= x < n for x in (a, b) + (() if e is None else (e,)))
        for route in ("set", "late", "dict", "file"):
            lib = EventLib()

            def go():
                if route == "late":
                    lib.set_index_metadata(o)
                    lib.add_event(ev)
                    lib.validate_index_metadata(o)
                    return
                good = EventLib()
                good.add_event(Event((0, 1), ()))
                good.set_index_metadata(o)
                if route == "set":
                    lib.add_event(ev)
                    lib.set_index_metadata(o)
                    return
                d = good.as_dict()
                d["events"].append(ev.as_dict())
                d["event_dependencies"] = None
                if route == "dict":
                    EventLib.from_dict(d)
                else:
                    with open("c09.json", "w") as f:
                        json.dump(d, f)
                    EventLib.from_file("c09.json")
            try:
                go()
                acc = True
            except (IndexError, ValueError):
                acc = False
            chk.expect(acc == ok, "event indices %s" % ("out of range accepted" if acc else "in range rejected"), event=repr(ev), route=route)
            chk.state((a, b, e, route))
            chk.step()
    lib = EventLib()
    lib.add_event(Event((0, 1), ()))
    chk.raises(lambda: lib.validate_index_metadata(o), "a library without metadata was accepted", exc=ValueError)
    d = o.as_dict()
    for bad in (None, "kmcpy.active_site_order.v0", "x"):
        chk.raises(lambda: ActiveSiteOrder.from_dict(dict(d, format=bad)), "unknown ordering format accepted", exc=ValueError)
        chk.raises(lambda: o.assert_same_order(dict(d, format=bad)), "unknown ordering format accepted", exc=ValueError)
    for sp, m in ((("O",), MAP), (("Na", "Cl"), MAP), (("Na",), {"K": ["K", "X"]}), (("Na", "O"), {"Na": "Na", "O": ["O"]})):
        chk.raises(lambda: ActiveSiteOrder.from_structure_and_mapping(template(sp), m), "unmapped or inactive template accepted", exc=ValueError, species=sp)
    for shape in ((0, 1, 1), (1, -1, 1), (1, 1), (1, 1, 1, 1), (2,)):
        chk.raises(lambda: ActiveSiteOrder.from_structure_and_mapping(template(("Na",)), MAP, shape), "bad supercell shape accepted", exc=ValueError, shape=shape)


def lengths(chk):
    for sp, shape in ((("Na", "O"), (2, 1, 1)), (("O", "Na", "Si"), (1, 2, 1)), (("Na", "Na"), (1, 1, 2)), (("O", "Na", "O", "K"), (2, 1, 1))):
        o = ActiveSiteOrder.from_structure_and_mapping(template(sp), MAP, shape)
        a2o = [int(x) for x in o.active_to_original]
        N, A = o.original_site_count, o.active_site_count
        for n in range(1, N + 3):
            vals = [(i * 7) % 3 for i in range(n)]
            want = vals if n == A else [vals[x] for x in a2o] if n == N else None
            for route in ("occupations", "occupation", "h5", "memory"):
                def go():
                    if route == "memory":
                        return State.from_occupations(vals, active_site_order=o)
                    if route == "h5":
                        State(occupations=vals, time=1.5, step=3).save_checkpoint("c09.h5")
                        return State.from_file("c09.h5", active_site_order=o)
                    with open("c09s.json", "w") as f:
                        json.dump({route: vals, "time": 1.5, "step": 3}, f)
                    return State.from_file("c09s.json", active_site_order=o, supercell_shape=shape)
                if want is None:
                    chk.raises(go, "occupation of wrong length accepted", exc=ValueError, route=route, n=n)
                else:
                    s = go()
                    chk.equal(s.occupations, want, "loaded occupation", route=route, n=n, species=sp)
                chk.state((sp, shape, n, route))
                chk.step()


def config(chk):
    from pymatgen.io.cif import CifWriter
    from kmcpy.models import LocalBarrierModel
    from kmcpy.simulator.config import Configuration
    from kmcpy.simulator.kmc import KMC
    from mc.drv import World
    LocalBarrierModel(default_barrier=300.0).to("c09m.json")
    cat = []
    for name, sh in (("ring5", None), ("ring5", (4, 1, 1)), ("ring8", None), ("frame", None), ("frame", (2, 1, 1)), ("square", None), ("square", (3, 1, 3)), ("block", None)):
        w = World.get(name)
        shape = sh or w.shape
        o = ActiveSiteOrder.from_structure_and_mapping(w.template, w.mapping, shape)
        cif = "c09_%s.cif" % name
        CifWriter(w.template).write_file(cif)
        lib = EventLib()
        for a in range(2):
            lib.add_event(Event((a, a + 1), (a + 1,)))
        lib.set_index_metadata(o)
        ev = "c09_ev%d.json" % len(cat)
        lib.to(ev)
        cat.append((name, shape, w, o, cif, ev))
    ident = [(tuple(c[3].species_by_primitive_site), c[3].allowed_species_by_primitive_site, tuple(c[1])) for c in cat]
    for i, (name, shape, w, o, cif, _) in enumerate(cat):
        for j, c2 in enumerate(cat):
            for occ_n in (o.active_site_count, o.original_site_count, c2[3].active_site_count, o.active_site_count + 1):
                cfg = Configuration(structure_file=cif, model_file="c09m.json", model_type="local_barrier", event_file=c2[5], site_mapping=w.mapping,
                                    mobile_ion_specie=w.mobile, supercell_shape=shape, initial_occupations=[0] * occ_n,
                                    temperature=500.0, attempt_frequency=1e12, equilibration_passes=0, kmc_passes=1, elementary_hop_distance=3.0)
                ok = ident[i] == ident[j] and occ_n in (o.active_site_count, o.original_site_count)
                try:
                    kmc = KMC.from_config(cfg)
                    acc = True
                except (ValueError, IndexError):
                    acc = False
                chk.expect(acc == ok, "configuration with %s inputs %s" % (("matching", "rejected") if ok else ("mismatching", "accepted")),
                           structure=name, shape=shape, events_for=[c2[0], c2[1]], occupation_length=occ_n)
                if acc:
                    chk.expect(len(kmc.simulation_state.occupations) == len(kmc.structure) == o.active_site_count, "loaded sizes")
                    ref = o.active_structure()
                    chk.expect(all(kmc.structure[k].distance(ref[k]) < 1e-3 for k in range(len(ref))), "active structure of the loaded simulation")
                chk.state((name, shape, c2[0], c2[1], occ_n))
                chk.step()


def main(chk):
    maxn = 4 if chk.thorough else 3
    shapes = [s for s in itertools.product((1, 2, 3, 4), repeat=3) if np.prod(s) <= (12 if chk.thorough else 6)]
    chk.bounds = dict(templates="all species sequences over {Na,Si,K,O} of length <= %d with an active site" % maxn,
                      shapes=len(shapes), lattices=2, filter="all removed subsets x all permutations of cells up to 4 sites, selected permutations above",
                      pairs="all pairs of 9 templates x 9 mappings x 8 shapes")
    chk.assumptions = ["two orderings are the same iff template species sequence, allowed species per site and supercell shape agree; coordinates are covered by the known finding"]
    for n in range(1, maxn + 1):
        for latt in LATT:
            with chk.scenario("orders:%d:%s" % (n, latt)) as on:
                if on:
                    for sp in itertools.product(SP, repeat=n):
                        if all(s == "O" for s in sp):
                            continue
                        for shape in shapes:
                            chk.note(species=sp, lattice=latt, shape=shape)
                            order_checks(chk, sp, latt, shape)
    for sp, latt, shape in ((("Na", "O"), "ortho", (1, 1, 1)), (("Na", "O"), "tric", (2, 1, 1)), (("O", "Na", "K"), "tric", (1, 1, 1)), (("Na", "Si", "Na", "O"), "ortho", (1, 1, 1)),
                            (("Na", "Na"), "ortho", (1, 2, 1)), (("Na", "O"), "ortho", (1, 1, 3)), (("O", "Na", "K"), "tric", (2, 1, 1)), (("Na", "O", "O", "Si"), "tric", (1, 1, 2))):
        with chk.scenario("filter:%s:%s:%s" % ("-".join(sp), latt, "x".join(map(str, shape)))) as on:
            if on:
                filters(chk, sp, latt, shape)
    with chk.scenario("large") as on:
        if on:
            order_checks(chk, ("Na", "O", "Si"), "tric", (7, 6, 5))
            order_checks(chk, ("O", "K"), "ortho", (1, 12, 11))
            for sp, latt, shape in ((("Na", "O", "Si"), "tric", (4, 3, 5)), (("K", "Na"), "ortho", (11, 1, 2))):
                o = ActiveSiteOrder.from_structure_and_mapping(template(sp, latt), MAP, shape)
                full = o.full_structure_with_properties()
                n = len(full)
                act = [int(x) for x in o.active_to_original]
                for rem in ((), act[::3], act[1:90], [act[0], act[-1]]):
                    keep = set(range(n)) - set(rem)
                    for perm in (range(n), range(n)[::-1], list(range(0, n, 2)) + list(range(1, n, 2))):
                        s = Structure(full.lattice, [full[i].specie for i in perm if i in keep], [full[i].frac_coords + 0.0002 * (-1) ** i for i in perm if i in keep])
                        same_sites(chk, o, full, o.filter_active_structure(s), keep, "filtering a large structure", removed=len(rem), shape=shape)
                        chk.step()
                        chk.state((shape, len(rem), perm[0], perm[1]))
    for nm, fn in (("pairs", pairs), ("tampered", tampered), ("lengths", lengths), ("config", config)):
        with chk.scenario(nm) as on:
            if on:
                fn(chk)
    with chk.scenario("geometry") as on:
        if on:
            t1 = template(("Na", "Na", "O"))
            t2 = Structure(t1.lattice, ["Na", "Na", "O"], [POS[1], POS[0], POS[2]])
            o1 = ActiveSiteOrder.from_structure_and_mapping(t1, MAP)
            o2 = ActiveSiteOrder.from_structure_and_mapping(t2, MAP)
            chk.state("swap")
            try:
                o1.assert_same_order(o2)
                acc = True
            except ValueError:
                acc = False
            if acc:
                chk.fail("orderings of two templates that list the same species at exchanged coordinates compare as equal", key="same-species-coordinates")
