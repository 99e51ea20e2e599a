"""C08: event dependencies list every event a hop can affect.

shapes  - every pair of event shapes over a site alphabet (all endpoint orders, environments with repetitions), as one
          library per block so that all ordered pairs of shapes meet; oracle: plain set intersection;
orders  - every ordered selection (with repetition) of up to n events from an alphabet, one library each;
ops     - every sequence of add/generate/clear/save/reload operations up to a depth next to a reference automaton;
worlds  - dependency lists of the simulator's own libraries, through the simulator.
"""
import itertools
import json
import os

import numpy as np

from kmcpy.event import Event, EventLib
from mc.drv import Table, World

SITES = (0, 1, 2, 9, 300, 70000)


def sites_of(e):
    return set(e.mobile_ion_indices) | set(e.local_env_indices)


def ref_deps(evs):
    ss = [sites_of(e) for e in evs]
    return [[j for j in range(len(evs)) if ss[i] & ss[j]] for i in range(len(evs))]


def ref_index(evs):
    d = {}
    for i, e in enumerate(evs):
        for s in sites_of(e):
            d.setdefault(s, []).append(i)
    return d


def check(chk, lib, evs, fresh, **data):
    """fresh: dependencies are expected to be present"""
    chk.expect(len(lib) == len(evs) and [tuple(lib[i].mobile_ion_indices) + ("|",) + tuple(lib[i].local_env_indices) for i in range(len(evs))]
               == [tuple(e.mobile_ion_indices) + ("|",) + tuple(e.local_env_indices) for e in evs], "events of the library", **data)
    idx = ref_index(evs)
    for s in set(SITES) | set(idx):
        got = list(lib.get_events_involving_site(s))
        chk.expect(sorted(set(int(x) for x in got)) == idx.get(s, []), "events involving a site", site=s, got=got, want=idx.get(s, []), **data)
    has = lib.has_event_dependencies()
    chk.expect(has == fresh, "dependency list reported as %s" % ("present" if has else "missing"), **data)
    if has:
        want = ref_deps(evs)
        for i in range(len(evs)):
            got = [int(x) for x in lib.get_dependent_events(i)]
            chk.expect(sorted(got) == want[i], "dependent events", event=i, got=got, want=want[i], **data)
        tot = sum(map(len, want))
        info = lib.get_event_dependencies_info()
        chk.expect(info["num_events"] == len(evs) and info["total_dependencies"] == tot, "dependency info", got=info, **data)
        st = lib.get_dependency_statistics()
        chk.expect(st["total_events"] == len(evs) and st["total_dependencies"] == tot
                   and st["max_dependencies_per_event"] == max(map(len, want)) and st["min_dependencies_per_event"] == min(map(len, want))
                   and abs(st["avg_dependencies_per_event"] - tot / len(evs)) < 1e-12
                   and abs(st["dependency_density"] - tot / len(evs) ** 2) < 1e-12, "dependency statistics", got=st, **data)
    else:
        chk.expect(lib.get_event_dependencies_info()["status"] == "not_generated", "missing list reported as generated", **data)
        for i in range(len(evs)):
            chk.expect(list(lib.get_dependent_events(i)) == [], "dependents although none are generated", **data)


def build(evs):
    lib = EventLib()
    for e in evs:
        lib.add_event(Event(mobile_ion_indices=tuple(e.mobile_ion_indices), local_env_indices=tuple(e.local_env_indices)))
    return lib


def shapes(chk, sites, maxenv, reverse):
    evs = []
    for a, b in itertools.permutations(sites, 2):
        for n in range(maxenv + 1):
            for env in itertools.product(sites, repeat=n):
                evs.append(Event((a, b), env))
    if reverse:
        evs = evs[::-1]
    lib = build(evs)
    lib.generate_event_dependencies()
    bit = {s: 1 << k for k, s in enumerate(sites)}
    masks = np.array([sum(bit[s] for s in sites_of(e)) for e in evs])
    for i in range(len(evs)):
        got = np.array(sorted(lib.get_dependent_events(i)), dtype=int)
        want = np.nonzero(masks & masks[i])[0]
        if got.shape != want.shape or (got != want).any():
            chk.fail("dependent events", event=repr(evs[i]), missing=[repr(evs[j]) for j in list(set(want) - set(got))[:5]],
                     extra=[repr(evs[j]) for j in list(set(got) - set(want))[:5]])
        chk.checks += len(evs)
        chk.state((sites, evs[i].mobile_ion_indices, evs[i].local_env_indices))
    chk.step(len(evs) ** 2)
    idx = ref_index(evs)
    for s in sites:
        chk.expect(sorted(set(lib.get_events_involving_site(s))) == idx[s], "events involving a site", site=s)


def ops(chk, depth):
    w = World.get("ring5")
    E = [Event((0, 1), (2,)), Event((3, 4), ()), Event((2, 1), (0, 1)), Event((4, 2), (3, 3))]
    OPS = ["add0", "add1", "add2", "add3", "gen", "clear", "dict", "file", "fileless"]
    for d in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=d):
            if not seq[0].startswith("add") or (d < depth and not chk.thorough and seq[-1] in ("clear",)):
                continue
            lib, evs, fresh = EventLib(), [], False
            lib.set_index_metadata(w.order)
            chk.note(seq=seq)
            for op in seq:
                if op.startswith("add"):
                    e = E[int(op[3])]
                    lib.add_event(Event(e.mobile_ion_indices, e.local_env_indices))
                    evs.append(e)
                    fresh = False
                elif op == "gen":
                    r = lib.generate_event_dependencies()
                    chk.expect([sorted(int(x) for x in row) for row in r] == ref_deps(evs), "returned dependency matrix", seq=seq)
                    fresh = True
                elif op == "clear":
                    lib.clear_event_dependencies()
                    fresh = False
                elif op == "dict":
                    lib = EventLib.from_dict(json.loads(json.dumps(lib.as_dict())))
                elif op == "file":
                    lib.to("c08.json")
                    lib = EventLib.from_file("c08.json")
                    fresh = True
                elif op == "fileless":  # a file without embedded dependencies
                    dd = lib.as_dict()
                    dd.pop("event_dependencies")
                    with open("c08b.json", "w") as f:
                        json.dump(dd, f)
                    lib = EventLib.from_file("c08b.json")
                    fresh = True
                chk.step()
            check(chk, lib, evs, fresh, seq=seq)
            chk.trace()
            chk.state((tuple(map(repr, evs)), fresh, seq[-1]))
            chk.outcome((len(evs), fresh))


def orders(chk, n):
    E = [Event((0, 1), ()), Event((1, 0), (9,)), Event((9, 2), (2, 2, 300)), Event((300, 70000), ()), Event((70000, 2), (0,)),
         Event((9, 300), (70000, 9, 0)), Event((2, 70000), (70000,))]
    for k in range(1, n + 1):
        for sel in itertools.product(range(len(E)), repeat=k):
            lib = build([E[i] for i in sel])
            lib.generate_event_dependencies()
            check(chk, lib, [E[i] for i in sel], True, sel=sel)
            chk.step()
            chk.state(sel)
            if k < n:
                lib.add_event(E[sel[0]])
                check(chk, lib, [E[i] for i in sel] + [E[sel[0]]], False, sel=sel, then="add")


def main(chk):
    chk.bounds = dict(shapes="sites 6 (values up to 70000), environments of length 0..2 with repetition, plus 4 sites with length 0..3; all ordered pairs",
                      orders="all ordered selections with repetition of up to %d of 7 events" % (6 if chk.thorough else 5),
                      ops="all sequences of add(4 events)/generate/clear/dict/file/file-without-dependencies, length <= %d" % (6 if chk.thorough else 5))
    for sites, me in ((SITES, 2), (SITES[1:5], 3)):
        for rev in (False, True):
            with chk.scenario("shapes:%d:%d:%s" % (len(sites), me, rev)) as on:
                if on:
                    shapes(chk, sites, me, rev)
    with chk.scenario("orders") as on:
        if on:
            orders(chk, 6 if chk.thorough else 5)
    with chk.scenario("ops") as on:
        if on:
            ops(chk, 6 if chk.thorough else 5)
    with chk.scenario("long") as on:  # many events, long environments, disjoint blocks
        if on:
            for n, m in ((1, 40), (37, 3), (130, 12), (300, 5)):
                evs = [Event((3 * i, 3 * i + 1), tuple((3 * i + 7 * k) % (3 * n) for k in range(m))[::-1]) for i in range(n)]
                lib = build(evs)
                lib.generate_event_dependencies()
                check(chk, lib, evs, True, n=n, m=m)
                chk.state((n, m))
                chk.step()
    with chk.scenario("stale_file") as on:
        if on:
            w = World.get("ring8")
            full = w.event_lib()
            evs = full.events
            for rows in range(0, len(evs)):
                d = full.as_dict()
                d["event_dependencies"] = d["event_dependencies"][:rows]
                with open("c08c.json", "w") as f:
                    json.dump(d, f)
                lib = EventLib.from_file("c08c.json")
                check(chk, lib, evs, True, rows=rows)
                chk.state(rows)
                chk.step()
    for name in World.SPEC:
        if name == "fcc" and not chk.thorough:
            pass
        with chk.scenario("worlds:" + name) as on:
            if not on:
                continue
            w = World.get(name)
            occ = tuple((w.vac[i] if i % 2 else w.mob[i]) or 0 for i in range(w.n))
            for via in ("plain", "generated", "extended", "dict", "file", "added", "cleared"):
                if via == "plain":
                    lib = EventLib()
                    for e in w.events():
                        lib.add_event(e)
                    lib.set_index_metadata(w.order)
                elif via == "added":
                    lib = EventLib()
                    for e in w.events()[:-1]:
                        lib.add_event(e)
                    lib.set_index_metadata(w.order)
                    lib.generate_event_dependencies()
                    lib.add_event(w.events()[-1])
                elif via == "cleared":
                    lib = w.event_lib()
                    lib.clear_event_dependencies()
                else:
                    lib = w.event_lib(via)
                kmc = w.kmc(Table(1), occ, lib=lib)
                check(chk, kmc.event_lib, w.events(), True, via=via)
                chk.state(via)
                chk.step()
    with chk.scenario("rejects") as on:
        if on:
            w = World.get("ring5")
            lib = w.event_lib()
            good = lib.as_dict()
            for bad, what in (([e for e in good["events"]], "list"), (dict(good, index_metadata=None), "no metadata")):
                with open("c08d.json", "w") as f:
                    json.dump(bad, f)
                chk.raises(lambda: EventLib.from_file("c08d.json"), "file accepted: " + what)
            for k in ("mobile_ion_indices", "local_env_indices"):
                for i in range(len(good["events"])):
                    for v in (-1, 5, 99):
                        d = json.loads(json.dumps(good))
                        d["events"][i][k][0] = v
                        chk.raises(lambda: EventLib.from_dict(d), "out-of-range event index accepted", event=i, field=k, value=v)
                        chk.state((k, i, v))
                        chk.step()
            nolib = EventLib()
            nolib.add_event(Event((0, 1), ()))
            chk.raises(lambda: nolib.to("c08e.json"), "saved without index metadata")
            chk.expect(not os.path.exists("c08e.json"), "a file was written although saving was refused")
