"""C04: the tracker's ion identities, displacements and hop counts follow the real hops.

A live simulator plus Tracker is driven along every edge of the state graph (each hop forwards and back), so
histories of thousands of hops are covered, plus all hop sequences up to a depth on fresh objects, plus complete
run() executions over all draw grids.
"""
import itertools

import numpy as np

from kmcpy.simulator.tracker import Tracker
from mc.drv import IonRef, Table, World, patched_rng, ref_run, tape


def make(w, start, lookup=True, **cfg):
    kmc = w.kmc(Table(2), start, lib=w.event_lib(), **cfg)
    tr = Tracker(config=kmc.config, structure=w.structure, initial_state=kmc.simulation_state,
                 hop_state_lookup=w.lookup() if lookup else None)
    return kmc, tr


def init_check(chk, w, tr, occ):
    rows = [int(x) for x in tr.mobile_ion_specie_locations]
    want = [i for i, o in enumerate(occ) if w.mob[i] is not None and o == w.mob[i]]
    chk.expect(sorted(rows) == want, "initial ion locations are the mobile-ion sites", got=rows, want=want, occ=occ)
    chk.expect(np.shape(tr.displacement) == (len(want), 3) and not np.any(tr.displacement), "displacements start at zero")
    chk.expect(len(tr.hop_counter) == len(want) and not np.any(tr.hop_counter), "hop counts start at zero")
    return IonRef(w, occ, rows)


def hop_check(chk, w, tr, ref, before, row, vecs, occ, **kw):
    """compare after one hop; `before` is the displacement array before it"""
    loc = [int(x) for x in tr.mobile_ion_specie_locations]
    chk.expect(loc == ref.loc, "ion locations / identities after a hop", got=loc, want=ref.loc, **kw)
    chk.expect([int(x) for x in tr.hop_counter] == ref.hops, "hop counts", got=tr.hop_counter, want=ref.hops, **kw)
    inc = np.array(tr.displacement) - before
    others = np.delete(inc, row, axis=0)
    chk.expect(not np.any(others), "displacement of an ion that did not hop changed", inc=inc, row=row, **kw)
    ok = any(np.allclose(inc[row], v, atol=1e-8, rtol=0) for v in vecs)
    chk.expect(ok, "displacement increment is not the shortest-image vector of the hop", got=inc[row], want=vecs, **kw)
    # whole-history consistency: end - start is a lattice translation away from the displacement
    d = np.array(tr.displacement)[row]
    f = (d - (w.F[ref.loc[row]] - w.F[ref.start[row]]) @ w.L) @ np.linalg.inv(w.L)
    chk.expect(np.allclose(f, np.round(f), atol=1e-6), "displacement is inconsistent with the net move", frac=f, **kw)


def walk(chk, w, start, max_edges=None, lookup=True):
    kmc, tr = make(w, start, lookup)
    ref = init_check(chk, w, tr, start)
    stack = [(start, iter(range(len(w.pairs))), None)]
    seen = {start}
    hist = []
    cnt = 0

    def go(i, occ, nxt):
        before = np.array(tr.displacement)
        d = w.direction(occ, w.pairs[i])
        ev = kmc.event_lib.events[i]
        tr.update(ev, 0.5)
        kmc.update(ev, 0.5)
        hist.append(i)
        row, vecs = ref.move(i, d)
        chk.step()
        chk.note(world=w.name, start=start, history=hist[-40:])
        hop_check(chk, w, tr, ref, before, row, vecs, nxt, pair=w.pairs[i], direction=d)

    chk.state(start)
    while stack:
        occ, it, came = stack[-1]
        moved = False
        for i in it:
            if w.direction(occ, w.pairs[i]) == 0:
                continue
            cnt += 1
            if max_edges and cnt > max_edges:
                return seen
            nxt = w.hop(occ, w.pairs[i])
            go(i, occ, nxt)
            if nxt not in seen:
                seen.add(nxt)
                chk.state(nxt)
                stack.append((nxt, iter(range(len(w.pairs))), i))
                moved = True
                break
            go(i, nxt, occ)
        if not moved:
            stack.pop()
            if stack and came is not None:
                go(came, occ, stack[-1][0])
    return seen


def main(chk):
    T = chk.thorough
    worlds = ["chain3", "ring5", "frame", "codes", "swapc", "block", "square32", "hex", "skew", "skew2", "fcc", "tric"]
    if T:
        worlds += ["codes3", "square", "ring8"]
    chk.bounds = dict(worlds=worlds, histories="every edge of every component (walk); all sequences to depth %d (tree)" % (5 if T else 4),
                      runs="draw grid 3^2 x equilibration {0,1}")
    for wn in worlds:
        with chk.scenario("walk/" + wn) as on:
            if on:
                w = World.get(wn)
                done = set()
                for occ in w.occupations():
                    if occ not in done:
                        c = walk(chk, w, occ)
                        done |= c
                        chk.trace()
                        chk.outcome((wn, len(c)))
                chk.sample(dict(world=wn, states=len(done)))
    with chk.scenario("large") as on:
        if on:
            w = World.get("big")
            for start in (tuple((i * 7 // 3) % 2 for i in range(w.n)), tuple(int(i % 29 != 3) for i in range(w.n))):
                kmc, tr = make(w, start)
                ref = init_check(chk, w, tr, start)
                for i, occ, nxt in w.long_history(start, 3000 if T else 300):
                    before = np.array(tr.displacement)
                    d = w.direction(occ, w.pairs[i])
                    ev = kmc.event_lib.events[i]
                    tr.update(ev, 0.5)
                    kmc.update(ev, 0.5)
                    row, vecs = ref.move(i, d)
                    chk.step()
                    chk.state(nxt)
                    hop_check(chk, w, tr, ref, before, row, vecs, nxt, pair=w.pairs[i], direction=d)
                chk.trace()
    # one ion going round and round: counts and displacements stay exact however long the run is
    with chk.scenario("long") as on:
        if on:
            w = World.get("chain3")
            for start, turns in (((0, 1, 1), 70000 if T else 23000), ((0, 1, 0), 500)):
                kmc, tr = make(w, start)
                ref = init_check(chk, w, tr, start)
                occ = start
                evs = kmc.event_lib.events
                last = None
                for k in range(3 * turns):
                    opts = [i for i, p in enumerate(w.pairs) if w.direction(occ, p) and i != last]
                    i = opts[0]
                    d = w.direction(occ, w.pairs[i])
                    tr.update(evs[i], 0.5)
                    kmc.update(evs[i], 0.5)
                    row, vecs = ref.move(i, d)
                    ref.disp[row] += vecs[0]
                    occ = w.hop(occ, w.pairs[i])
                    last = i
                    if k % 997 == 0 or k == 3 * turns - 1:
                        chk.expect([int(x) for x in tr.mobile_ion_specie_locations] == ref.loc, "ion locations in a long history", got=tr.mobile_ion_specie_locations, want=ref.loc, hops=k + 1)
                        chk.expect([int(x) for x in tr.hop_counter] == ref.hops, "hop counts in a long history", got=tr.hop_counter, want=ref.hops)
                        chk.close(tr.displacement, ref.disp, "displacement in a long history", rel=1e-9, abs_=1e-6, hops=k + 1)
                chk.step(3 * turns)
                chk.trace()
                chk.state((start, turns))
    # trackers made without precomputed state codes (binary default) must agree as well
    for wn in ("ring5", "hex"):
        with chk.scenario("default_codes/" + wn) as on:
            if on:
                w = World.get(wn)
                done = set()
                for occ in w.occupations():
                    if occ not in done:
                        done |= walk(chk, w, occ, lookup=False)
    depth = 5 if T else 4
    for wn in ("chain3", "skew", "codes", "ring5"):
        with chk.scenario("tree/" + wn) as on:
            if on:
                w = World.get(wn)

                def rec(start, hist, occ):
                    opts = [i for i, p in enumerate(w.pairs) if w.direction(occ, p)]
                    if len(hist) == depth or not opts:
                        kmc, tr = make(w, start)
                        ref = init_check(chk, w, tr, start)
                        o = start
                        chk.note(world=wn, start=start, history=hist)
                        for i in hist:
                            before = np.array(tr.displacement)
                            d = w.direction(o, w.pairs[i])
                            ev = kmc.event_lib.events[i]
                            tr.update(ev, 1.0)
                            kmc.update(ev, 1.0)
                            row, vecs = ref.move(i, d)
                            o = w.hop(o, w.pairs[i])
                            chk.step()
                            hop_check(chk, w, tr, ref, before, row, vecs, o, pair=w.pairs[i], direction=d)
                        chk.trace()
                        chk.state((start, tuple(hist)))
                        return
                    for i in opts:
                        rec(start, hist + [i], w.hop(occ, w.pairs[i]))
                occs = list(w.occupations())
                for s in occs if (T or len(occs) <= 8) else occs[:: max(1, len(occs) // 8)]:
                    rec(s, [], s)
    # the tracker returned by run() describes exactly the production part
    grid = (0.06, 0.44, 0.93)
    for wn in ("ring5", "frame", "block", "skew", "tric"):
        with chk.scenario("run/" + wn) as on:
            if on:
                w = World.get(wn)
                L = w.pass_length()
                tab = Table(4)
                occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                occs = occs if (T and len(occs) < 60) else occs[:: max(1, len(occs) // 5)]
                for occ, neq, npass, (a, b) in itertools.product(occs, (0, 1), (1, 3), itertools.product(grid, repeat=2)):
                    us = [a, 0.5, b, 0.25, 1 - a, 0.75] * ((neq + npass) * L)
                    us = us[: 2 * (neq + npass) * L]
                    if len(us) > 310:
                        continue
                    kmc = w.kmc(Table(4), occ, equilibration_passes=neq, kmc_passes=npass)
                    with patched_rng(tape(us)):
                        tr = kmc.run(label="c04")
                    start, traj = ref_run(w, tab, occ, us, neq * L, npass * L)
                    rows = [i for i, o in enumerate(start) if w.mob[i] is not None and o == w.mob[i]]
                    ref = IonRef(w, start, rows)
                    amb = False
                    for i, dt, o, t, d in traj:
                        row, vecs = ref.move(i, d)
                        amb = amb or len(vecs) > 1
                        ref.disp[row] += vecs[0]
                    chk.step(len(traj))
                    chk.trace()
                    chk.state(("run", occ, neq, npass, a, b))
                    chk.note(world=wn, occ=occ, neq=neq, npass=npass, a=a, b=b)
                    # rows may be in any order: compare as multisets keyed by final location
                    loc = [int(x) for x in tr.mobile_ion_specie_locations]
                    chk.expect(sorted(loc) == sorted(ref.loc), "final ion locations after run", got=loc, want=ref.loc)
                    for r, site in enumerate(loc):
                        q = ref.loc.index(site)
                        chk.expect(int(tr.hop_counter[r]) == ref.hops[q], "hop count after run", got=tr.hop_counter[r], want=ref.hops[q])
                        if not amb:
                            chk.close(tr.displacement[r], ref.disp[q], "displacement after run", rel=1e-9, abs_=1e-7)
