"""C03: every accepted hop is a legal ion/vacancy exchange; nothing else changes.

One live simulator is driven along every edge of the state graph of every world (all occupations, including
blocking species, different codes per site and endpoints that cannot hold the ion); after every step the whole
state is compared with a reference that moves chemical species, not codes.
"""
import itertools
from collections import Counter

from pymatgen.core import Lattice, Structure

from kmcpy.event import Event, HopStateLookup, event_direction
from kmcpy.models import CompositeLCEModel, LocalBarrierModel
from kmcpy.simulator.state import State
from kmcpy.structure.active_site_order import ActiveSiteOrder
from mc import models_ref
from mc.drv import Table, World, check_rates, patched_rng, tape

DTS = (1.0, 0.0, 3.5e-13, 0.1, 2.0e9)


def species(w, occ):
    return [w.allowed[i][o] for i, o in enumerate(occ)]


def full_check(chk, w, st, occ, t, n, what, **kw):
    got = tuple(int(x) for x in st.occupations)
    chk.expect(len(got) == w.n and got == tuple(occ), what + ": occupation is not the exchanged one", got=got, want=occ, **kw)
    chk.close(float(st.time), t, what + ": clock", rel=1e-12, **kw)
    chk.expect(int(st.step) == n, what + ": step counter", got=st.step, want=n, **kw)


def walk(chk, w, mk, start, rate):
    kmc = w.kmc(mk(), start, lib=w.event_lib())
    st = kmc.simulation_state
    t, n = 0.0, 0
    cnt = Counter(species(w, start))
    stack = [(start, iter(range(len(w.pairs))), None)]
    seen = {start}
    hist = []

    def go(i, cur, nxt):
        nonlocal t, n
        dt = DTS[n % len(DTS)]
        kmc.update(kmc.event_lib.events[i], dt)
        t += dt
        n += 1
        hist.append(i)
        chk.step()
        chk.note(start=start, history=hist[-40:], world=w.name)
        full_check(chk, w, kmc.simulation_state, nxt, t, n, "after a hop", before=cur, event=w.pairs[i])
        chk.expect(Counter(species(w, kmc.simulation_state.occupations)) == cnt, "species are not conserved", before=cur,
                   after=kmc.simulation_state.occupations)

    def rates(occ):
        r = [rate(i, occ) for i in range(len(w.pairs))]
        check_rates(chk, kmc, r, "selectable events", strict=True, occ=occ)
        full_check(chk, w, kmc.simulation_state, occ, t, n, "after only proposing")

    rates(start)
    chk.state(start)
    while stack:
        occ, it, came = stack[-1]
        moved = False
        for i in it:
            if w.direction(occ, w.pairs[i]) == 0:
                continue
            nxt = w.hop(occ, w.pairs[i])
            go(i, occ, nxt)
            rates(nxt)
            if nxt not in seen:
                seen.add(nxt)
                chk.state(nxt)
                stack.append((nxt, iter(range(len(w.pairs))), i))
                moved = True
                break
            go(i, nxt, occ)
        if not moved:
            stack.pop()
            if stack and came is not None:
                go(came, occ, stack[-1][0])
    return seen


def main(chk):
    T = chk.thorough
    worlds = ["chain3", "ring5", "frame", "codes", "swapc", "block", "badpair", "novac", "square32", "hex"]
    if T:
        worlds += ["codes3", "square", "fcc", "tric"]
    chk.bounds = dict(worlds=worlds, histories="every edge of every connected component of the state graph, all initial occupations",
                      dt_alphabet=DTS)
    for wn in worlds:
        with chk.scenario("walk/" + wn) as on:
            if on:
                w = World.get(wn)
                tab = Table(5)

                def rate(i, occ):
                    return tab.rate(tuple(w.pairs[i]), tuple(w.envs[i]), w.direction(occ, w.pairs[i]),
                                    tuple(occ[s] for s in w.envs[i]))
                done = set()
                for occ in w.occupations():
                    if occ not in done:
                        c = walk(chk, w, lambda: Table(5), occ, rate)
                        done |= c
                        chk.trace()
                        chk.outcome((wn, len(c)))
                chk.sample(dict(world=wn, states=len(done), events=len(w.pairs)))
        # possible <=> non-zero rate, for the shipped models, every occupation, every event
        with chk.scenario("rates/" + wn) as on:
            if on:
                w = World.get(wn)
                evs = w.events()
                lk = w.lookup()
                for e in evs:
                    lk.annotate_event(e)
                rc = w.config().runtime_config
                mods = [LocalBarrierModel.constant_barrier(300.0), models_ref.lbm(w)]
                ne = set(map(len, w.envs))
                if len(ne) == 1 and 2 <= min(ne) <= 8:
                    mods.append(CompositeLCEModel(kra_model=models_ref.lce(w, 0, n_env=min(ne)),
                                                  site_model=models_ref.lce(w, 1, n_env=min(ne))))
                for occ in w.occupations():
                    st = State(occupations=list(occ))
                    chk.state(("r", occ))
                    for e, p in zip(evs, w.pairs):
                        d = w.direction(occ, p)
                        chk.step()
                        chk.expect(event_direction(list(occ), e) == d, "hop direction", occ=occ, pair=p,
                                   got=event_direction(list(occ), e), want=d)
                        for m in mods:
                            r = float(m.compute_probability(event=e, runtime_config=rc, simulation_state=st))
                            chk.expect((r > 0) if d else (r == 0), "rate is positive exactly for possible hops",
                                       occ=occ, pair=p, direction=d, rate=r, model=type(m).__name__)
                    chk.expect(tuple(st.occupations) == occ, "evaluating rates changed the state", occ=occ, got=st.occupations)
    with chk.scenario("large") as on:
        if on:
            w = World.get("big")
            for start in (tuple((i * 7 // 3) % 2 for i in range(w.n)), tuple(int(i % 29 != 3) for i in range(w.n)), tuple(int(i == 100) for i in range(w.n))):
                kmc = w.kmc(Table(5), start)
                t, n = 0.0, 0
                for i, occ, nxt in w.long_history(start, 3000 if T else 400):
                    kmc.update(kmc.event_lib.events[i], DTS[n % len(DTS)])
                    t += DTS[n % len(DTS)]
                    n += 1
                    chk.step()
                    chk.state(nxt)
                    full_check(chk, w, kmc.simulation_state, nxt, t, n, "after a hop of a long history", event=w.pairs[i])
                chk.trace()
    with chk.scenario("spellings") as on:
        if on:
            spellings(chk)
    # through run(): conservation along complete runs for all first draws
    for wn in ("codes", "block", "square32"):
        with chk.scenario("run/" + wn) as on:
            if on:
                w = World.get(wn)
                grid = (0.03, 0.37, 0.62, 0.97)
                occs = [o for o in w.occupations() if any(w.direction(o, p) for p in w.pairs)]
                for occ in occs if T else occs[:: max(1, len(occs) // 6)]:
                    cnt = Counter(species(w, occ))
                    for a in grid:
                        for b in grid:
                            kmc = w.kmc(Table(9), occ, kmc_passes=2, equilibration_passes=1)
                            with patched_rng(tape([a, 0.4, b, 0.2, 1 - a, 0.9] * 12)):
                                kmc.run(label="c03")
                            chk.step()
                            chk.trace()
                            chk.state(("run", occ, a, b))
                            got = kmc.simulation_state.occupations
                            chk.expect(len(got) == w.n and Counter(species(w, got)) == cnt, "species conserved over a run",
                                       start=occ, got=got)


VAC = ("X", "Vacancy", "vacancy", "Va", "VA")


def spellings(chk):
    """every spelling of the vacancy, every position of ion and vacancy in the two sites' lists, every pair of states"""
    s = Structure(Lattice.cubic(8.0), ["Na", "Li"], [[0, 0, 0], [0.25, 0, 0]])
    for va, vb in itertools.product(VAC, repeat=2):
        for pa, pb in itertools.product(itertools.permutations(["Na", va, "K"]), itertools.permutations(["Na", vb, "Li", "Ag"][:4])):
            for na, nb in ((3, 4), (2, 2)):
                A, B = list(pa[:na]), list(pb[:nb])
                if not chk.thorough and (na, nb) == (3, 4) and (VAC.index(va) + VAC.index(vb) + A.index("Na") + B.index("Na")) % 3:
                    continue
                order = ActiveSiteOrder.from_structure_and_mapping(s, {"Na": A, "Li": B})
                e = Event((0, 1), (0, 1))
                HopStateLookup.from_active_site_order(order, "Na").annotate_event(e)
                full = all("Na" in x for x in (A, B)) and va in A and vb in B
                chk.trace()
                for a, b in itertools.product(range(len(A)), range(len(B))):
                    d = 0
                    if full:
                        d = 1 if (A[a], B[b]) == ("Na", vb) else -1 if (A[a], B[b]) == (va, "Na") else 0
                    got = event_direction([a, b], e)
                    chk.step()
                    chk.state((A[a], B[b], full))
                    chk.expect(got == d, "hop direction depends on how the vacancy is written", allowed=(A, B), states=(a, b), got=got, want=d)
