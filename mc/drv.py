"""Controlled random tapes and small closed worlds for driving the real simulator."""
import itertools
import math
import sys

import numpy as np
from pymatgen.core import Lattice, Structure

from kmcpy.event import Event, EventLib, HopStateLookup
from kmcpy.models.base import BaseModel
from kmcpy.simulator.config import Configuration
from kmcpy.simulator.kmc import KMC
from kmcpy.simulator.state import State
from kmcpy.structure.active_site_order import ActiveSiteOrder

KB = 8.617333262145e-2  # meV/K, CODATA value documented by the project

# ------------------------------------------------------------------ random tapes


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    y &= 0xFFFFFFFF
    x = y
    for _ in range(7):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


_MEMO = {}


def _words(u):
    r = _MEMO.get(u)
    if r is None:
        n = int(u * (1 << 53))
        r = (_untemper((n >> 26) << 5), _untemper((n & ((1 << 26) - 1)) << 6))
        if len(_MEMO) < 200000:
            _MEMO[u] = r
    return r


_FILL = tuple(itertools.chain.from_iterable(_words(0.5) for _ in range(312)))


def tape(us):
    """A genuine numpy Generator whose next random() values are exactly `us` (<= 312), then 0.5."""
    us = list(us)
    assert len(us) <= 312
    key = np.array(_FILL, dtype=np.uint32)
    for i, u in enumerate(us):
        key[2 * i], key[2 * i + 1] = _words(float(u))
    bg = np.random.MT19937(0)
    st = bg.state
    st["state"]["key"] = key
    st["state"]["pos"] = 0
    bg.state = st
    return np.random.Generator(bg)


U_E = math.exp(-1.0)  # second draw giving dt = 1/total


class patched_rng:
    """Make np.random.default_rng return the given generator (what KMC.run uses)."""

    def __init__(self, gen):
        self.gen = gen
        self.calls = []

    def __enter__(self):
        self.old = old = np.random.default_rng
        self.oldgen = oldgen = np.random.Generator
        gen, calls = self.gen, self.calls

        def fake(seed=None, *a, **k):
            calls.append(seed)
            return gen

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, oldgen)

        class FakeGenerator(metaclass=Meta):
            def __new__(cls, bit_generator=None):
                calls.append(bit_generator)
                return gen

        # wherever the code under test looks the constructors up
        self.undo = []
        for m in [np.random] + [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "kmcpy" and m is not None]:
            for n, v in list(vars(m).items()):
                if v is old or v is oldgen:
                    self.undo.append((m, n, v))
                    setattr(m, n, fake if v is old else FakeGenerator)
        return self

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)


_RNG_ATTR = None


def rng_attr():
    """Name of the attribute in which the simulator keeps its generator (found behaviourally)."""
    global _RNG_ATTR
    if _RNG_ATTR is None:
        import os, tempfile, shutil
        w = World.get("chain3")
        k = w.kmc(Table(), (0, 1, 1), equilibration_passes=0, kmc_passes=1, random_seed=1)
        g = tape([0.5] * 20)
        d = tempfile.mkdtemp(prefix="kmcmc_")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with patched_rng(g):
                k.run(label="p")
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        names = [(n,) for n, v in vars(k).items() if v is g]
        names += [(n, n2) for n, v in vars(k).items() for n2, v2 in getattr(v, "__dict__", {}).items() if v2 is g]
        _RNG_ATTR = names[0] if names else ("rng",)
    return _RNG_ATTR


def set_tape(kmc, us):
    path = rng_attr()
    for n in path[:-1]:
        kmc = getattr(kmc, n)
    setattr(kmc, path[-1], tape(us))


def propose(kmc, u1, u2=U_E):
    set_tape(kmc, [u1, u2])
    ev, dt = kmc.propose(kmc.event_lib.events)[:2]
    return ev, dt


def index_of(kmc, ev):
    for i, e in enumerate(kmc.event_lib.events):
        if e is ev:
            return i
    for i, e in enumerate(kmc.event_lib.events):
        if e == ev:
            return i
    raise LookupError("proposed event is not in the event library")


def check_rates(chk, kmc, want, what, strict=False, **data):
    """The simulator's current rates, observed through proposals only, equal `want` (in library order).

    Pins the total rate (via the waiting time) and both boundaries of every event's selection interval.
    """
    want = [float(x) for x in want]
    total = math.fsum(want)
    if not total > 0:
        try:
            set_tape(kmc, [0.5, U_E])
            ev, dt = kmc.propose(kmc.event_lib.events)[:2]
        except Exception:
            chk.checks += 1
            return
        if not strict and not (math.isfinite(dt)):
            chk.checks += 1     # the total rate is zero; what a proposal means then is C02's and C03's question
            return
        chk.fail(what + ": an event was proposed although no event has a non-zero rate",
                 proposed=repr(ev), want=want, **data)
    evs = kmc.event_lib.events
    draws = []
    c = 0.0
    d = 2e-10
    for i, r in enumerate(want):
        if r > 0:
            lo, hi = c / total, (c + r) / total
            if hi - lo > 8 * d:
                draws.append((lo + d, i))
                draws.append((hi - d, i))
            else:
                draws.append(((lo + hi) / 2, i))
        c += r
    for k in range(0, len(draws), 150):
        part = draws[k:k + 150]
        us = []
        for u, _ in part:
            us += [u, U_E]
        set_tape(kmc, us)
        for u, i in part:
            ev, dt = kmc.propose(evs)[:2]
            if ev is not evs[i] and not (ev == evs[i] and want[index_of(kmc, ev)] == want[i] and False):
                chk.fail(what + ": draw inside the interval of event %d selected another event" % i,
                         u=u, expected_event=i, got_event=index_of(kmc, ev), want_rates=want, **data)
            if not abs(dt * total - 1.0) <= 1e-9:
                chk.fail(what + ": total rate differs from the sum of the fresh rates",
                         got_total=1.0 / dt if dt else None, want_total=total, want_rates=want, **data)
    chk.checks += 2 * len(draws)


# ------------------------------------------------------------------ worlds


class World:
    """A small periodic crystal, its active-site order and a hand-made event library."""

    SPEC = {
        # name: (lattice, species, frac coords, mapping, shape, hop cutoff, env cutoff, include endpoints)
        "chain3": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Na", "X"]}, (3, 1, 1), 3.1, 3.1, False),
        "ring5": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Na", "X"]}, (5, 1, 1), 3.1, 3.1, False),
        # two events per pair of sites, in the same or the opposite orientation, with different environments
        "twin": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Na", "X"]}, (5, 1, 1), 3.1, 3.1, False),
        "ring6far": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Na", "X"]}, (6, 1, 1), 3.1, 6.1, False),
        "ring8": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Na", "X"]}, (8, 1, 1), 3.1, 3.1, False),
        # framework sites that may be Si or P but never hop
        "frame": (np.diag([3.0, 9.0, 9.0]), ["Na", "Si", "O"], [[0, 0, 0], [0.5, 0.2, 0], [0.5, 0.5, 0.5]],
                  {"Na": ["Na", "X"], "Si": ["Si", "P"], "O": "O"}, (3, 1, 1), 3.1, 3.2, True),
        # a second active species whose symbol contains the mobile ion's
        "sub": (np.diag([3.0, 9.0, 9.0]), ["Fe", "F"], [[0.5, 0.2, 0], [0, 0, 0]],
                {"F": ["F", "X"], "Fe": ["Fe", "Mn"]}, (3, 1, 1), 3.1, 3.2, True),
        # ion/vacancy codes differ between sublattices; third species may block a site
        "codes": (np.diag([4.0, 9.0, 9.0]), ["Na", "K"], [[0, 0, 0], [0.5, 0.1, 0]],
                  {"Na": ["Na", "X"], "K": ["X", "K", "Na"]}, (2, 1, 1), 2.5, 4.1, False),
        "codes3": (np.diag([4.0, 9.0, 9.0]), ["Na", "K"], [[0, 0, 0], [0.5, 0.1, 0]],
                   {"Na": ["Na", "X"], "K": ["X", "K", "Na"]}, (3, 1, 1), 2.5, 4.1, True),
        # the ion state is not the first one; a third species blocks hops
        "block": (np.diag([3.0, 9.0, 9.0]), ["Na"], [[0, 0, 0]], {"Na": ["Mg", "X", "Na"]}, (4, 1, 1), 3.1, 3.1, False),
        # endpoints that cannot hold the ion, or cannot be vacant
        "badpair": (np.diag([4.0, 9.0, 9.0]), ["Na", "K"], [[0, 0, 0], [0.5, 0.1, 0]],
                    {"Na": ["Na", "X"], "K": ["K", "X"]}, (2, 1, 1), 4.1, 4.1, True, True),
        "novac": (np.diag([4.0, 9.0, 9.0]), ["Na", "K"], [[0, 0, 0], [0.5, 0.1, 0]],
                  {"Na": ["X", "Na"], "K": ["Na", "K"]}, (2, 1, 1), 4.1, 4.1, True, True),
        # same two species, opposite order
        "swapc": (np.diag([4.0, 9.0, 9.0]), ["Na", "K"], [[0, 0, 0], [0.5, 0.1, 0]],
                  {"Na": ["Na", "X"], "K": ["X", "Na"]}, (3, 1, 1), 2.5, 4.1, False),
        # square lattice 3x2 (wrap images in y coincide)
        "square": (np.diag([3.0, 3.0, 9.0]), ["Li"], [[0, 0, 0]], {"Li": ["Li", "X"]}, (3, 3, 1), 3.1, 3.1, False),
        "square32": (np.diag([3.0, 3.2, 9.0]), ["Li"], [[0, 0, 0]], {"Li": ["Li", "X"]}, (3, 2, 1), 3.3, 3.3, True),
        # skewed cells
        "fcc": (np.array([[0, 2.0, 2.0], [2.0, 0, 2.0], [2.0, 2.0, 0]]), ["Na"], [[0, 0, 0]],
                {"Na": ["Na", "X"]}, (2, 2, 2), 2.9, 2.9, False),
        "hex": (np.array([[3.0, 0, 0], [-1.5, 2.598076211353316, 0], [0, 0, 7.0]]), ["Na", "Na"],
                [[1 / 3, 2 / 3, 0.5], [2 / 3, 1 / 3, 0.5]], {"Na": ["Na", "X"]}, (2, 2, 1), 1.8, 3.1, False),
        # strongly skewed cells where rounding fractional coordinates misses the shortest image
        "skew": (np.array([[4.0, 0, 0], [1.9, 3.0, 0], [0.3, 0.2, 6.0]]), ["Na", "Na", "Na"],
                 [[0.05, 0.05, 0.5], [0.46, 0.47, 0.5], [0.72, 0.74, 0.5]], {"Na": ["Na", "X"]}, (1, 1, 1), 2.3, 2.6, False),
        "skew2": (np.array([[4.0, 0, 0], [-1.9, 3.2, 0], [-1.2, -1.4, 3.5]]), ["Na", "Na"],
                  [[0.05, 0.05, 0.1], [0.46, 0.47, 0.55]], {"Na": ["X", "Na"]}, (2, 1, 1), 3.3, 3.4, True),
        "tric": (np.array([[4.0, 0, 0], [1.3, 3.8, 0], [0.7, -0.9, 5.0]]), ["Na", "Na"],
                 [[0.05, 0.1, 0.9], [0.55, 0.45, 0.2]], {"Na": ["Na", "X"]}, (2, 1, 2), 3.9, 4.2, True),
        # a large sheet (hundreds of sites and events), explored along one long history only
        "big": (np.diag([3.0, 3.1, 9.0]), ["Li"], [[0, 0, 0]], {"Li": ["Li", "X"]}, (18, 16, 1), 3.2, 3.2, False),
    }
    _cache = {}

    @classmethod
    def get(cls, name):
        if name not in cls._cache:
            cls._cache[name] = cls(name, *cls.SPEC[name])
        return cls._cache[name]

    def __init__(self, name, latt, species, coords, mapping, shape, hop, env, incl, anypair=False):
        self.name, self.mapping, self.shape = name, mapping, shape
        self.template = Structure(Lattice(latt), species, coords)
        self.order = ActiveSiteOrder.from_structure_and_mapping(self.template, mapping, shape)
        self.structure = self.order.active_structure()
        self.n = len(self.structure)
        self.allowed = [tuple(self.order.allowed_species_by_primitive_site[p]) for p in self.order.active_to_primitive]
        self.mobile = next(s for s in ("Na", "Li", "F") if any(s in a for a in self.allowed))
        self.mob = [a.index(self.mobile) if self.mobile in a else None for a in self.allowed]
        self.vac = [a.index("X") if "X" in a else None for a in self.allowed]
        L = np.array(self.structure.lattice.matrix)
        F = np.array(self.structure.frac_coords)
        self.L, self.F = L, F
        imgs = list(itertools.product((-2, -1, 0, 1, 2), repeat=3))
        self.pairs = []
        self.envs = []
        self.unambiguous = []
        if name == "big":
            self._sheet(hop, env)
        for i in range(self.n if name != "big" else 0):
            for j in range(i + 1, self.n):
                if not anypair and (self.mob[i] is None or self.mob[j] is None):
                    continue
                ds = sorted(np.linalg.norm((F[j] - F[i] + np.array(m)) @ L) for m in imgs)
                if ds[0] < hop:
                    a, b = (i, j) if (i + j) % 2 else (j, i)  # both orientations occur in a library
                    self.pairs.append((a, b))
                    e = []
                    for c in ([a] if not incl else [a, b]):
                        for s in range(self.n):
                            for m in imgs:
                                r = np.linalg.norm((F[s] - F[c] + np.array(m)) @ L)
                                if r < env and (incl or s not in (a, b)):
                                    e.append(s)
                    if not incl:
                        for s in range(self.n):
                            for m in imgs:
                                r = np.linalg.norm((F[s] - F[b] + np.array(m)) @ L)
                                if r < env and s not in (a, b):
                                    e.append(s)
                    e = list(dict.fromkeys(e))
                    e = e[len(e) // 2:] + e[:len(e) // 2]  # unsorted on purpose
                    self.envs.append(tuple(e))
                    self.unambiguous.append(ds[1] - ds[0] > 1e-6)
        if name == "twin":
            for k, ((a, b), e) in enumerate(list(zip(self.pairs, self.envs))):
                self.pairs.append((b, a) if k % 2 else (a, b))
                self.envs.append(tuple(s for s in range(self.n) if s not in (a, b) and s not in e))
                self.unambiguous.append(self.unambiguous[k])
        self.n_mobile_sites = sum(m is not None for m in self.mob)

    def _sheet(self, hop, env):
        """pairs and environments of an orthogonal sheet, much larger than the cutoffs"""
        d = self.F[None] - self.F[:, None]
        d -= np.round(d)
        r = np.linalg.norm(d @ self.L, axis=2)
        for i in range(self.n):
            for j in range(i + 1, self.n):
                if r[i, j] < hop:
                    a, b = (i, j) if (i + j) % 2 else (j, i)
                    e = [s for c in (a, b) for s in range(self.n) if r[c, s] < env and s not in (a, b)]
                    e = list(dict.fromkeys(e))
                    self.pairs.append((a, b))
                    self.envs.append(tuple(e[len(e) // 2:] + e[:len(e) // 2]))
                    self.unambiguous.append(True)

    def long_history(self, start, hops, possible=lambda occ, i: True):
        """one history in which the hop moves all over the lattice: (event, occupation before, occupation after)"""
        occ, i = tuple(start), 0
        for _ in range(hops):
            for k in range(len(self.pairs)):
                j = (i + 37 + k) % len(self.pairs)
                if self.direction(occ, self.pairs[j]) and possible(occ, j):
                    break
            else:
                return
            nxt = self.hop(occ, self.pairs[j])
            yield j, occ, nxt
            occ, i = nxt, j

    def events(self):
        return [Event(mobile_ion_indices=p, local_env_indices=e) for p, e in zip(self.pairs, self.envs)]

    def event_lib(self, via="generated"):
        lib = EventLib()
        evs = self.events()
        if via == "extended":  # generate, then add the rest, then regenerate
            for e in evs[: len(evs) // 2]:
                lib.add_event(e)
            lib.set_index_metadata(self.order)
            lib.generate_event_dependencies()
            for e in evs[len(evs) // 2:]:
                lib.add_event(e)
            lib.generate_event_dependencies()
            return lib
        for e in evs:
            lib.add_event(e)
        lib.set_index_metadata(self.order)
        lib.generate_event_dependencies()
        if via == "dict":
            return EventLib.from_dict(lib.as_dict())
        if via == "file":
            lib.to("lib_%s.json" % self.name)
            return EventLib.from_file("lib_%s.json" % self.name)
        return lib

    def lookup(self):
        return HopStateLookup.from_active_site_order(self.order, self.mobile)

    def config(self, **kw):
        base = dict(mobile_ion_specie=self.mobile, supercell_shape=self.shape, temperature=600.0,
                    attempt_frequency=1.0e12, equilibration_passes=0, kmc_passes=1, random_seed=7,
                    site_mapping=self.mapping, elementary_hop_distance=3.0, mobile_ion_charge=1.0, name="w")
        base.update(kw)
        return Configuration(**base)

    def kmc(self, model, occ, lib=None, state=None, **cfg):
        lib = lib if lib is not None else self.event_lib()
        st = state if state is not None else State(occupations=list(occ))
        return KMC(structure=self.structure, model=model, event_lib=lib, config=self.config(**cfg),
                   simulation_state=st, hop_state_lookup=self.lookup(), active_site_order=self.order)

    # ---- reference semantics ------------------------------------------------------
    def direction(self, occ, pair):
        a, b = pair
        if None in (self.mob[a], self.mob[b], self.vac[a], self.vac[b]):
            return 0
        if occ[a] == self.mob[a] and occ[b] == self.vac[b]:
            return 1
        if occ[a] == self.vac[a] and occ[b] == self.mob[b]:
            return -1
        return 0

    def hop(self, occ, pair):
        """reference hop by chemical species (codes may differ between the two sites)"""
        a, b = pair
        sp = [self.allowed[i][o] for i, o in enumerate(occ)]
        sp[a], sp[b] = sp[b], sp[a]
        return tuple(self.allowed[i].index(s) for i, s in enumerate(sp))

    def occupations(self):
        return itertools.product(*(range(len(a)) for a in self.allowed))

    def pass_length(self):
        return sum(1 for s in self.structure.species if getattr(s, "symbol", str(s)) == self.mobile)

    def vec(self, a, b):
        """set of shortest-image vectors from site a to site b"""
        if not hasattr(self, "_vec"):
            self._vec = {}
        if (a, b) not in self._vec:
            self._vec[(a, b)] = self._vec_of(a, b)
        return self._vec[(a, b)]

    def _vec_of(self, a, b):
        out, best = [], None
        for m in itertools.product((-2, -1, 0, 1, 2), repeat=3):
            v = (self.F[b] - self.F[a] + np.array(m)) @ self.L
            d = np.linalg.norm(v)
            if best is None or d < best - 1e-9:
                best, out = d, [v]
            elif d < best + 1e-9:
                out.append(v)
        return out


def select(rates, u):
    """reference rejection-free selection"""
    total = math.fsum(rates)
    c = 0.0
    last = None
    for i, r in enumerate(rates):
        c += r
        if r > 0:
            last = i
            if u < c / total:
                return i
    return last


def ref_run(w, table, occ, us, n_eq, n_prod, t0=0.0):
    """reference trajectory of a run: production list of (event, dt, occupation after, time after) and the
    occupation at the start of production"""
    occ = tuple(occ)
    k = 0
    out = []
    t = t0
    start = occ
    for s in range(n_eq + n_prod):
        r = [table.rate(tuple(p), tuple(e), w.direction(occ, p), tuple(occ[i] for i in e)) for p, e in zip(w.pairs, w.envs)]
        i = select(r, us[k])
        dt = -math.log(us[k + 1]) / math.fsum(r)
        k += 2
        nxt = w.hop(occ, w.pairs[i])
        if s < n_eq:
            start = nxt
        else:
            t += dt
            out.append((i, dt, nxt, t, w.direction(occ, w.pairs[i])))
        occ = nxt
    return start, out


class IonRef:
    """reference ion bookkeeping: identities are the rows of the tracker's initial location list"""

    def __init__(self, w, occ, rows):
        self.w = w
        self.loc = [int(x) for x in rows]
        self.start = list(self.loc)
        self.hops = [0] * len(self.loc)
        self.disp = np.zeros((len(self.loc), 3))

    def move(self, i, d):
        """returns (row, set of acceptable displacement vectors)"""
        a, b = self.w.pairs[i] if d == 1 else self.w.pairs[i][::-1]
        row = self.loc.index(a)
        self.loc[row] = b
        self.hops[row] += 1
        return row, self.w.vec(a, b)


class Table(BaseModel):
    """User model: rate is an arbitrary injective function of (event, direction, environment)."""

    def __init__(self, seed=0, kind=None):
        self.seed = seed
        self.kind = kind

    def rate(self, pair, env, direction, occ_env):
        if direction == 0:
            return 0.0
        h = 0
        for x in (self.seed, *pair, direction + 2, *occ_env):
            h = (h * 1000003 + int(x) * 7919 + 12345) % 2147483647
        r = 1.0 + (h % 1000003) / 1000003.0 * 99.0
        if self.kind == "fine":  # environments change the rate by parts per million only
            return 10.0 * (1.0 + 1e-8 * r)
        if self.kind == "blocked":  # some environments forbid the hop altogether
            return r if (sum(occ_env) + pair[0]) % 2 else 0.0
        if self.kind == "tiny":  # very slow system
            return r * 1e-25
        if self.kind == "range":  # rates of one event differ by ten orders of magnitude between environments
            return r * 1e10 ** (sum(occ_env) % 2)
        return r

    def compute_probability(self, event, runtime_config, simulation_state):
        from kmcpy.event import event_direction
        occ = simulation_state.occupations
        d = event_direction(occ, event)
        return self.rate(tuple(event.mobile_ion_indices), tuple(event.local_env_indices), d,
                         tuple(occ[i] for i in event.local_env_indices))

    def as_dict(self):
        return {"seed": self.seed}

    @classmethod
    def from_dict(cls, d):
        return cls(d["seed"])
