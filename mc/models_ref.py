"""Model factories used by several checks (all built through the public API)."""
import itertools
import math

import numpy as np

from kmcpy.models import CompositeLCEModel, LocalBarrierModel, LocalClusterExpansion
from kmcpy.models.base import BaseModel
from kmcpy.models.site_energy import SiteEnergyModel
from kmcpy.structure.local_lattice_structure import LocalLatticeStructure

from mc.drv import KB, Table


def lbm(w):
    """local rules only: pattern, state counts, species counts, exact, constant fall-through"""
    site_species = {i: {k: s for k, s in enumerate(a)} for i, a in enumerate(w.allowed)}
    ev0 = w.events()[0]
    env = ev0.local_env_indices
    m = LocalBarrierModel(default_barrier=300.0, site_species=site_species)
    canon = list(dict.fromkeys(list(ev0.mobile_ion_indices) + list(env)))
    m.add_exact_rule(list(ev0.mobile_ion_indices), list(env),
                     [0, 1] + [0] * (len(canon) - 2), barrier=333.0)
    m.add_state_count_rule(state=0, sites="local_env", count=0, barrier=210.0)
    m.add_species_count_rule(species=w.mobile, sites="canonical", min_count=3, barrier=260.0)
    m.add_state_count_rule(state="vacant", sites="local_env", min_count=2, barrier=240.0)
    m.add_species_count_rule(species=["P", "K"], sites="local_env", min_count=1, max_count=1, barrier=277.0)
    m.add_pattern_rule([0, "*"], sites="mobile_ion", barrier=290.0)
    return m


class Stateful(BaseModel):
    """Keeps its own occupation copy, updated through the public event hooks only."""

    def __init__(self, seed=0):
        self.t = Table(seed)
        self.occ = None
        self.applied = 0

    def initialize_state(self, simulation_state, event_lib=None, structure=None, config=None):
        self.occ = list(simulation_state.occupations)

    def apply_event(self, event, simulation_state):
        a, b = event.mobile_ion_indices
        self.occ[a] = simulation_state.occupations[a]
        self.occ[b] = simulation_state.occupations[b]
        self.applied += 1

    def compute_probability(self, event, runtime_config, simulation_state):
        class S:
            occupations = self.occ
        return self.t.compute_probability(event, runtime_config, S)

    def as_dict(self):
        return {}

    @classmethod
    def from_dict(cls, d):
        return cls()


def lce(w, seed=0, cutoff=None, cut=(20.0, 20.0, 20.0), n_env=None, scale=25.0):
    """LCE whose local environment has n_env sites of the world's template (values only, geometry generic)"""
    from pymatgen.core import Lattice, Structure
    n = n_env
    k = max(len(a) for a in w.allowed)
    sp = ["Si", "P", "Al", "S"][:k]
    coords = [[2.0 + 0.9 * i, 2.0 + 0.37 * i * i, 2.0 + 0.23 * (i % 3)] for i in range(n)]
    s = Structure(Lattice.cubic(60.0), ["Si"] * n, coords, coords_are_cartesian=True)
    ll = LocalLatticeStructure(s, center=[2.0 / 60, 2.0 / 60, 2.0 / 60], cutoff=25.0, site_mapping={"Si": sp})
    m = LocalClusterExpansion()
    m.build(ll, cutoff_cluster=list(cut))
    nf = len(m.get_orbit_fingerprints())
    keci = [scale * math.sin(1.0 + 1.7 * i + seed) for i in range(nf)]
    m.set_parameters(dict(keci=keci, empty_cluster=250.0 if seed == 0 else 0.0,
                          orbit_fingerprints=m.get_orbit_fingerprints(),
                          local_environment_hash=m.local_environment_hash))
    return m
