"""importable property callbacks for configuration-driven runs"""


def occ_code(state, step, sim_time):
    h = 0
    for o in state.occupations:
        h = h * 4 + int(o)
    return h


def clock(state, step, sim_time):
    return [step, sim_time]


class Box:
    @staticmethod
    def inner(state, step, sim_time):
        return {"n": len(state.occupations), "s": step}


not_callable = 3


# ---- external site energies (state functions of the external occupation) -----------------------
NUM = {"Na": 1.0, "X": 0.0, "K": 2.0, "Mg": 3.0, "Si": 0.5, "P": -0.5, "Li": 1.0}


def ext_energy(occ):
    """an arbitrary non-linear state function of a whole external occupation, in meV"""
    v = [NUM[str(x)] if isinstance(x, str) else float(x) for x in occ]
    n = len(v)
    e = 0.0
    for i in range(n):
        e += (11.0 + 7.0 * ((3 * i) % 5)) * v[i]
        for j in range(i):
            e += (5.0 * ((i * 5 + j * 3) % 7) - 12.0) * v[i] * v[j]
    return e


def ext_delta(changes, external_occupation, scale=1.0):
    a = list(external_occupation)
    b = list(external_occupation)
    for c in changes:
        b[c.external_site] = c.new_value
    return scale * (ext_energy(b) - ext_energy(a))


class PlainSite:
    """user site model with only a compute method: state function of the kMCpy occupation"""

    def __init__(self, scale=1.0):
        self.scale = scale

    def compute(self, event, simulation_state):
        occ = [int(x) for x in simulation_state.occupations]
        a, b = event.mobile_ion_indices
        new = list(occ)
        codes = event.hop_state_codes
        if occ[a] == codes[0] and occ[b] == codes[1]:
            new[a], new[b] = codes[2], codes[3]
        else:
            new[a], new[b] = codes[0], codes[1]
        return self.scale * (ext_energy(new) - ext_energy(occ))

    def as_dict(self):
        return {"@module": "mc.cbs", "@class": "PlainSite", "scale": self.scale}

    @classmethod
    def from_dict(cls, d):
        return cls(d["scale"])


# ---- recording callbacks for site-energy models -------------------------------------------------
class Recorder:
    """importable hook: the check installs a function that judges every call"""
    on_compute = None
    on_apply = None
    made = []


def rec_compute(runtime, external_occupation, changes, event, simulation_state, scale=1.0):
    return Recorder.on_compute(runtime=runtime, external_occupation=external_occupation, changes=changes, event=event,
                               simulation_state=simulation_state, scale=scale)


def rec_compute_kw(**kw):
    return Recorder.on_compute(**kw)


def rec_compute_pair(changes, external_occupation):
    return Recorder.on_compute(external_occupation=external_occupation, changes=changes)


def rec_compute_min(event, simulation_state):
    return Recorder.on_compute(event=event, simulation_state=simulation_state)


def rec_compute_kwonly(*, changes, runtime, scale, external_occupation=None):
    return Recorder.on_compute(external_occupation=external_occupation, changes=changes, runtime=runtime, scale=scale)


def rec_apply(runtime, external_occupation, changes, event, simulation_state, tag="t"):
    Recorder.on_apply(runtime=runtime, external_occupation=external_occupation, changes=changes, event=event,
                      simulation_state=simulation_state, tag=tag)


def rec_apply_kw(**kw):
    Recorder.on_apply(**kw)


def rec_apply_min(changes):
    Recorder.on_apply(changes=changes)


class RecRuntime:
    def __init__(self, label="r"):
        self.label = label
        Recorder.made.append(label)


# a signature that names some arguments and takes the rest
def rec_compute_mix(changes, event, **rest):
    return Recorder.on_compute(changes=changes, event=event, **rest)


def rec_apply_mix(changes, *unused, event=None, **rest):
    Recorder.on_apply(changes=changes, event=event, **rest)
