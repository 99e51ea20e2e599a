"""C12: the first matching local-barrier rule alone decides the barrier.

single  - every rule of the full alphabet (types x selectors x parameters x event constraints) x events x occupations;
pairs   - every ordered pair of rules of a reduced alphabet x with/without default x occupations; triples likewise;
spell   - every documented spelling of the same rule list (constructor, add_* methods, build, plain dictionaries,
          aliases, entry_from_event_state, from_exact_entries) and every storage route (dict, json, gzipped json, envelope,
          configuration dispatch) gives the same barrier everywhere;
rebuild - every sequence of up to three build() calls: the rules and exactly the settings named by a call are replaced;
ill     - every ill-formed rule of a catalogue is rejected on every construction route and leaves the model unchanged;
hist    - in the simulator, along all histories of the state graph of small worlds.
Oracle: a plain evaluator of the documented rule semantics, written here.
"""
import itertools
import json
import math
import os
from types import SimpleNamespace

from kmcpy.event import Event
from kmcpy.models import LocalBarrierModel
from kmcpy.models.base import BaseModel
from kmcpy.simulator.state import State

from mc.drv import KB, World, check_rates, set_tape, U_E

ALIAS = {"occupied": 0, "match": 0, "template": 0, "vacant": 1, "vacancy": 1, "mismatch": 1, "other": 1}
ERR = "error"

SPEC = {0: {0: "Na", 1: "X", 2: "K"}, 1: {0: "Na", 1: "X", 2: "Mg"}, 2: {0: "Si", 1: "P", 2: "S"},
        3: {0: "P", 1: "Si", 2: "S"}, 4: {0: "S", 1: "Si", 2: "P"}, 5: {0: "X", 1: "Na", 2: "K"}}
EVENTS = [((0, 1), (2, 3, 4)), ((1, 0), (4, 3, 2)), ((0, 1), (1, 2, 4)), ((4, 2), (3, 3, 0)), ((2, 3), ())]
CODES = {0: (0, 1, 1, 0), 3: (2, 1, 0, 2), 2: (1, 0, 0, 1)}  # events with their own endpoint codes


def canon(m, e):
    out = []
    for s in tuple(m) + tuple(e):
        if s not in out:
            out.append(s)
    return tuple(out)


def val(v):
    if isinstance(v, str):
        v = v.strip().lower()
        return ALIAS[v] if v in ALIAS else int(v)
    return v


def sel(spec, m, e, n):
    if isinstance(spec, str):
        return {"canonical": canon(m, e), "local_env": tuple(e), "mobile_ion": tuple(m), "from": (m[0],), "to": (m[1],),
                "all": tuple(range(n))}[spec]
    return tuple(spec)


def kind(r):
    if "type" in r:
        return r["type"]
    if "occupations" in r and "mobile_ion_indices" in r:
        return "exact"
    for k, t in (("pattern", "pattern"), ("species", "species_count"), ("state", "state_count"), ("occupation", "state_count")):
        if k in r:
            return t
    return "constant"


def counts(c, r):
    return not (("count" in r and c != r["count"]) or ("min_count" in r and c < r["min_count"])
                or ("max_count" in r and c > r["max_count"]))


def matches(r, ev, occ, species):
    m, e = ev
    if "mobile_ion_indices" in r and tuple(r["mobile_ion_indices"]) != m:
        return False
    if "local_env_indices" in r and tuple(r["local_env_indices"]) != e:
        return False
    t = kind(r)
    if t == "constant":
        return True
    if t == "exact":
        return tuple(occ[s] for s in canon(m, e)) == tuple(val(x) for x in r["occupations"])
    sites = sel(r.get("sites", "canonical" if t == "pattern" else "local_env"), m, e, len(occ))
    if any(s >= len(occ) for s in sites):
        return ERR
    cur = [occ[s] for s in sites]
    if t == "pattern":
        if len(cur) != len(r["pattern"]):
            return ERR
        return all((isinstance(p, str) and p.strip() == "*") or val(p) == c for p, c in zip(r["pattern"], cur))
    if t == "state_count":
        want = val(r["occupation"] if "occupation" in r else r["state"])
        return counts(sum(c == want for c in cur), r)
    sp = {r["species"]} if isinstance(r["species"], str) else set(r["species"])
    if any(s not in species or c not in species[s] for s, c in zip(sites, cur)):
        return ERR
    return counts(sum(species[s][c] in sp for s, c in zip(sites, cur)), r)


def props(r):
    p = dict(r.get("properties", {}))
    if "barrier" in r:
        p.setdefault("barrier", float(r["barrier"]))
    return p


def ref(rules, default, ev, occ, species, prop="barrier"):
    for r in rules:
        x = matches(r, ev, occ, species)
        if x == ERR:
            return ERR
        if x:
            return props(r).get(prop, ERR)
    if default is None:
        return ERR
    return default.get(prop, ERR)


def direction(ev, occ, codes):
    a, b = occ[ev[0][0]], occ[ev[0][1]]
    return 1 if (a, b) == codes[:2] else -1 if (a, b) == codes[2:] else 0


def mk_event(i):
    e = Event(EVENTS[i][0], EVENTS[i][1])
    if i in CODES:
        e.hop_state_codes = CODES[i]
    return e


RT = [SimpleNamespace(temperature=600.0, attempt_frequency=1e13), SimpleNamespace(temperature=251.0, attempt_frequency=3e11)]


def evaluate(chk, m, rules, default, occs, evs, species, rate=True, **data):
    for i in evs:
        ev = EVENTS[i]
        e = mk_event(i)
        for occ in occs:
            st = State(occupations=list(occ))
            want = ref(rules, default, ev, occ, species)
            chk.step()
            if want == ERR:
                chk.raises(lambda: m.compute(st, e), "a barrier was returned although no rule supplies one",
                           rules=rules, default=default, event=ev, occ=occ, **data)
                if rate and direction(ev, occ, CODES.get(i, (0, 1, 1, 0))) != 0:
                    chk.raises(lambda: m.compute_probability(e, RT[0], st), "a rate was returned although no rule supplies a barrier",
                               rules=rules, default=default, event=ev, occ=occ, **data)
                continue
            got = m.compute(st, e)
            chk.checks += 1
            if got != want:
                chk.fail("barrier is not that of the first matching rule", rules=rules, default=default, event=ev, occ=occ, got=got, want=want, **data)
            chk.outcome(want)
            if rate:
                d = direction(ev, occ, CODES.get(i, (0, 1, 1, 0)))
                rt = RT[(sum(occ) + i) % 2]
                g = m.compute_probability(e, rt, st)
                w = rt.attempt_frequency * math.exp(-want / (KB * rt.temperature)) if d else 0.0
                chk.checks += 1
                if not abs(g - w) <= 1e-9 * w:
                    chk.fail("rate is not attempt frequency x exp(-barrier/kT)", rules=rules, event=ev, occ=occ, got=g, want=w, **data)
                if tuple(st.occupations) != tuple(occ):
                    chk.fail("evaluating a rate changed the occupation", rules=rules, event=ev, occ=occ)


SELS = ["canonical", "local_env", "mobile_ion", "from", "to", "all", [3], [4, 0], [2, 2, 1]]


def alphabet():
    out = [dict(type="constant"), {}, dict(mobile_ion_indices=[0, 1]), dict(type="constant", local_env_indices=[3, 3, 0]),
           dict(type="constant", mobile_ion_indices=[0, 1], local_env_indices=[1, 2, 4]), dict(type="constant", local_env_indices=[])]
    cons = [dict(count=0), dict(count=1), dict(count=2), dict(min_count=1), dict(min_count=2), dict(max_count=0), dict(max_count=1),
            dict(min_count=1, max_count=1), dict(min_count=2, max_count=3), dict(min_count=0), dict(min_count=2, max_count=1)]
    for s in SELS:
        for st in (0, 1, 2, "vacant", "template"):
            for c in cons:
                out.append(dict(sites=s, state=st, **c))
        for sp in ("Si", "Na", ["P", "X"], ["S", "Si", "Zz"]):
            for c in cons:
                out.append(dict(sites=s, species=sp, **c))
    out += [dict(state=0, count=2), dict(occupation="occupied", min_count=1), dict(species="Si", min_count=1),
            dict(type="state_count", state=2, count=1, mobile_ion_indices=[1, 0]),
            dict(type="species_count", species="S", max_count=1, local_env_indices=[2, 3, 4])]
    for s, n in (("mobile_ion", 2), ("from", 1), ("to", 1), ("local_env", 3), ([3], 1), ([4, 0], 2), ([2, 2, 1], 3), ("canonical", 4), (None, 5), ("all", 5)):
        for p in itertools.product((0, 1, "*", 2) if n <= 3 else (0, "*"), repeat=n):
            r = dict(pattern=list(p))
            if s is not None:
                r["sites"] = s
            out.append(r)
    out += [dict(pattern=["occupied", "vacant"], sites="mobile_ion"), dict(pattern=["*", "other"], sites="mobile_ion"),
            dict(pattern=[" * ", "2"], sites="mobile_ion"), dict(pattern=["mismatch", "*", "MATCH"], sites="local_env")]
    for m, e in EVENTS:
        n = len(canon(m, e))
        for o in itertools.product((0, 1), repeat=n):
            out.append(dict(mobile_ion_indices=list(m), local_env_indices=list(e), occupations=list(o)))
        out.append(dict(type="exact", mobile_ion_indices=list(m), local_env_indices=list(e), occupations=(["vacant", "occupied", 2, "2", 1])[:n]))
    # an exact entry whose environment is listed in another order than the event's
    out.append(dict(mobile_ion_indices=[0, 1], local_env_indices=[4, 3, 2], occupations=[0, 1, 0, 0, 0]))
    return out


REDUCED = [
    dict(type="constant"), dict(mobile_ion_indices=[0, 1]), dict(local_env_indices=[4, 3, 2]),
    dict(state=0, count=0), dict(state=0, count=1), dict(state=0, min_count=2), dict(state="vacant", max_count=1),
    dict(state=2, min_count=1, sites="canonical"), dict(state=1, sites="from", count=1), dict(state=1, sites="to", count=1),
    dict(state=0, sites="all", min_count=4), dict(state=2, sites=[3], count=1), dict(occupation="occupied", sites="mobile_ion", max_count=1),
    dict(species="Si", min_count=2), dict(species=["P", "S"], max_count=1), dict(species="Na", sites="mobile_ion", count=1),
    dict(species=["Na", "X"], sites="from", count=1), dict(species="Si", sites=[2, 3], count=1), dict(species="K", sites="all", min_count=1),
    dict(pattern=[0, 1], sites="mobile_ion"), dict(pattern=[1, "*"], sites="mobile_ion"), dict(pattern=["*", 0, "*"], sites="local_env"),
    dict(pattern=["*", "*", 0, "*"]), dict(pattern=[0, "*", 1, 0, "*"]), dict(pattern=[2], sites="to"), dict(pattern=[1, 0], sites=[4, 0]),
    dict(mobile_ion_indices=[0, 1], local_env_indices=[2, 3, 4], occupations=[0, 1, 0, 0, 1]),
    dict(mobile_ion_indices=[1, 0], local_env_indices=[4, 3, 2], occupations=[1, 0, 1, 0, 0]),
    dict(mobile_ion_indices=[0, 1], local_env_indices=[1, 2, 4], occupations=["occupied", "vacant", 2, 1]),
]


def with_b(rules, start=101.0):
    # distinct barriers, one of them zero
    return [dict(r, barrier=0.0 if k == 1 else start + 7 * k) for k, r in enumerate(rules)]


def single(chk):
    occs = list(itertools.product((0, 1, 2), repeat=5))
    rules = alphabet()
    for k, r in enumerate(rules):
        rr = [dict(r, barrier=100 + k % 9 if k % 4 != 1 else 0)]
        dflt = {"barrier": 50.0} if k % 2 else None
        m = LocalBarrierModel(rules=[json.loads(json.dumps(x)) for x in rr], default_properties=dflt, site_species=SPEC)
        chk.state(json.dumps(r, sort_keys=True))
        evaluate(chk, m, rr, dflt, occs, range(len(EVENTS)), SPEC, rate=(chk.thorough or k % 3 == 0))
    chk.bounds["single"] = dict(rules=len(rules), occupations=len(occs), events=len(EVENTS))


def combos(chk, n, alpha, occs, evs):
    c = 0
    for combo in itertools.product(range(len(alpha)), repeat=n):
        exact = [i for i in combo if "occupations" in alpha[i]]
        rules = with_b([alpha[i] for i in combo])
        if len(set(exact)) != len(exact):
            chk.raises(lambda: LocalBarrierModel(rules=rules), "duplicate exact rule accepted", rules=rules)
            continue
        c += 1
        dflt = {"barrier": 55.5, "other": 1.0} if c % 2 else None
        m = LocalBarrierModel(rules=[json.loads(json.dumps(x)) for x in rules], default_properties=dflt, site_species=SPEC)
        chk.state(combo)
        evaluate(chk, m, rules, dflt, occs, evs, SPEC, rate=(c % 5 == 0), combo=combo)
    chk.bounds["combos%d" % n] = dict(lists=c, occupations=len(occs), events=len(evs))


# ---------------------------------------------------------------- spellings

def canonical_rule(r, k):
    t = kind(r)
    q = dict(r, type=t, name="r%d" % k)
    q["properties"] = props(q)
    q.pop("barrier", None)
    if t == "state_count":
        q["state"] = val(q.pop("occupation") if "occupation" in q else q["state"])
    if t == "pattern":
        q["pattern"] = ["*" if (isinstance(x, str) and x.strip() == "*") else val(x) for x in q["pattern"]]
    if t == "exact":
        q["occupations"] = [val(x) for x in q["occupations"]]
    if t in ("state_count", "species_count"):
        q.setdefault("sites", "local_env")
    if t == "pattern":
        q.setdefault("sites", "canonical")
    return q


BACK = {0: ["occupied", "match", "template", "0", 0, " Occupied "], 1: ["vacant", "vacancy", "mismatch", "other", "1", 1]}


def aliased(r, k):
    q = dict(r)
    n = [k]

    def sub(v):
        if v in (0, 1):
            n[0] += 1
            return BACK[v][n[0] % 6]
        return v
    if "state" in q:
        q["state"] = sub(q["state"])
    if "pattern" in q:
        q["pattern"] = tuple(x if x == "*" else sub(x) for x in q["pattern"])
    if "occupations" in q:
        q["occupations"] = tuple(sub(x) for x in q["occupations"])
    if isinstance(q.get("sites"), list):
        q["sites"] = tuple(q["sites"])
    if isinstance(q.get("species"), str) and k % 2:
        q["species"] = [q["species"]]
    return q


def by_methods(m, r):
    t = r["type"]
    kw = {k: r[k] for k in ("count", "min_count", "max_count", "sites") if k in r}
    p = r["properties"]
    b = dict(barrier=p["barrier"]) if len(p) == 1 else dict(properties=p)
    if "mobile_ion_indices" in r and t != "exact" or "local_env_indices" in r and t != "exact" or t == "constant":
        m.add_rule(r)
        return
    if t == "state_count":
        n = m.add_state_count_rule(r["state"], name=r["name"], **b, **kw)
    elif t == "species_count":
        n = m.add_species_count_rule(r["species"], name=r["name"], **b, **kw)
    elif t == "pattern":
        n = m.add_pattern_rule(r["pattern"], name=r["name"], **b, **kw)
    else:
        n = m.add_exact_rule(r["mobile_ion_indices"], r["local_env_indices"], r["occupations"], name=r["name"], **b)
    assert n == r["name"]


def spellings(chk, lists, occs, evs):
    for k, ids in enumerate(lists):
        src = with_b([REDUCED[i] for i in ids])
        src = [dict(r, properties={"rate_barrier": 5.0 + j}) if j % 2 else r for j, r in enumerate(src)]
        full = [canonical_rule(r, j) for j, r in enumerate(src)]
        dflt = {"barrier": 44.0, "rate_barrier": 4.0} if k % 3 else {"barrier": 0.0, "rate_barrier": 4.0}
        mods = []
        mods.append(("dict rules", LocalBarrierModel(rules=src, default_properties=dflt, site_species=SPEC)))
        mods.append(("typed", LocalBarrierModel(rules=[dict(r) for r in full], default_properties=dict(dflt), site_species=SPEC)))
        mods.append(("aliases", LocalBarrierModel(rules=[aliased(r, j + k) for j, r in enumerate(full)], default_properties=dflt,
                                                  site_species={str(s): {str(c): x for c, x in d.items()} for s, d in SPEC.items()})))
        m = LocalBarrierModel(default_barrier=dflt["barrier"], default_properties={"rate_barrier": 4.0}, site_species=SPEC)
        for r in full:
            by_methods(m, r)
        mods.append(("methods", m))
        m = LocalBarrierModel.constant_barrier(9.0)
        m.add_pattern_rule([0, 1], sites="mobile_ion", barrier=1.0)
        m.build(rules=[dict(r) for r in full], default_properties=dflt, site_species=SPEC)
        mods.append(("build", m))
        a = mods[0][1]
        mods.append(("as_dict", LocalBarrierModel.from_dict(a.as_dict())))
        mods.append(("json text", LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict())))))
        if k % 4 == 0 or chk.thorough:
            for fn in ("m.json", "m.json.gz"):
                mods[3][1].to(fn)
                mods.append((fn, LocalBarrierModel.from_file(fn)))
                mods.append((fn + " config", BaseModel.from_config(SimpleNamespace(model_file=fn, model_type=None))))
                os.remove(fn)
            d = a.as_dict()
            env = dict(filetype="kmcpy.model_file", model_type="local_barrier", local_barrier=d)
            with open("env.json", "w") as f:
                json.dump(env, f)
            mods.append(("envelope", LocalBarrierModel.from_file("env.json")))
            mods.append(("envelope config", BaseModel.from_config(SimpleNamespace(model_file="env.json", model_type=None))))
            mods.append(("envelope dict", LocalBarrierModel.from_dict(env)))
            mods.append(("twice", LocalBarrierModel.from_dict(LocalBarrierModel.from_dict(d).as_dict())))
        for name, m in mods:
            chk.trace()
            evaluate(chk, m, full, dflt, occs, evs, SPEC, rate=False, spelling=name)
            for occ in occs[:6]:
                for i in evs:
                    st, e = State(occupations=list(occ)), mk_event(i)
                    want = ref(full, dflt, EVENTS[i], occ, SPEC, "rate_barrier")
                    if want == ERR:
                        chk.raises(lambda: m.compute(st, e, "rate_barrier"), "a property was returned that the matching rule does not have", spelling=name)
                        chk.raises(lambda: m.compute(st, e, property_name="nothing"), "a property was returned that no rule has", spelling=name)
                    else:
                        chk.expect(m.compute(st, e, property_name="rate_barrier") == want, "named property of the matching rule", rules=full, spelling=name)
        chk.state(("spell", ids))
    chk.bounds["spellings"] = len(lists)


def choice(chk):
    """default_property and probability_property select which property is used, through storage too"""
    occs = list(itertools.product((0, 1), repeat=5))
    for dp, pp in itertools.product(("barrier", "a", "b"), repeat=2):
        for order in itertools.permutations(range(3)):
            rs = [dict(type="state_count", state=0, min_count=2, properties=dict(barrier=10.0, a=20.0, b=30.0)),
                  dict(type="pattern", pattern=["*", 0], sites="mobile_ion", properties=dict(a=21.0, b=31.0), barrier=11),
                  dict(type="state_count", state=1, sites="to", count=0, properties=dict(a=22.0), barrier=12.0)]
            rs = [rs[i] for i in order]
            dflt = dict(barrier=13.0, b=33.0)
            m = LocalBarrierModel(rules=rs, default_properties=dflt, default_property=dp, probability_property=pp)
            for mm in (m, LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict())))):
                for i in (0, 3):
                    for occ in occs:
                        st, e = State(occupations=list(occ)), mk_event(i)
                        chk.step()
                        want = ref(rs, dflt, EVENTS[i], occ, {}, dp)
                        if want == ERR:
                            chk.raises(lambda: mm.compute(st, e), "default property missing in the matching rule but a value was returned", dp=dp)
                        else:
                            chk.expect(mm.compute(st, e) == want, "default property of the matching rule", dp=dp, order=order, occ=occ)
                        want = ref(rs, dflt, EVENTS[i], occ, {}, pp)
                        d = direction(EVENTS[i], occ, CODES.get(i, (0, 1, 1, 0)))
                        if want == ERR:
                            if d:
                                chk.raises(lambda: mm.compute_probability(e, RT[0], st), "rate property missing in the matching rule", pp=pp)
                        else:
                            w = 1e13 * math.exp(-want / (KB * 600.0)) if d else 0.0
                            chk.close(mm.compute_probability(event=e, runtime_config=RT[0], simulation_state=st), w,
                                      "rate from the probability property of the matching rule", pp=pp, order=order, occ=occ)
            chk.state(("choice", dp, pp, order))


def exact_tables(chk):
    """exact entries from every (event, state) snapshot: each environment answers with its own entry only"""
    occs = list(itertools.product((0, 1, 2), repeat=5))
    for i in (0, 2, 3):
        e = mk_event(i)
        cs = canon(*EVENTS[i])
        for keep in (2, 3):
            ent, want = [], {}
            for k, occ in enumerate(occs):
                key = tuple(occ[s] for s in cs)
                if key in want or sum(key) % keep == 0:
                    continue
                want[key] = 10.0 + k
                en = LocalBarrierModel.entry_from_event_state(e, State(occupations=list(occ)), {"barrier": 10.0 + k}, name="e%d" % k)
                chk.equal(en["occupations"], list(key), "snapshot occupations in canonical order", event=EVENTS[i], occ=occ)
                ent.append(en)
            for dflt in (None, 3.0):
                m = LocalBarrierModel.from_exact_entries(ent, default_barrier=dflt)
                m2 = LocalBarrierModel.from_dict(m.as_dict())
                for mm in (m, m2):
                    for j in range(len(EVENTS)):
                        for occ in occs if chk.thorough else occs[::2]:
                            key = tuple(occ[s] for s in cs) if j == i else None
                            st, ej = State(occupations=list(occ)), mk_event(j)
                            chk.step()
                            v = want.get(key, dflt) if key is not None else dflt
                            if v is None:
                                chk.raises(lambda: mm.compute(st, ej), "an environment without entry has a barrier", event=EVENTS[j], occ=occ)
                            else:
                                chk.expect(mm.compute(st, ej) == v, "barrier of the exact entry", event=EVENTS[j], occ=occ, got=mm.compute(st, ej), want=v)
                dup = [dict(x) for x in ent] + [dict(ent[0], properties={"barrier": 1.0})]
                chk.raises(lambda: LocalBarrierModel.from_exact_entries(dup), "duplicate exact entry accepted")
                chk.raises(lambda: m.add_rule(dict(ent[-1])), "duplicate exact rule accepted")
                chk.state(("exact", i, keep, dflt))


BAD = [
    {}, dict(type="state_count", state=0, barrier=1.0), dict(type="state_count", count=1, barrier=1.0),
    dict(type="state_count", state=0, count=1), dict(type="state_count", state=-1, count=1, barrier=1.0),
    dict(type="state_count", state="nonsense", count=1, barrier=1.0), dict(type="state_count", state=True, count=1, barrier=1.0),
    dict(type="state_count", state=0.5, count=1, barrier=1.0), dict(type="state_count", state=0, count=-1, barrier=1.0),
    dict(type="state_count", state=0, count=1.0, barrier=1.0), dict(type="state_count", state=0, count=True, barrier=1.0),
    dict(type="state_count", state=0, count=1, min_count=1, barrier=1.0), dict(type="state_count", state=0, count=1, max_count=1, barrier=1.0),
    dict(type="state_count", state=0, min_count="1", barrier=1.0), dict(type="state_count", state=0, count=1, sites="nowhere", barrier=1.0),
    dict(type="state_count", state=0, count=1, sites=[], barrier=1.0), dict(type="state_count", state=0, count=1, sites=["a"], barrier=1.0),
    dict(type="state_count", state=0, count=1, sites=[1.0], barrier=1.0), dict(type="species_count", count=1, barrier=1.0),
    dict(type="species_count", species=[], count=1, barrier=1.0), dict(type="species_count", species=["Si", ""], count=1, barrier=1.0),
    dict(type="species_count", species=[1], count=1, barrier=1.0), dict(type="species_count", species="Si", barrier=1.0),
    dict(type="pattern", barrier=1.0), dict(type="pattern", pattern=[], barrier=1.0), dict(type="pattern", pattern="01", barrier=1.0),
    dict(type="pattern", pattern=[0, "?"], barrier=1.0), dict(type="pattern", pattern=[0, None], barrier=1.0), dict(type="pattern", pattern=[0, -1], barrier=1.0),
    dict(type="exact", occupations=[0], barrier=1.0), dict(type="exact", mobile_ion_indices=[0, 1], local_env_indices=[2], occupations=[0, 1], barrier=1.0),
    dict(type="exact", mobile_ion_indices=[0, 1], local_env_indices=[2], occupations=[0, 1, 0, 1], barrier=1.0),
    dict(type="exact", mobile_ion_indices=[0, 1], local_env_indices=[1, 2], occupations=[0, 1, 1, 0], barrier=1.0),
    dict(type="exact", mobile_ion_indices=[0, 1], local_env_indices=[2], occupations=[0, 1, "x"], barrier=1.0),
    dict(type="exact", mobile_ion_indices=[0, 1], occupations=[0, 1], barrier=1.0),
    dict(type="unknown", barrier=1.0), dict(type="", barrier=1.0), dict(type="constant"), dict(type="constant", barrier="low"),
    dict(type="constant", barrier=True), dict(type="constant", properties={}), dict(type="constant", properties={"barrier": "x"}),
    dict(type="constant", properties={"": 1.0}), dict(type="constant", properties={"barrier": None}),
    dict(type="constant", barrier=1.0, mobile_ion_indices=[]), dict(type="constant", barrier=1.0, mobile_ion_indices="01"),
    dict(type="constant", barrier=1.0, local_env_indices=[0.5]),
]


def ill(chk):
    good = dict(state=0, min_count=1, barrier=7.0)
    occs = list(itertools.product((0, 1), repeat=5))
    for k, b in enumerate(BAD):
        chk.state(("bad", k))
        chk.step()
        chk.raises(lambda: LocalBarrierModel(rules=[dict(b)]), "ill-formed rule accepted", rule=b)
        chk.raises(lambda: LocalBarrierModel(rules=[dict(good), dict(b)], default_barrier=1.0), "ill-formed rule accepted", rule=b)
        chk.raises(lambda: LocalBarrierModel.from_dict(dict(rules=[dict(b)])), "ill-formed rule accepted", rule=b)
        chk.raises(lambda: LocalBarrierModel().build(rules=[dict(b)]), "ill-formed rule accepted", rule=b)
        m = LocalBarrierModel(rules=[dict(good)], default_barrier=1.0)
        chk.raises(lambda: m.add_rule(dict(b)), "ill-formed rule accepted", rule=b)
        evaluate(chk, m, [good], {"barrier": 1.0}, occs, (0,), {}, rate=False, after_rejected=b)
    for b in ("rule", None, 3, ["a"]):
        chk.raises(lambda: LocalBarrierModel(rules=[b]), "a rule that is not a dictionary was accepted", rule=b)
    for kw in (dict(default_barrier="x"), dict(default_barrier=True), dict(default_properties={}), dict(default_properties={"barrier": "x"}),
               dict(site_species=[1]), dict(site_species={"a": {0: "Na"}}), dict(site_species={0: "Na"}), dict(site_species={0: {-1: "Na"}}),
               dict(site_species={0: {0: ""}}), dict(rules={"a": 1}), dict(rules=[], probability_mode="metropolis")):
        chk.raises(lambda: LocalBarrierModel(**kw), "invalid argument accepted", kw=kw)
        chk.step()
    chk.raises(lambda: LocalBarrierModel.from_dict([1]), "payload that is not an object accepted")
    st = State(occupations=[0, 1, 0, 0, 0])
    m = LocalBarrierModel(default_barrier=5.0, probability_mode="metropolis")
    chk.raises(lambda: m.compute_probability(mk_event(0), RT[0], st), "unsupported probability mode produced a rate")
    m = LocalBarrierModel(default_barrier=5.0)
    chk.raises(lambda: m.compute(None, mk_event(0)), "missing state accepted")
    chk.raises(lambda: m.compute(st, None), "missing event accepted")
    # partial site_species: the error must not depend on whether the uncovered site would have decided the count
    for miss in (2, 3, 4):
        for kind_ in ("site", "state"):
            sp = {s: dict(d) for s, d in SPEC.items()}
            if kind_ == "site":
                del sp[miss]
            else:
                del sp[miss][1]
            for cons in (dict(min_count=0), dict(min_count=1), dict(max_count=0), dict(count=2)):
                r = dict(species="Si", barrier=8.0, **cons)
                m = LocalBarrierModel(rules=[r], default_barrier=1.0, site_species=sp)
                evaluate(chk, m, [r], {"barrier": 1.0}, list(itertools.product((0, 1, 2), repeat=5)), (0, 2), sp, rate=False, missing=(miss, kind_))
    for payload in (dict(filetype="kmcpy.model_file", model_type="composite_lce", local_barrier={}),
                    dict(filetype="kmcpy.model_file", model_type="local_barrier"), dict(filetype="other", model_type="local_barrier", local_barrier={}),
                    dict(filetype="kmcpy.model_file", model_type="local_barrier", local_barrier=[1])):
        with open("bad.json", "w") as f:
            json.dump(payload, f)
        chk.raises(lambda: LocalBarrierModel.from_file("bad.json"), "invalid model file accepted", payload=payload)


def hist(chk, name, rules, dflt):
    """rates used by the simulator after every hop of the whole state graph equal the reference"""
    w = World.get(name)
    species = {i: {k: s for k, s in enumerate(a)} for i, a in enumerate(w.allowed)}
    m = LocalBarrierModel(rules=rules, default_properties=dflt, site_species=species)
    todo, seen = [], set()
    for occ in w.occupations():
        if occ in seen:
            continue
        stack = [occ]
        seen.add(occ)
        while stack:
            o = stack.pop()
            chk.state(o)
            want = []
            for p, e in zip(w.pairs, w.envs):
                b = ref(rules, dflt, (tuple(p), tuple(e)), o, species)
                want.append(1e12 * math.exp(-b / (KB * 600.0)) if w.direction(o, p) else 0.0)
            if not any(want):
                continue
            k = w.kmc(m, o)
            check_rates(chk, k, want, "rates of the local-barrier model", world=name, occ=o)
            c = 0.0
            tot = math.fsum(want)
            for i, r in enumerate(want):
                if r <= 0:
                    continue
                c = math.fsum(want[:i])
                kk = w.kmc(m, o)
                set_tape(kk, [(c + r / 2) / tot, U_E])
                ev, dt = kk.propose(kk.event_lib.events)[:2]
                kk.update(ev, dt)
                nx = w.hop(o, w.pairs[i])
                chk.step()
                wn = []
                for p, e in zip(w.pairs, w.envs):
                    b = ref(rules, dflt, (tuple(p), tuple(e)), nx, species)
                    wn.append(1e12 * math.exp(-b / (KB * 600.0)) if w.direction(nx, p) else 0.0)
                check_rates(chk, kk, wn, "rates of the local-barrier model after a hop", world=name, occ=o, event=i)
                if nx not in seen:
                    seen.add(nx)
                    stack.append(nx)


def wide(chk):
    """systems and environments larger than the catalogue's: rules that look at every site, and long environments"""
    n = 14
    evs = [((0, 1), (2, 3)), ((5, 2), (4, 6, 1)), ((13, 0), tuple(range(12, 0, -1))), ((3, 4), tuple(range(5, 14)) + (3,))]
    spec = {i: {0: "Na", 1: "X"} if i % 2 else {0: "Si", 1: "S"} for i in range(n)}
    occs = [tuple(1 if i in c else 0 for i in range(n)) for k in range(4 if chk.thorough else 3) for c in itertools.combinations(range(n), k)]
    occs += [tuple(1 - x for x in o) for o in occs]
    lists = [[dict(state=1, sites="all", count=2)], [dict(state=0, sites="all", max_count=2), dict(state=1, sites="all", min_count=2)],
             [dict(species=["X", "S"], sites="all", count=1), dict(species="S", min_count=1)],
             [dict(state=1, min_count=2), dict(species="Na", sites="local_env", max_count=4), dict(state=0, sites=[13, 11, 2], count=2)],
             [dict(pattern=["*"] * 13 + [1], sites="all"), dict(pattern=[1] + ["*"] * 12 + [0], sites="all")]]
    for rules in lists:
        rules = with_b(rules)
        m = LocalBarrierModel(rules=rules, default_barrier=40.0, site_species=spec)
        m2 = LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict())))
        for ev in evs:
            for occ in occs:
                want = ref(rules, {"barrier": 40.0}, ev, occ, spec)
                st, e = State(occupations=list(occ)), Event(*ev)
                chk.step()
                for mm in (m, m2):
                    got = mm.compute(st, e)
                    chk.expect(got == want, "barrier is not that of the first matching rule", rules=rules, event=ev, occ=occ, got=got, want=want)
        chk.state(json.dumps(rules))


def rebuild(chk):
    """every sequence of build() calls: each call replaces the rules and exactly the settings it names"""
    lists = [None, [dict(state=1, sites="local_env", min_count=2, barrier=11.0)],
             [dict(species="Si", min_count=1, barrier=12.0), dict(pattern=[0, "*"], sites="mobile_ion", barrier=13.0)]]
    specs = {None: None, "swap": {s: {0: d[1], 1: d[0], 2: d[2]} for s, d in SPEC.items()}}
    calls = [dict(rules=r, default_properties=p, default_barrier=b, site_species=sp)
             for r in lists for p in (None, {"barrier": 21.0, "w": 1.0}, {"w": 2.0}) for b in (None, 31.0, 32.0)
             for sp in (None, "swap")]
    occs = list(itertools.product((0, 1), repeat=5))[::3]
    first = [c for c in calls if c["site_species"] is None]
    last = calls if chk.thorough else calls[::2] + calls[1::6]
    mids = [None] + ([c for i, c in enumerate(first) if i % 4 == 1] if chk.thorough else [first[4], first[11]])
    for c1 in first:
        for cm in mids:
            for c2 in last:
                m = LocalBarrierModel(site_species=SPEC)
                rules, dflt, sp = [], None, SPEC
                for c in [c1] + ([cm] if cm else []) + [c2]:
                    kw = {k: v for k, v in c.items() if v is not None}
                    if "site_species" in kw:
                        kw["site_species"] = specs[kw["site_species"]]
                        sp = kw["site_species"]
                    m.build(**json.loads(json.dumps(kw)) if "site_species" not in kw else kw)
                    rules = c["rules"] or []
                    if c["default_properties"] is not None:
                        dflt = dict(c["default_properties"])
                        if c["default_barrier"] is not None:
                            dflt.setdefault("barrier", c["default_barrier"])
                    elif c["default_barrier"] is not None:
                        dflt = {**(dflt or {}), "barrier": c["default_barrier"]}
                    chk.step()
                evaluate(chk, m, rules, dflt, occs if cm is None else occs[::4], (0, 2) if cm is None else (0,), sp, rate=False,
                         calls=[c1, cm, c2])
                chk.state(json.dumps([c1, cm, c2]))


def extreme(chk):
    """rates over the whole range of barriers, temperatures and frequencies a double can hold"""
    ev = EVENTS[0]
    e = mk_event(0)
    vals = [-3000.0, -400.0, -40.0, -1e-7, 0.0, 1e-9, 0.5, 40.0, 400.0, 3000.0, 40000.0]
    for lo, hi in itertools.permutations(vals, 2):
        m = LocalBarrierModel(rules=[dict(state=1, sites="local_env", min_count=2, barrier=lo)], default_barrier=hi)
        for mm in (m, LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict())))):
            for occ in ((0, 1, 0, 0, 1), (1, 0, 1, 1, 0)):
                want = lo if sum(occ[2:]) >= 2 else hi
                st = State(occupations=list(occ))
                for T, v in itertools.product((1.0, 15.0, 77.0, 300.0, 1500.0, 20000.0), (1e-3, 1e13)):
                    x = -want / (KB * T)
                    if abs(x) > 650:
                        continue
                    got = m.compute_probability(e, SimpleNamespace(temperature=T, attempt_frequency=v), st)
                    w = v * math.exp(x)
                    chk.step()
                    chk.expect(abs(got - w) <= 1e-9 * w, "rate is not attempt frequency x exp(-barrier/kT)", barrier=want, T=T, v=v, got=got, want=w)
        chk.state((lo, hi))


def many(chk):
    """long rule lists (many rules match the same environment), named against their order, through every storage route"""
    pats = list(itertools.product((0, 1), repeat=5))
    for n, order in ((40, 1), (150, 7), (300, 11)):
        rules = []
        for k in range(n):
            p = list(pats[(k * order + 3) % 32])
            for j in range(k % 4):
                p[(k + 2 * j) % 5] = "*"
            rules.append(dict(pattern=p, barrier=1000.0 - k, name="r%04d" % ((n - k) * 13 % 997)))
        for k in range(0, n, 9):
            rules[k] = dict(state=k % 2, sites=[k % 5, (k + 2) % 5], count=2, barrier=3000.0 + k, name="q%d" % (n - k))
        for j, k in enumerate(range(4, n, 10)):     # one exact rule per environment
            o = list(pats[(j * 3 + 1) % 32])
            rules[k] = dict(mobile_ion_indices=[0, 1], local_env_indices=[2, 3, 4], occupations=o, barrier=5000.0 + k, name="e%d" % (k % 7))
        m = LocalBarrierModel(rules=[dict(r) for r in rules], default_barrier=1.0)
        routes = [("built", m), ("dict", LocalBarrierModel.from_dict(json.loads(json.dumps(m.as_dict()))))]
        m.to("many.json")
        routes.append(("file", LocalBarrierModel.from_file("many.json")))
        m2 = LocalBarrierModel(default_barrier=1.0)
        m2.build(rules=[dict(r) for r in rules])
        routes.append(("rebuilt", m2))
        for route, mm in routes:
            evaluate(chk, mm, rules, {"barrier": 1.0}, pats, (0, 1), None, rate=False, route=route)
            chk.state((n, route))


def main(chk):
    t = chk.thorough
    occ3 = list(itertools.product((0, 1, 2), repeat=5))
    with chk.scenario("single") as on:
        if on:
            single(chk)
    with chk.scenario("pairs") as on:
        if on:
            combos(chk, 2, REDUCED, occ3, range(len(EVENTS)) if t else (0, 2))
    with chk.scenario("triples") as on:
        if on:
            some = [o for o in occ3 if 2 not in o or o == (0, 1, 2, 2, 0)]
            combos(chk, 3, REDUCED, some if t else some[::4], (0, 1, 3) if t else (0,))
    with chk.scenario("spellings") as on:
        if on:
            ls = [(i,) for i in range(len(REDUCED))] + [(i, (i * 7 + 3) % len(REDUCED), (i * 5 + 1) % len(REDUCED)) for i in range(len(REDUCED))]
            ls = [x for x in ls if len(set(x)) == len(x)]
            if t:
                ls += [x for x in itertools.permutations(range(len(REDUCED)), 2)]
            spellings(chk, ls, [o for o in occ3 if sum(x == 2 for x in o) < 2][::3], (0, 2, 3))
    with chk.scenario("choice") as on:
        if on:
            choice(chk)
    with chk.scenario("exact_tables") as on:
        if on:
            exact_tables(chk)
    with chk.scenario("wide") as on:
        if on:
            wide(chk)
    with chk.scenario("extreme") as on:
        if on:
            extreme(chk)
    with chk.scenario("many") as on:
        if on:
            many(chk)
    with chk.scenario("rebuild") as on:
        if on:
            rebuild(chk)
    with chk.scenario("ill") as on:
        if on:
            ill(chk)
    for name in ("ring5", "frame", "codes", "block") + (("square32", "swapc", "codes3") if t else ()):
        with chk.scenario("hist-" + name) as on:
            if on:
                rules = with_b([dict(species="X", sites="canonical", min_count=3), dict(state=0, sites="local_env", count=0),
                                dict(pattern=[0, "*"], sites="mobile_ion"), dict(species=["Na", "P"], sites="local_env", min_count=1)], 200.0)
                hist(chk, name, rules, {"barrier": 240.0})
                rules = with_b([dict(species=["Na", "Li"], sites="all", min_count=3), dict(state=1, sites=[0, 2], count=1),
                                dict(state=1, sites="from", count=1)], 210.0)
                if name in ("ring5", "frame") or t:
                    hist(chk, name, rules, {"barrier": 190.0})
    chk.assumptions += ["rule alphabet of the catalogue; environments of up to 5 distinct sites and 3 states",
                        "for a hop that is impossible anyway an unmatched environment may either raise or give rate 0"]
    chk.sample(dict(rules=REDUCED[:3], events=EVENTS))
