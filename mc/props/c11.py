"""C11: configuration fields reach the simulation unchanged or are rejected.

Exhaustive products: every field x value alphabet x construction/file route, every pair of fields x route, every
invalid value x route, every sequence of change operations up to a depth (with all earlier objects re-inspected), every
workflow-file history over a small alphabet; plus the way from a file to the running simulator.
"""
import argparse
import contextlib
import copy
import io
import itertools
import json
import math
import os
import sys

import kmcpy
from kmcpy.simulator.config import Configuration, RuntimeConfig, SystemConfig
from kmcpy.simulator.kmc import KMC
from mc.common import deep_equal
from mc.drv import KB

SYS = {
    "structure_file": ["a.cif", "dir/b c.cif"],
    "supercell_shape": [(2, 1, 1), [1, 2, 3]],
    "dimension": [1, 2],
    "mobile_ion_specie": ["Na", "Y", "N"],
    "mobile_ion_charge": [2.0, -1.0, 0.5, 3],
    "elementary_hop_distance": [3.47782, 1e-3],
    "model_type": ["local_barrier", "x"],
    "model_file": ["m.json"],
    "event_file": ["e.json", "../e.json"],
    "site_mapping": [{"Na": ["Na", "X"], "O": "O"}, {"Y": ["Y", "X"], "N": "N", "No": ["No", "X", "On"]}],
    "convert_to_primitive_cell": [True],
    "initial_state_file": ["s.json"],
    "initial_occupations": [[0, 1, 0], [1], []],
}
RUN = {
    "temperature": [298.0, 0.01, 1000],
    "attempt_frequency": [5e12, 1e13 + 1, 1],
    "equilibration_passes": [0, 7],
    "kmc_passes": [1, 123456789],
    "random_seed": [0, 12345, 2 ** 40],
    "name": ["x", "null", "yes", "1e5", "007", "a: b", "# c", "é", "", "[1]", "~", "'q\"", "a\nb"],
    "property_sampling_interval": [1, 10],
    "property_sampling_time_interval": [1e-13, 2.5, 3],
    "builtin_property_enabled": [{"msd": False}, {"msd": True, "conductivity": False}],
    "property_callbacks": [[{"callable": "m:f"}], [{"callable": "m.f", "name": "p", "interval": 2, "time_interval": 1e-12, "store": False, "max_records": 3, "enabled": False},
                                                  {"callable": "m:g", "max_records": 1}]],
}
DEF = {"structure_file": "", "supercell_shape": (1, 1, 1), "dimension": 3, "mobile_ion_specie": "Li", "mobile_ion_charge": 1.0,
       "elementary_hop_distance": 1.0, "model_type": "composite_lce", "model_file": "", "event_file": "", "site_mapping": None,
       "convert_to_primitive_cell": False, "initial_state_file": None, "initial_occupations": None,
       "temperature": 300.0, "attempt_frequency": 1e13, "equilibration_passes": 1000, "kmc_passes": 10000, "random_seed": None,
       "name": "DefaultSimulation", "property_sampling_interval": None, "property_sampling_time_interval": None,
       "builtin_property_enabled": {}, "property_callbacks": []}
ALL = dict(SYS, **RUN)
LOADER = ("structure_file", "model_file", "event_file", "initial_state_file")
# alternative base used where a route starts from prebuilt parts
BASE = {k: v[-1] for k, v in ALL.items()}
# every field that has a legal zero or empty value different from its default
FALSY = dict(DEF, equilibration_passes=0, random_seed=0, name="", initial_occupations=[], mobile_ion_charge=0.0, model_type="", initial_state_file="", site_mapping={})


def split(F):
    return {k: v for k, v in F.items() if k in SYS}, {k: v for k, v in F.items() if k in RUN}


def inspect(chk, c, want, what, **kw):
    d_in, d_rec, d_def, d_true = c.as_input_dict(), c.as_record_dict(), c.as_dict(), c.as_dict(include_loader_paths=True)
    for k, v in want.items():
        part = c.system_config if k in SYS else c.runtime_config
        for via, got in (("attribute", getattr(c, k)), ("part", getattr(part, k)), ("input dict", d_in.get(k, "absent")), ("full dict", d_true.get(k, "absent"))):
            if not deep_equal(got, v) or (isinstance(v, str) != isinstance(got, str)):
                chk.fail("%s: field has another value" % what, field=k, via=via, got=got, want=v, **kw)
        for d in (d_rec, d_def):
            if k in LOADER:
                if k in d:
                    chk.fail("%s: recorded form contains a loader path" % what, field=k, **kw)
            elif not deep_equal(d.get(k, "absent"), v):
                chk.fail("%s: recorded form has another value" % what, field=k, got=d.get(k, "absent"), want=v, **kw)
    extra = [k for k in d_in if k not in want and not k.startswith("@")]
    if extra:
        chk.fail("%s: unexpected fields" % what, got=extra, **kw)
    chk.checks += 6 * len(want)


def yaml_dump(path, d):
    from monty.serialization import dumpfn
    dumpfn(d, path)


def tolist(x):
    if isinstance(x, tuple):
        return list(x)
    if isinstance(x, dict):
        return {k: tolist(v) for k, v in x.items()}
    return x


def json_dump(path, d):
    with open(path, "w") as f:
        json.dump(d, f)


def r_direct(F):
    return Configuration(**F), DEF


def r_parts(F):
    s, r = split(F)
    return Configuration(system_config=SystemConfig(**s), runtime_config=RuntimeConfig(**r)), DEF


def r_mix_kw(F):
    s, r = split(BASE)
    return Configuration(system_config=SystemConfig(**s), runtime_config=RuntimeConfig(**r), **F), BASE


def r_mix_sys(F):
    s, _ = split(BASE)
    return Configuration(system_config=SystemConfig(**s), **F), dict(DEF, **s)


def r_mix_run(F):
    _, r = split(BASE)
    return Configuration(runtime_config=RuntimeConfig(**r), **F), dict(DEF, **r)


def r_change(F):
    s, r = split(F)
    c = Configuration(**BASE)
    return c.with_system_changes(**s).with_runtime_changes(**r), BASE


def r_mix_falsy(F):
    s, r = split(FALSY)
    return Configuration(system_config=SystemConfig(**s), runtime_config=RuntimeConfig(**r), **F), FALSY


def r_change_falsy(F):
    s, r = split(F)
    return Configuration(**FALSY).with_system_changes(**s).with_runtime_changes(**r), FALSY


def r_json_falsy(F):
    json_dump("ff.json", tolist(dict(FALSY, **F)))
    return Configuration.from_file("ff.json"), FALSY


def r_to_yaml_falsy(F):
    Configuration(**dict(FALSY, **F)).to("of.yaml", include_loader_paths=True)
    return Configuration.from_file("of.yaml"), FALSY


def r_change2(F):
    s, r = split(F)
    c = Configuration(name=DEF["name"])
    return c.with_runtime_changes(**r).with_system_changes(**s), DEF


def r_dict(F):
    return Configuration.from_dict(dict(F, **{"@module": "x", "@class": "y", "@version": 1})), DEF


def r_input_dict(F):
    return Configuration.from_dict(Configuration(**F).as_input_dict()), DEF


def r_json(F):
    json_dump("f.json", tolist(F))
    return Configuration.from_file("f.json"), DEF


def r_yaml(F):
    yaml_dump("f.yaml", tolist(F))
    return Configuration.from_file("f.yaml"), DEF


def r_yml_section(F):
    yaml_dump("g.yml", {"kmc": {"type": "default", "default": tolist(F)}, "other": {"a": 1}})
    return Configuration.from_file("g.yml"), DEF


def r_flat_section(F):
    yaml_dump("h.yaml", {"sim": tolist(F), "kmc": {"temperature": 1.0}})
    return Configuration.from_file("h.yaml", section="sim"), DEF


def r_task(F):
    json_dump("t.json", {"sim": {"type": "a", "a": {"temperature": 5.0}, "b": tolist(F)}})
    return Configuration.from_file("t.json", section="sim", task_type="b"), DEF


def r_to_json(F):
    Configuration(**F).to("o.json", include_loader_paths=True)
    return Configuration.from_file("o.json"), DEF


def r_to_yaml(F):
    Configuration(**F).to("o.yaml", include_loader_paths=True)
    return Configuration.from_file("o.yaml"), DEF


def r_to_section(F):
    with contextlib.suppress(FileNotFoundError):
        os.remove("os.yaml")
    Configuration(**F).to("os.yaml", include_loader_paths=True, section="kmc", task_type="t1")
    return Configuration.from_file("os.yaml"), DEF


def r_record(F):
    Configuration(**F).to("rec.json")
    return Configuration.from_file("rec.json"), "record"


def r_record_yaml(F):
    Configuration(**F).to("rec.yml")
    return Configuration.from_file("rec.yml"), "record"


ROUTES = [r_direct, r_parts, r_mix_kw, r_mix_sys, r_mix_run, r_change, r_mix_falsy, r_change_falsy, r_json_falsy, r_to_yaml_falsy, r_change2, r_dict, r_input_dict, r_json, r_yaml, r_yml_section, r_flat_section,
          r_task, r_to_json, r_to_yaml, r_to_section, r_record, r_record_yaml]
SLOW = {"r_yaml", "r_yml_section", "r_flat_section", "r_to_yaml", "r_to_section", "r_record_yaml", "r_to_yaml_falsy"}


def go(chk, route, F):
    F0 = copy.deepcopy(F)
    c, base = route(F)
    if base == "record":
        want = dict(DEF, **{k: v for k, v in F.items() if k not in LOADER})
    else:
        want = dict(base, **F)
    inspect(chk, c, want, "route " + route.__name__, fields=F0)
    chk.expect(deep_equal(F, F0), "the caller's values were modified", route=route.__name__)
    chk.step()
    chk.state((route.__name__, repr(sorted(F.items(), key=lambda t: t[0]))))


INVALID = [("temperature", 0), ("temperature", -1.0), ("attempt_frequency", 0.0), ("attempt_frequency", -5), ("equilibration_passes", -1), ("kmc_passes", 0), ("kmc_passes", -3),
           ("dimension", 0), ("dimension", 4), ("dimension", -1), ("supercell_shape", (1, 1)), ("supercell_shape", [1, 1, 1, 1]), ("supercell_shape", []),
           ("property_sampling_interval", 0), ("property_sampling_interval", -2), ("property_sampling_interval", 1.5), ("property_sampling_interval", "2"),
           ("property_sampling_time_interval", 0.0), ("property_sampling_time_interval", -1e-9),
           ("builtin_property_enabled", {"mds": True}), ("builtin_property_enabled", {"msd": 1}), ("builtin_property_enabled", {"msd": "no"}), ("builtin_property_enabled", ["msd"]),
           ("builtin_property_enabled", {"msd": True, "x": False}),
           ("property_callbacks", {"callable": "m:f"}), ("property_callbacks", ["m:f"]), ("property_callbacks", [{}]), ("property_callbacks", [{"callable": ""}]),
           ("property_callbacks", [{"callable": "  "}]), ("property_callbacks", [{"callable": 3}]), ("property_callbacks", [{"callable": "m:f", "intervall": 2}]),
           ("property_callbacks", [{"callable": "m:f"}, {"callable": "m:f", "interval": 0}]), ("property_callbacks", [{"callable": "m:f", "interval": 1.5}]),
           ("property_callbacks", [{"callable": "m:f", "time_interval": -1}]), ("property_callbacks", [{"callable": "m:f", "max_records": 0}]),
           ("property_callbacks", [{"callable": "m:f", "max_records": "1"}]), ("property_callbacks", [{"callable": "m:f", "store": "yes"}]),
           ("property_callbacks", [{"callable": "m:f", "enabled": 1}])]
UNKNOWN = ["T", "q", "v", "temprature", "kmc_pass", "prim_fname", "supercell", "Temperature", "system_configs", "interval"]


def changes(chk, depth):
    OPS = [("r", dict(temperature=450.0)), ("r", dict(name="n2", kmc_passes=5)), ("s", dict(dimension=2)), ("s", dict(site_mapping={"K": ["K", "X"]}, supercell_shape=(4, 1, 1))),
           ("r", dict(builtin_property_enabled={"havens_ratio": False}, random_seed=3)), ("s", dict(initial_occupations=[1, 0], mobile_ion_charge=2.0)), ("r", dict()),
           ("s", dict(initial_state_file=None)), ("k", dict(temperature=77.0, dimension=1))]
    for start in (DEF, BASE, FALSY):
        for n in range(1, depth + (start is not FALSY)):
            for seq in itertools.product(range(len(OPS)), repeat=n):
                chk.note(start="default" if start is DEF else "base" if start is BASE else "falsy", seq=[OPS[i] for i in seq])
                c = Configuration(**copy.deepcopy(start))
                hist = [(c, dict(start))]
                cur = dict(start)
                for i in seq:
                    kind, ch = OPS[i]
                    ch = copy.deepcopy(ch)
                    if kind == "r":
                        c = c.with_runtime_changes(**ch)
                    elif kind == "s":
                        c = c.with_system_changes(**ch)
                    else:
                        c = Configuration(system_config=c.system_config, runtime_config=c.runtime_config, **ch)
                    cur = dict(cur, **ch)
                    hist.append((c, dict(cur)))
                for j, (cc, want) in enumerate(hist):
                    inspect(chk, cc, want, "configuration %d of a change history" % j, seq=seq)
                chk.step(n)
                chk.trace()
                chk.state((start["name"], seq))


def frozen(chk):
    c = Configuration(**copy.deepcopy(BASE))
    for k, v in ALL.items():
        for target in (c, c.system_config if k in SYS else c.runtime_config):
            try:
                setattr(target, k, v[0])
                ok = False
            except Exception:
                ok = True
            chk.expect(ok, "a configuration field could be assigned", field=k)
        chk.state(k)
        chk.step()
    inspect(chk, c, BASE, "configuration after assignment attempts")
    # changing a returned dictionary does not reach the configuration
    for fn in (c.as_dict, c.as_input_dict, c.as_record_dict, c.system_config.as_dict, c.runtime_config.as_dict):
        d = fn()
        for k in list(d):
            if isinstance(d[k], list):
                if d[k] and isinstance(d[k][0], dict):
                    d[k][0]["callable"] = "changed"
                d[k].append("changed")
            elif isinstance(d[k], dict):
                for kk in list(d[k]):
                    if isinstance(d[k][kk], list):
                        d[k][kk].append("changed")
                d[k]["changed"] = True
        inspect(chk, c, BASE, "configuration after editing a returned dictionary")
    # wrong part
    for k, v in ALL.items():
        f = c.with_system_changes if k in RUN else c.with_runtime_changes
        chk.raises(lambda: f(**{k: v[0]}), "a field was accepted by the wrong part", field=k)
    for u in UNKNOWN:
        chk.raises(lambda: c.with_system_changes(**{u: 1}), "unknown field accepted", field=u)
        chk.raises(lambda: c.with_runtime_changes(**{u: 1}), "unknown field accepted", field=u)
    chk.raises(lambda: Configuration(), "a configuration without any field")


def rejects(chk):
    for route in ROUTES:
        for k, v in INVALID:
            if route.__name__ == "r_record" and k in LOADER:
                continue
            chk.note(route=route.__name__, field=k, value=v)
            chk.raises(lambda: route({k: v}), "invalid value accepted", route=route.__name__, field=k, value=v)
            other = "temperature" if k != "temperature" else "name"
            chk.raises(lambda: route({k: v, other: ALL[other][0]}), "invalid value accepted next to a valid one", route=route.__name__, field=k, value=v)
            chk.state((route.__name__, k, repr(v)))
            chk.step(2)
        for u in UNKNOWN:
            if route.__name__ in ("r_parts", "r_change", "r_change_falsy", "r_change2"):
                continue
            for val in (1, None):
                chk.raises(lambda: route({u: val, "temperature": 400.0}), "unknown field accepted", route=route.__name__, field=u)
                chk.step()
            chk.state((route.__name__, u))


def files(chk):
    # bad files
    for n, content in (("b1.json", "[1, 2]"), ("b2.json", "3"), ("b3.yaml", "- a\n- b\n"), ("b4.json", "{\"temperature\": 300"), ("b5.yaml", "a: [1\n"), ("b6.json", "{\"foo\": {\"temperature\": 300}}"),
                       ("b7.txt", "{\"temperature\": 300}"), ("b8", "{\"temperature\": 300}"), ("b9.yaml", "kmc: 3\n"), ("b10.yaml", "kmc:\n  type: a\n  b:\n    temperature: 3\n"),
                       ("b11.yaml", "kmc:\n  type: a\n  a: [1]\n"),
                       ("b12.yaml", "temperature: 5.0\nkmc:\n  type: a\n  a:\n    temperature: 3.0\n"), ("b13.json", "{\"name\": \"x\", \"kmc\": {\"temperature\": 300}}")):
        with open(n, "w") as f:
            f.write(content)
        chk.raises(lambda: Configuration.from_file(n), "malformed configuration file accepted", name=n, content=content)
        chk.state(n)
        chk.step()
    yaml_dump("w.yaml", {"a": {"type": "x", "x": {"temperature": 10.0}, "y": {"temperature": 20.0}}, "b": {"temperature": 30.0}})
    for kw, want in ((dict(section="a"), 10.0), (dict(section="a", task_type="y"), 20.0), (dict(section="a", task_type="x"), 10.0), (dict(section="b"), 30.0)):
        inspect(chk, Configuration.from_file("w.yaml", **kw), dict(DEF, temperature=want), "section", kw=kw)
    for kw in (dict(section="c"), dict(section="a", task_type="z"), dict()):
        chk.raises(lambda: Configuration.from_file("w.yaml", **kw), "missing section accepted", kw=kw)
    for n in ("x.txt", "x", "x.toml"):
        chk.raises(lambda: Configuration(temperature=1.0).to(n), "unsupported output format accepted", exc=ValueError)
        chk.expect(not os.path.exists(n), "a refused write left a file")
    chk.raises(lambda: Configuration(temperature=1.0).to("sec.json", section="kmc"), "section output accepted for JSON", exc=ValueError)
    # an unreadable or non-mapping workflow file is never overwritten
    for content in ("a: [1\n", "- 1\n- 2\n", "3\n", "a: b: c\n", "\t- x\n"):
        with open("broken.yaml", "w") as f:
            f.write(content)
        chk.raises(lambda: Configuration(temperature=1.0).to("broken.yaml", section="kmc"), "a section was written into an unreadable workflow file", content=content)
        chk.expect(open("broken.yaml").read() == content, "an unreadable workflow file was overwritten", content=content)
        chk.state(content)
        chk.step()
    # workflow histories
    from monty.serialization import loadfn
    C = {"c1": dict(temperature=333.0, name="one", site_mapping={"Na": ["Na", "X"]}), "c2": dict(kmc_passes=5, structure_file="p.cif", property_callbacks=[{"callable": "m:f"}])}
    OPS = [(sec, ck, t, inc) for sec in ("kmc", "s2") for ck in C for t in ("default", "t2") for inc in (True, False)]
    for start in ({}, {"notes": {"a": [1, 2], "b": None}, "fit": {"type": "lce", "lce": {"alpha": 1e-5}}}):
        for n in (1, 2):
            for seq in itertools.product(OPS, repeat=n):
                with contextlib.suppress(FileNotFoundError):
                    os.remove("wf.yaml")
                if start:
                    yaml_dump("wf.yaml", start)
                last = {}
                for sec, ck, t, inc in seq:
                    Configuration(**copy.deepcopy(C[ck])).to("wf.yaml", section=sec, task_type=t, include_loader_paths=inc)
                    last[sec] = (ck, t, inc)
                chk.note(seq=seq, start=start)
                raw = loadfn("wf.yaml")
                for k, v in start.items():
                    chk.expect(deep_equal(raw.get(k), v), "another section of the workflow file changed", section=k, got=raw.get(k), want=v, seq=seq)
                chk.expect(set(raw) == set(start) | set(last), "sections of the workflow file", got=list(raw), seq=seq)
                for sec, (ck, t, inc) in last.items():
                    want = dict(DEF, **{k: v for k, v in C[ck].items() if inc or k not in LOADER})
                    inspect(chk, Configuration.from_file("wf.yaml", section=sec), want, "workflow section", seq=seq)
                    inspect(chk, Configuration.from_file("wf.yaml", section=sec, task_type=t), want, "workflow section", seq=seq)
                chk.state((bool(start), seq))
                chk.step(n)
                chk.trace()


class Captured(Exception):
    pass


@contextlib.contextmanager
def capture_kmc():
    got = []

    class Fake:
        def run(self, label=None):
            got.append(("run", label))
            return "tracker"

    def from_config(cls, config):
        got.append(config)
        return Fake()
    old = KMC.__dict__["from_config"]
    KMC.from_config = classmethod(from_config)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield got
    finally:
        KMC.from_config = old


def cli(chk):
    from kmcpy.cli import init as init_cli, main as main_cli, run_kmc as rk
    # template
    with contextlib.redirect_stdout(io.StringIO()):
        chk.expect(main_cli.main(["init", "-o", "d/tpl.yaml"]) == 0, "kmcpy init")
        chk.expect(init_cli.main(["--output", "tpl2.yaml"]) == 0, "kmcpy-init")
    want = dict(DEF, structure_file="path/to/structure.cif", event_file="path/to/event.json", model_file="path/to/model.json", site_mapping={"Li": ["Li", "X"]})
    for p in ("d/tpl.yaml", "tpl2.yaml"):
        inspect(chk, Configuration.from_file(p), want, "generated template", path=p)
        inspect(chk, Configuration.from_file(p, section="kmc"), want, "generated template", path=p)
    with open("mine.yaml", "w") as f:
        f.write("mine")
    for argv in (["init", "-o", "mine.yaml"],):
        chk.raises(lambda: main_cli.main(argv), "an existing file was overwritten", exc=FileExistsError)
        chk.expect(open("mine.yaml").read() == "mine", "an existing file was overwritten")
    with contextlib.redirect_stdout(io.StringIO()):
        main_cli.main(["init", "-o", "mine.yaml", "--force"])
    inspect(chk, Configuration.from_file("mine.yaml"), want, "forced template")
    # run_kmc --input
    for k, vals in ALL.items():
        for v in vals:
            F = dict({k: v})
            for ext, dump in (("json", json_dump), ("yaml", yaml_dump)):
                dump("in." + ext, tolist(F))
                with capture_kmc() as got:
                    rk.run_kmc(argparse.Namespace(input="in." + ext))
                chk.expect(len(got) == 2 and got[1][0] == "run", "run_kmc did not run the simulation", got=repr(got))
                inspect(chk, got[0], dict(DEF, **F), "run_kmc --input", fields=F)
                chk.step()
            with capture_kmc() as got:  # fields given as arguments
                rk.run_kmc(argparse.Namespace(input=None, **F))
            inspect(chk, got[0], dict(DEF, **F), "run_kmc arguments", fields=F)
            with capture_kmc() as got:
                r = kmcpy.run(Configuration(**F), label="lab")
            inspect(chk, got[0], dict(DEF, **F), "kmcpy.run", fields=F)
            chk.expect(got[1] == ("run", "lab") and r == "tracker", "kmcpy.run label")
            chk.state((k, repr(v)))
    for k, v in INVALID:
        json_dump("in.json", tolist({k: v}))
        with capture_kmc() as got:
            chk.raises(lambda: rk.run_kmc(argparse.Namespace(input="in.json")), "run_kmc accepted an invalid input file", field=k, value=v)
        chk.expect(not got, "an invalid configuration reached the simulator", field=k, value=v)
    # argv
    opts = [("--supercell_shape", "[2, 2, 1]", dict(supercell_shape=(2, 2, 1))), ("--supercell_shape", "2,1,3", dict(supercell_shape=(2, 1, 3))),
            ("--site_mapping", "{'Na': ['Na', 'X'], 'O': 'O'}", dict(site_mapping={"Na": ["Na", "X"], "O": "O"})),
            ("--temperature", "450.5", dict(temperature=450.5)), ("--attempt_frequency", "5e12", dict(attempt_frequency=5e12)),
            ("--model_file", "m.json", dict(model_file="m.json")), ("--structure_file", "s.cif", dict(structure_file="s.cif")),
            ("--event_file", "e.json", dict(event_file="e.json")), ("--convert_to_primitive_cell", None, dict(convert_to_primitive_cell=True))]
    for n in (0, 1, 2, 3):
        for sel in itertools.combinations(opts, n):
            argv, F = ["run_kmc"], {}
            for o, v, d in sel:
                argv += [o] + ([v] if v is not None else [])
                F.update(d)
            old = sys.argv
            sys.argv = argv
            try:
                with capture_kmc() as got:
                    rk.main()
            finally:
                sys.argv = old
            inspect(chk, got[0], dict(DEF, **F), "run_kmc command line", argv=argv)
            chk.state(tuple(argv))
            chk.step()
    for bad in ("[1,2]", "3", "[a,b,c]", "[1,2,3,4]"):
        old = sys.argv
        sys.argv = ["run_kmc", "--supercell_shape", bad]
        try:
            with capture_kmc() as got, contextlib.redirect_stderr(io.StringIO()):
                try:
                    rk.main()
                    ok = False
                except (SystemExit, Exception):
                    ok = True
        finally:
            sys.argv = old
        chk.expect(ok and not got, "bad supercell shape accepted on the command line", value=bad)
    # a shape that no supercell can have is refused or arrives as it was given, never as another one
    for shape in itertools.product((-1, 0, 1, 2), repeat=3):
        for form in ("[%d, %d, %d]", "(%d,%d,%d)"):
            old = sys.argv
            sys.argv = ["run_kmc", "--supercell_shape=" + form % shape]
            try:
                with capture_kmc() as got, contextlib.redirect_stderr(io.StringIO()):
                    try:
                        rk.main()
                    except (SystemExit, Exception):
                        chk.expect(min(shape) < 1, "a good supercell shape was refused on the command line", value=shape)
            finally:
                sys.argv = old
            if got:
                chk.expect(tuple(got[0].system_config.supercell_shape) == shape, "the supercell shape of the command line was changed", value=shape, got=got[0].system_config.supercell_shape)
            chk.step()
            chk.state((shape, form))
    for x in ({"temperature": 3.0}, None, "in.json"):
        chk.raises(lambda: kmcpy.run(x), "kmcpy.run accepted something that is not a Configuration", exc=TypeError)


def reach(chk):
    """from an input file to the simulator that uses it"""
    from pymatgen.io.cif import CifWriter
    from kmcpy.models import LocalBarrierModel
    from mc.drv import World, set_tape, U_E
    w = World.get("ring5")
    CifWriter(w.template).write_file("r.cif")
    w.event_lib().to("r.json")
    LocalBarrierModel(default_barrier=300.0).to("rm.json")
    occ = [0, 1, 0, 1, 1]
    from kmcpy.simulator.state import State
    State(occ).save_checkpoint("r_state.json")
    for T, nu, how, init, ext in itertools.product((300.0, 500.0, 1000), (1e12, 5e13), ("json", "yaml", "section"), ("occ", "file"), (0,)):
        F = dict(structure_file="r.cif", event_file="r.json", model_file="rm.json", site_mapping=tolist(w.mapping), mobile_ion_specie="Na", supercell_shape=list(w.shape),
                 temperature=T, attempt_frequency=nu, equilibration_passes=0, kmc_passes=2, random_seed=5, elementary_hop_distance=3.0, dimension=1, name="r",
                 property_sampling_interval=1, builtin_property_enabled={"msd": False})
        if init == "occ":
            F["initial_occupations"] = occ
        else:
            F["initial_state_file"] = "r_state.json"
        if how == "json":
            json_dump("reach.json", F)
            c = Configuration.from_file("reach.json")
        elif how == "yaml":
            Configuration(**F).to("reach.yaml", include_loader_paths=True)
            c = Configuration.from_file("reach.yaml")
        else:
            yaml_dump("reach2.yaml", {"kmc": {"type": "default", "default": F}})
            c = Configuration.from_file("reach2.yaml")
        k = KMC.from_config(c)
        chk.expect([int(x) for x in k.simulation_state.occupations] == occ, "initial occupation of the simulator", got=k.simulation_state.occupations)
        n = sum(1 for p in w.pairs if w.direction(occ, p))
        set_tape(k, [0.4, U_E])
        ev, dt = k.propose(k.event_lib.events)[:2]
        chk.close(1.0 / dt, n * nu * math.exp(-300.0 / (KB * T)), "total rate at the configured temperature and attempt frequency", rel=1e-9, T=T, nu=nu, how=how)
        tr = k.run()
        chk.expect(os.path.exists("results_r.csv.gz"), "the configured name labels the output")
        chk.expect(k.simulation_state.step == 2 * w.pass_length() and len(tr.results["time"]) == 2 * w.pass_length(), "configured passes and sampling interval", got=len(tr.results["time"]))
        chk.expect(all(v != v for v in tr.results["msd"]), "configured built-in switch")
        d2 = float((tr.displacement ** 2).sum(axis=1).mean())
        chk.close(tr.results["tracer_diffusivity"][-1], d2 / (2 * 1 * k.simulation_state.time) * 1e-16, "configured dimension", rel=1e-9)
        chk.state((T, nu, how, init))
        chk.step(2 * w.pass_length())


def main(chk):
    T = chk.thorough
    chk.bounds = dict(fields=len(ALL), values=sum(map(len, ALL.values())), routes=len(ROUTES), pairs="all pairs of fields x all value combinations%s" % ("" if T else " on in-memory and JSON routes, first/last values on YAML routes"),
                      invalid=len(INVALID), unknown=len(UNKNOWN), changes="all change sequences to depth %d over 9 operations" % (4 if T else 3))
    chk.assumptions = ["values a file format cannot distinguish (tuple/list) count as equal", "type-level validation is asserted only for the values listed as INVALID"]
    with chk.scenario("single") as on:
        if on:
            for route in ROUTES:
                for k, vals in ALL.items():
                    for v in vals:
                        chk.note(route=route.__name__, field=k, value=v)
                        go(chk, route, {k: copy.deepcopy(v)})
                go(chk, route, copy.deepcopy(BASE))
                go(chk, route, {k: copy.deepcopy(v[0]) for k, v in ALL.items()})
                go(chk, route, {k: copy.deepcopy(v) for k, v in DEF.items()})
    with chk.scenario("pairs") as on:
        if on:
            for route in ROUTES:
                slow = route.__name__ in SLOW and not T
                for k1, k2 in itertools.combinations(ALL, 2):
                    combos = itertools.product(ALL[k1][:2], ALL[k2][:2]) if not slow else [(ALL[k1][0], ALL[k2][-1])]
                    for v1, v2 in combos:
                        chk.note(route=route.__name__, fields=[k1, k2], values=[v1, v2])
                        go(chk, route, {k1: copy.deepcopy(v1), k2: copy.deepcopy(v2)})
    with chk.scenario("changes") as on:
        if on:
            changes(chk, 4 if T else 3)
    for nm, fn in (("frozen", frozen), ("rejects", rejects), ("files", files), ("cli", cli), ("reach", reach)):
        with chk.scenario(nm) as on:
            if on:
                fn(chk)
