"""C06: property sampling fires exactly on schedule and keeps exactly the right records.

Explicit-state exploration of the sampling machinery: all operation sequences up to a depth over an operation
alphabet, each executed on a fresh real Tracker (and PropertyPlan/KMC) next to a reference automaton; all schedules x
waiting-time sequences; callback failures at every firing x every handler; operations performed from inside a run.
"""
import itertools
import json
import gzip

from kmcpy.simulator.property import PropertyPlan
from kmcpy.simulator.state import State
from kmcpy.simulator.tracker import CallbackExecutionError, Tracker
from mc.drv import Table, World, patched_rng, ref_run, tape

BUILTIN = ("msd", "jump_diffusivity", "tracer_diffusivity", "conductivity", "havens_ratio", "correlation_factor")


class Ref:
    """reference automaton of the documented sampling rules"""

    def __init__(self, interval=1, time_interval=None):
        self.gi, self.gt = interval, time_interval
        self.specs = {}
        self.rows = []  # (time, enabled flags)
        self.last = None
        self.flags = dict.fromkeys(BUILTIN, True)
        self.fired = []  # (name, step, time)
        self.recs = {}

    def attach(self, name, interval=None, time_interval=None, store=True, max_records=None, enabled=True):
        self.specs[name] = dict(i=interval, t=time_interval, store=store, m=max_records, on=enabled, last=None)
        self.recs[name] = []

    def detach(self, name):
        del self.specs[name]
        del self.recs[name]

    @staticmethod
    def due(step, time, i, t, last):
        a = i is not None and step > 0 and step % i == 0
        b = t is not None and (time - (0.0 if last is None else last)) >= t
        return a or b

    def sample(self, step, time, fails=()):
        if self.due(step, time, self.gi, self.gt, self.last):
            self.rows.append((time, dict(self.flags)))
            self.last = time
        for name, s in list(self.specs.items()):
            if not s["on"]:
                continue
            if not self.due(step, time, s["i"] if s["i"] is not None else self.gi,
                            s["t"] if s["t"] is not None else self.gt, s["last"]):
                continue
            self.fired.append((name, step, time))
            s["last"] = time
            if name in fails:
                continue
            if s["store"]:
                r = self.recs[name]
                r.append((step, time))
                if s["m"] is not None:
                    del r[: max(0, len(r) - s["m"])]


SPECS = {"a": dict(interval=2), "b": dict(time_interval=1.0, max_records=1), "c": dict(store=False),
         "d": dict(interval=1, max_records=2), "e": dict(interval=3, time_interval=1.5, enabled=False),
         "f": dict()}


class Live:
    """real tracker with recording callbacks"""

    def __init__(self, w, plan=None, default=None, occ=(0, 1, 0, 1, 0)):
        self.w = w
        self.state = State(occupations=list(occ))
        self.fired = []
        self.tr = Tracker(config=w.config(), structure=w.structure, initial_state=self.state, property_plan=plan,
                          default_property_interval=default, hop_state_lookup=w.lookup())
        self.step = 0

    def cb(self, name, fail=False):
        def f(state, step, time):
            assert state is self.state or list(state.occupations) == list(self.state.occupations)
            self.fired.append((name, step, time))
            if fail:
                raise ValueError("callback failed")
            return [name, step, time, self.state.time]
        f.__name__ = name
        return f

    def go(self, dt):
        self.step += 1
        self.state.time += dt
        self.state.step += 1
        self.tr.sample_properties(step=self.step, sim_time=float(self.state.time))


def recs_of(tr):
    return {k: [(r["step"], r["time"]) for r in v] for k, v in tr.get_property_records().items()}


def compare(chk, live, ref, ops):
    chk.expect(live.fired == ref.fired, "callbacks fired at the wrong steps", ops=ops, got=live.fired, want=ref.fired)
    chk.expect(live.tr.results["time"] == [t for t, _ in ref.rows], "built-in summary rows at the wrong times", ops=ops,
               got=live.tr.results["time"], want=[t for t, _ in ref.rows])
    got = recs_of(live.tr)
    chk.expect({k: v for k, v in got.items() if v or k in ref.recs} == ref.recs, "stored records", ops=ops, got=got, want=ref.recs)
    for k, v in live.tr.get_property_records().items():
        for r in v:
            chk.expect(r["name"] == k and list(r["value"])[:3] == [k, r["step"], r["time"]], "record content", record=r, ops=ops)
        chk.equal([x["step"] for x in live.tr.get_property_records(k)], [x["step"] for x in v], "records by name")
    chk.expect(live.tr.list_attachments() == list(ref.specs), "attachment list", ops=ops, got=live.tr.list_attachments(), want=list(ref.specs))
    d = live.tr.list_property_calculations()
    chk.expect(sorted(d["attached_enabled"]) == sorted(k for k, s in ref.specs.items() if s["on"])
               and sorted(d["attached_disabled"]) == sorted(k for k, s in ref.specs.items() if not s["on"])
               and sorted(d["built_in_enabled"]) == sorted(k for k, s in ref.flags.items() if s)
               and sorted(d["built_in_disabled"]) == sorted(k for k, s in ref.flags.items() if not s),
               "list_property_calculations", ops=ops, got=d)
    for j, (t, fl) in enumerate(ref.rows):
        for f in BUILTIN:
            v = live.tr.results[f][j]
            if not fl[f]:
                chk.expect(v != v, "a disabled built-in was sampled", field=f, row=j, ops=ops, got=v)
            elif f == "msd":
                chk.expect(v == 0.0, "an enabled built-in was not sampled", field=f, row=j, ops=ops, got=v)


def apply(op, live, ref):
    k = op[0]
    if k == "step":
        live.go(op[1])
        ref.sample(live.step, float(live.state.time))
    elif k == "attach":
        n = op[1]
        if n in ref.specs:
            try:
                live.tr.attach(live.cb(n), name=n, **SPECS[n])
            except ValueError:
                return
            raise AssertionError("duplicate attachment accepted")
        got = live.tr.attach(live.cb(n), name=n, **SPECS[n])
        assert got == n
        ref.attach(n, **SPECS[n])
    elif k == "detach":
        if op[1] in ref.specs:
            live.tr.detach(op[1])
            ref.detach(op[1])
        else:
            try:
                live.tr.detach(op[1])
            except ValueError:
                return
            raise AssertionError("detaching an unknown property was accepted")
    elif k == "toggle":
        n = op[1]
        if n in ref.flags:
            ref.flags[n] = not ref.flags[n]
            live.tr.set_property_enabled(n, ref.flags[n])
        elif n in ref.specs:
            ref.specs[n]["on"] = not ref.specs[n]["on"]
            live.tr.set_property_enabled(n, ref.specs[n]["on"])
        else:
            try:
                live.tr.set_property_enabled(n, True)
            except ValueError:
                return
            raise AssertionError("enabling an unknown property was accepted")
    elif k == "freq":
        live.tr.set_global_property_frequency(interval=op[1], time_interval=op[2])
        ref.gi, ref.gt = op[1], op[2]
    elif k == "clear":
        live.tr.clear_attachments()
        ref.specs.clear()
        ref.recs.clear()


def cbname(state, step, time):
    return 1


BAD = [(dict(interval=0), (TypeError, ValueError)), (dict(interval=-1), (TypeError, ValueError)),
       (dict(interval=1.5), (TypeError, ValueError)), (dict(interval="2"), (TypeError, ValueError)),
       (dict(time_interval=0), (TypeError, ValueError)), (dict(time_interval=-1.0), (TypeError, ValueError)),
       (dict(max_records=0), (TypeError, ValueError)), (dict(max_records=-2), (TypeError, ValueError)),
       (dict(max_records=1.5), (TypeError, ValueError))] + [(dict(name=b), ValueError) for b in BUILTIN]


def probe_invalid(chk, target, names, freq):
    """invalid registrations are rejected and leave nothing behind"""
    before = target.list_property_calculations()
    for kw, exc in BAD:
        kw = dict(kw)
        kw.setdefault("name", "probe")
        chk.raises(lambda: target.attach(cbname, **kw), "invalid attachment accepted", exc=exc, kwargs=kw)
        chk.step()
    for n in names:
        chk.raises(lambda: target.attach(cbname, name=n), "duplicate attachment accepted", exc=ValueError, name=n)
    for nc in (None, 3, "f"):
        chk.raises(lambda: target.attach(nc, name="probe"), "a non-callable was accepted", exc=TypeError)
    for kw in (dict(interval=0), dict(interval=-3), dict(interval=2.5), dict(time_interval=0.0), dict(time_interval=-1e-9)):
        chk.raises(lambda: freq(**kw), "invalid global frequency accepted", exc=(TypeError, ValueError), kwargs=kw)
    chk.raises(lambda: target.set_property_enabled("nope", True), "unknown property enabled", exc=ValueError)
    chk.raises(lambda: target.detach("nope"), "unknown property detached", exc=ValueError)
    chk.expect(target.list_property_calculations() == before, "a rejected operation had side effects", before=before,
               after=target.list_property_calculations())


def main(chk):
    T = chk.thorough
    w = World.get("ring5")
    depth = 5 if T else 4
    OPS = [("step", 0.5), ("step", 1.0), ("attach", "a"), ("attach", "b"), ("attach", "c"), ("attach", "f"),
           ("detach", "a"), ("toggle", "b"), ("toggle", "msd"), ("freq", 2, None), ("freq", None, 1.0), ("clear",)]
    chk.bounds = dict(op_depth=depth, ops=OPS, schedules="interval {None,1,2,3} x time {None,1,1.5} global and own, all waiting-time words of length %d over {0.25,0.5,1,2}" % (5 if T else 4),
                      tail="4 steps after each operation sequence")
    with chk.scenario("sequences") as on:
        if on:
            for ops in itertools.product(OPS, repeat=depth):
                if depth > 4 and ops[0][0] in ("detach", "clear"):
                    continue
                live, ref = Live(w), Ref()
                chk.note(ops=ops)
                for op in ops:
                    apply(op, live, ref)
                    chk.step()
                for dt in (0.5, 1.0, 0.25, 0.5):
                    apply(("step", dt), live, ref)
                compare(chk, live, ref, ops)
                chk.trace()
                chk.state(ops)
                chk.outcome((tuple(ref.fired), tuple(ref.rows and [t for t, _ in ref.rows])))
            chk.sample(dict(ops=ops, fired=ref.fired))
    with chk.scenario("sequences_rich") as on:  # the remaining alphabet at smaller depth, after a warm-up
        if on:
            rich = OPS + [("attach", "d"), ("attach", "e"), ("detach", "b"), ("toggle", "e"), ("toggle", "a"),
                          ("toggle", "conductivity"), ("freq", None, None), ("freq", 3, 1.5), ("detach", "zz")]
            for pre in ((), (("attach", "a"), ("attach", "e"), ("step", 0.5))):
                for ops in itertools.product(rich, repeat=4 if T else 3):
                    live, ref = Live(w), Ref()
                    chk.note(ops=pre + ops)
                    for op in pre + ops:
                        apply(op, live, ref)
                        chk.step()
                    for dt in (0.5, 1.0, 0.25, 0.5, 0.5):
                        apply(("step", dt), live, ref)
                    compare(chk, live, ref, pre + ops)
                    chk.trace()
                    chk.state((pre, ops))
    with chk.scenario("schedules") as on:
        if on:
            ints, tims = (None, 1, 2, 3), (None, 1.0, 1.5)
            n = 5 if T else 4
            for gi, gt, oi, ot in itertools.product(ints, tims, ints, tims):
                for dts in itertools.product((0.25, 0.5, 1.0, 2.0), repeat=n):
                    live, ref = Live(w), Ref(gi, gt)
                    live.tr.set_global_property_frequency(interval=gi, time_interval=gt)
                    live.tr.attach(live.cb("x"), name="x", interval=oi, time_interval=ot)
                    ref.attach("x", oi, ot)
                    chk.note(gi=gi, gt=gt, oi=oi, ot=ot, dts=dts)
                    for dt in dts:
                        apply(("step", dt), live, ref)
                        chk.step()
                    chk.expect(live.fired == ref.fired, "schedule", got=live.fired, want=ref.fired, gi=gi, gt=gt, oi=oi, ot=ot, dts=dts)
                    chk.expect(live.tr.results["time"] == [t for t, _ in ref.rows], "summary schedule",
                               got=live.tr.results["time"], want=ref.rows, gi=gi, gt=gt, dts=dts)
                    chk.trace()
                    chk.state((gi, gt, oi, ot, dts))
    with chk.scenario("max_records") as on:
        if on:
            for m in (1, 2, 3, 5, 7, None):
                for iv in (1, 2, 3):
                    for n in range(0, 14):
                        live, ref = Live(w), Ref()
                        live.tr.attach(live.cb("x"), name="x", interval=iv, max_records=m)
                        ref.attach("x", iv, None, True, m)
                        for _ in range(n):
                            apply(("step", 0.5), live, ref)
                        compare(chk, live, ref, [("max", m, iv, n)])
                        chk.step(n)
                        chk.state((m, iv, n))
    with chk.scenario("many_records") as on:
        if on:
            for m, n in ((None, 2300), (1000, 1100), (1024, 2100)):
                live, ref = Live(w), Ref(1, None)
                live.tr.set_global_property_frequency(interval=1)
                names = ["x"] + (["y%d" % i for i in range(40)] if m == 1000 else [])
                for k, nm in enumerate(names):
                    live.tr.attach(live.cb(nm), name=nm, interval=1 if k == 0 else 50 + k, max_records=m)
                    ref.attach(nm, 1 if k == 0 else 50 + k, None, True, m)
                for _ in range(n):
                    apply(("step", 0.5), live, ref)
                compare(chk, live, ref, [("many", m, n)])
                chk.step(n)
                chk.trace()
                chk.state((m, n))
    # ---- the plan: recipe -> tracker, defaults, independence of runs
    with chk.scenario("plan") as on:
        if on:
            for gi, gt, default in itertools.product((None, 1, 2), (None, 1.0), (None, 1, 3)):
                for names in itertools.chain.from_iterable(itertools.permutations("abe", r) for r in range(4)):
                    for flag in (None, "msd"):
                        plan = PropertyPlan(interval=gi, time_interval=gt, builtin_enabled={flag: False} if flag else None)
                        holder = {}
                        for n in names:
                            def f(state, step, time, n=n):
                                holder["live"].fired.append((n, step, time))
                                return [n, step, time]
                            plan.attach(f, name=n, **SPECS[n])
                        chk.expect(plan.list_attachments() == list(names), "plan attachments", got=plan.list_attachments(), want=names)
                        for rep in range(2):  # a plan can be applied to several trackers
                            live = Live(w, plan, default)
                            holder["live"] = live
                            i2 = default if (gi is None and gt is None and default is not None) else gi
                            ref = Ref(i2, gt)
                            for n in names:
                                ref.attach(n, **SPECS[n])
                            if flag:
                                ref.flags[flag] = False
                            for dt in (0.5, 0.5, 1.0, 0.25, 0.5, 1.0):
                                apply(("step", dt), live, ref)
                                chk.step()
                            chk.note(gi=gi, gt=gt, default=default, names=names, rep=rep)
                            compare(chk, live, ref, [("plan", gi, gt, default, names, rep)])
                            chk.trace()
                            chk.state((gi, gt, default, names, flag, rep))
    with chk.scenario("invalid") as on:
        if on:
            for names in ((), ("a",), ("a", "b")):
                live = Live(w)
                plan = PropertyPlan()
                kmc = w.kmc(Table(), (0, 1, 0, 1, 1))
                for tgt, fr in ((live.tr, live.tr.set_global_property_frequency), (plan, plan.set_frequency), (kmc, kmc.set_property_frequency)):
                    for n in names:
                        tgt.attach(cbname, name=n, **SPECS[n])
                    probe_invalid(chk, tgt, names, fr)
                    chk.state((names, type(tgt).__name__))
                # the rejected global frequencies left the schedule alone
                for _ in range(3):
                    live.go(0.5)
                chk.expect(len(live.tr.results["time"]) == 3, "a rejected frequency changed the schedule", got=live.tr.results["time"])
                for kw in (dict(interval=0), dict(time_interval=-1.0), dict(builtin_enabled={"nope": True})):
                    chk.raises(lambda: PropertyPlan(**kw), "invalid plan accepted", exc=(TypeError, ValueError), kwargs=kw)
    # ---- failures at every firing, every handler
    with chk.scenario("failures") as on:
        if on:
            for handler, iv, other, k in itertools.product(("none", "true", "false", "raises"), (1, 2), ("before", "after"), range(1, 6)):
                live, ref = Live(w), Ref()
                calls = []
                seen = []

                def bad(state, step, time):
                    live.fired.append(("bad", step, time))
                    if sum(1 for x in live.fired if x[0] == "bad") == k:
                        raise KeyError("boom")
                    return ["bad", step, time]

                def on_error(exc, state, step, time):
                    seen.append((type(exc).__name__, state is live.state, step, time))
                    if handler == "raises":
                        raise RuntimeError("handler")
                    return handler == "true"
                good = live.cb("good")
                if other == "before":
                    live.tr.attach(good, name="good", time_interval=1.0)
                    ref.attach("good", None, 1.0)
                live.tr.attach(bad, name="bad", interval=iv, on_error=None if handler == "none" else on_error)
                ref.attach("bad", iv)
                if other == "after":
                    live.tr.attach(good, name="good", time_interval=1.0)
                    ref.attach("good", None, 1.0)
                ref.gi = live_gi = None
                live.tr.set_global_property_frequency(interval=None, time_interval=None)
                stopped = False
                chk.note(handler=handler, interval=iv, failing_firing=k)
                for s in range(8):
                    try:
                        live.go(0.5)
                    except CallbackExecutionError:
                        stopped = True
                        break
                    nb = sum(1 for x in ref.fired if x[0] == "bad")
                    will = Ref.due(live.step, live.state.time, iv, None, None)
                    ref.sample(live.step, float(live.state.time), fails=("bad",) if (will and nb + 1 == k) else ())
                    chk.step()
                fired_bad = 8 // iv >= k
                if fired_bad and handler != "true":
                    chk.expect(stopped, "a failing callback did not stop the run", handler=handler, k=k)
                else:
                    chk.expect(not stopped, "the run stopped although the handler continues", handler=handler, k=k)
                    compare(chk, live, ref, [("fail", handler, iv, other, k)])
                if fired_bad and handler != "none":
                    chk.expect(seen == [("KeyError", True, k * iv, 0.5 * k * iv)], "handler arguments", got=seen)
                chk.trace()
                chk.state((handler, iv, other, k))
    # time-scheduled callback that fails with a continuing handler: the schedule advances
    with chk.scenario("failures_time") as on:
        if on:
            for ti in (1.0, 1.5):
                for fail_at in itertools.product((False, True), repeat=3):
                    live, ref = Live(w), Ref(None, None)
                    live.tr.set_global_property_frequency()
                    cnt = [0]

                    def bad(state, step, time):
                        live.fired.append(("bad", step, time))
                        cnt[0] += 1
                        if cnt[0] <= 3 and fail_at[cnt[0] - 1]:
                            raise ValueError
                        return ["bad", step, time]
                    live.tr.attach(bad, name="bad", time_interval=ti, on_error=lambda *a: True)
                    ref.attach("bad", None, ti)
                    for s in range(10):
                        live.go(0.5)
                        nb = len(ref.fired)
                        ref.sample(live.step, float(live.state.time), fails=("bad",) if nb < 3 and fail_at[nb] else ())
                        chk.step()
                    compare(chk, live, ref, [("failtime", ti, fail_at)])
                    chk.state((ti, fail_at))
    # ---- complete runs: schedules see production steps/times and the post-hop state
    run_part(chk, w, T)


def run_part(chk, w, T):
    L = w.pass_length()
    occ = (0, 1, 0, 1, 1)
    tab = Table(7)

    def draws(n):
        return ([0.11, 0.5, 0.73, 0.25, 0.41, 0.6, 0.9, 0.8] * n)[: 2 * n]

    with chk.scenario("runs") as on:
        if on:
            for neq, npass, t0, s0 in itertools.product((0, 1, 2), (1, 2), (0.0, 1.5), (0, 3)):
                us = draws((neq + npass) * L)
                start, traj = ref_run(w, tab, occ, us, neq * L, npass * L, t0)
                dtm = sum(x[1] for x in traj) / len(traj)
                for gi, gt, oi, ot in itertools.product((None, 1, 4), (None, 2.2 * dtm), (None, 1, 3), (None, 1.4 * dtm)):
                    st = State(occupations=list(occ), time=t0, step=s0)
                    kmc = w.kmc(Table(7), occ, state=st, equilibration_passes=neq, kmc_passes=npass,
                                property_sampling_interval=gi, property_sampling_time_interval=gt)
                    got = []

                    def cb(state, step, time):
                        got.append((step, time, tuple(state.occupations), state.time))
                        return step
                    kmc.attach(cb, name="x", interval=oi, time_interval=ot)
                    with patched_rng(tape(us)):
                        tr = kmc.run(label="c06")
                    ref = Ref(gi if (gi is not None or gt is not None) else L, gt)
                    ref.attach("x", oi, ot)
                    want = []
                    for s, (i, dt, o, t, d) in enumerate(traj):
                        n0 = len(ref.fired)
                        ref.sample(s + 1, t)
                        if len(ref.fired) > n0:
                            want.append((s + 1, t, o, t))
                    chk.note(neq=neq, npass=npass, t0=t0, s0=s0, gi=gi, gt=gt, oi=oi, ot=ot)
                    chk.step(len(traj))
                    chk.trace()
                    chk.state((neq, npass, t0, s0, gi, gt, oi, ot))
                    chk.expect([g[0] for g in got] == [x[0] for x in want], "steps at which the callback ran", got=[g[0] for g in got], want=[x[0] for x in want])
                    chk.expect(all(abs(g[1] - x[1]) <= 1e-12 * x[1] and g[2] == x[2] and g[1] == g[3] for g, x in zip(got, want)),
                               "callback arguments are not the state, step and time after the hop", got=got[:3], want=want[:3])
                    chk.close(tr.results["time"], [t for t, _ in ref.rows], "summary rows of the run", rel=1e-12)
                    chk.expect(recs_of(tr)["x"] == [(g[0], g[1]) for g in got], "stored records of the run")
    # operations issued from inside a run at every production step
    with chk.scenario("during_run") as on:
        if on:
            npass = 2
            us = draws(npass * L)
            n = npass * L
            OPS = ["attach_b", "detach_a", "disable_a", "freq1", "freq3", "disable_msd", "clear", "detach_self"]
            for op1, k1, op2, k2 in itertools.product(OPS, range(1, n), OPS + [None], range(1, n)):
                if op2 is None and k2 > 1 or op2 is not None and k2 < k1:
                    continue
                if not T and op2 is not None and k2 not in (k1, k1 + 1, n - 1):
                    continue
                kmc = w.kmc(Table(7), occ, kmc_passes=npass, property_sampling_interval=2)
                fired = []
                ref = Ref(2, None)
                pend = []

                def rec(name):
                    def f(state, step, time):
                        fired.append((name, step))
                        return [name, step, time]
                    f.__name__ = name
                    return f

                def do(op):
                    if op == "attach_b":
                        if "b" in kmc.list_attachments():
                            return
                        kmc.attach(rec("b"), name="b", interval=1)
                        pend.append(lambda: ref.attach("b", 1))
                    elif op == "detach_a":
                        if "a" in kmc.list_attachments():
                            kmc.detach("a")
                            pend.append(lambda: ref.detach("a"))
                    elif op == "disable_a":
                        if "a" in kmc.list_attachments():
                            kmc.set_property_enabled("a", False)
                            pend.append(lambda: ref.specs["a"].update(on=False))
                    elif op in ("freq1", "freq3"):
                        kmc.set_property_frequency(interval=int(op[-1]))
                        pend.append(lambda: setattr(ref, "gi", int(op[-1])))
                    elif op == "disable_msd":
                        kmc.set_property_enabled("msd", False)
                        pend.append(lambda: ref.flags.update(msd=False))
                    elif op == "clear":
                        kmc.clear_attachments()
                        pend.append(lambda: (ref.specs.clear(), ref.recs.clear()))
                    elif op == "detach_self":
                        if "drv" in kmc.list_attachments():
                            kmc.detach("drv")
                            pend.append(lambda: ref.detach("drv"))

                plan = {}

                first_run = [True]

                def drv(state, step, time):
                    fired.append(("drv", step))
                    if not first_run[0]:
                        return 0
                    if step == k1:
                        do(op1)
                    if op2 is not None and step == k2 and "drv" in kmc.list_attachments():
                        do(op2)
                    plan[step] = list(pend)
                    pend.clear()
                    return 0
                kmc.attach(rec("a"), name="a", interval=2)
                kmc.attach(drv, name="drv", interval=1)
                ref.attach("a", 2)
                ref.attach("drv", 1)
                chk.note(op1=op1, k1=k1, op2=op2, k2=k2)
                with patched_rng(tape(us)):
                    tr = kmc.run(label="c06b")
                times = tr.state.time
                start, traj = ref_run(w, tab, occ, us, 0, n)
                for s, (i, dt, o, t, d) in enumerate(traj):
                    ref.sample(s + 1, t)
                    for fn in plan.get(s + 1, ()):
                        fn()
                chk.step(n)
                chk.trace()
                chk.state((op1, k1, op2, k2))
                want = [(a, b) for a, b, _ in ref.fired]
                if op2 == "clear":  # "b" comes after the clearing callback in that very step: either order is fine
                    fired = [x for x in fired if x != ("b", k2)]
                    want = [x for x in want if x != ("b", k2)]
                chk.expect(fired == want, "callbacks fired during a run with changes", got=fired,
                           want=want, op1=op1, k1=k1, op2=op2, k2=k2)
                chk.close(tr.results["time"], [t for t, _ in ref.rows], "summary rows", rel=1e-12, op1=op1, k1=k1, op2=op2, k2=k2)
                got = {k: [s for s, _ in v] for k, v in recs_of(tr).items()}
                want = {k: [s for s, _ in v] for k, v in ref.recs.items()}
                chk.expect(got == want, "records after a run with changes", got=got, want=want, op1=op1, k1=k1, op2=op2, k2=k2)
                for j, (t, fl) in enumerate(ref.rows):
                    v = tr.results["msd"][j]
                    chk.expect((v != v) == (not fl["msd"]), "built-in enablement during a run", row=j, op1=op1, k1=k1)
                if op2 is not None and k2 != k1:
                    continue
                # what was changed during the run holds for the next run as well
                first_run[0] = False
                del fired[:]
                ref2 = Ref(ref.gi, None)
                ref2.flags = dict(ref.flags)
                for name, s in ref.specs.items():
                    ref2.attach(name, s["i"], s["t"], s["store"], s["m"], s["on"])
                with patched_rng(tape(us)):
                    tr = kmc.run(label="c06b")
                for s in range(n):
                    ref2.sample(s + 1, None)
                want = [(a, b) for a, b, _ in ref2.fired]
                chk.step(n)
                chk.expect(fired == want, "callbacks fired in the run after a run with changes", got=fired, want=want, op1=op1, k1=k1, op2=op2)
                chk.expect(len(tr.results["time"]) == len(ref2.rows) and all((v != v) == (not ref2.flags["msd"]) for v in tr.results["msd"]),
                           "summary rows of the run after a run with changes", got=tr.results["msd"], want=len(ref2.rows), op1=op1, op2=op2)
    # one callback detaches another one that is due later in the same step
    with chk.scenario("detach_later") as on:
        if on:
            for k in range(1, 8):
                for how in ("detach", "clear"):
                    kmc = w.kmc(Table(7), occ, kmc_passes=2)
                    ran = []

                    def first(state, step, time):
                        if step == k:
                            kmc.detach("second") if how == "detach" else kmc.clear_attachments()
                        return step

                    def second(state, step, time):
                        ran.append(step)
                        return step
                    kmc.attach(first, name="first", interval=1)
                    kmc.attach(second, name="second", interval=1)
                    with patched_rng(tape(draws(2 * L))):
                        tr = kmc.run(label="c06c")
                    chk.step(2 * L)
                    chk.state((k, how))
                    chk.expect([s for s in ran if s != k] == list(range(1, k)), "a detached callback kept running", ran=ran, k=k)
                    chk.expect("second" not in tr.get_property_records(), "a detached callback left records")
    # changes after a run affect the next run only
    with chk.scenario("between_runs") as on:
        if on:
            OPS = [lambda k: k.detach("a"), lambda k: k.clear_attachments(), lambda k: k.attach(cbname, name="z", interval=1),
                   lambda k: k.set_property_enabled("a", False), lambda k: k.set_property_frequency(interval=1),
                   lambda k: k.set_property_enabled("msd", False)]
            for j, op in enumerate(OPS):
                kmc = w.kmc(Table(7), occ, kmc_passes=1)

                def a(state, step, time):
                    return ["a", step, time]
                kmc.attach(a, name="a", interval=2)
                with patched_rng(tape(draws(L))):
                    t1 = kmc.run(label="c06d")
                r1, rows1 = t1.get_property_records(), {k: list(v) for k, v in t1.results.items()}
                chk.expect([x["step"] for x in r1["a"]] == [s for s in range(1, L + 1) if s % 2 == 0], "first run", got=r1)
                op(kmc)
                chk.expect(t1.get_property_records() == r1, "a change after a run altered its records", op=j, before=r1, after=t1.get_property_records())
                chk.equal({k: list(v) for k, v in t1.results.items()}, rows1, "a change after a run altered its summary", op=j)
                with patched_rng(tape(draws(L))):
                    t2 = kmc.run(label="c06d")
                chk.expect(t1.get_property_records() == r1, "a second run altered the first run's records", op=j)
                got = {k: [x["step"] for x in v] for k, v in t2.get_property_records().items()}
                ev = [s for s in range(1, L + 1) if s % 2 == 0]
                want = [{}, {}, {"a": ev, "z": list(range(1, L + 1))}, {"a": []}, {"a": list(range(1, L + 1))}, {"a": ev}][j]
                # own interval 2 still applies when only the global frequency changes
                if j == 4:
                    want = {"a": ev}
                chk.expect(got == want, "second run after a change", op=j, got=got, want=want)
                nrow = L if j == 4 else 1
                chk.expect(len(t2.results["time"]) == nrow, "summary rows of the second run", op=j, got=t2.results["time"])
                chk.expect((t2.results["msd"][0] != t2.results["msd"][0]) == (j == 5), "built-in enablement in the second run", op=j)
                chk.state(("between", j))
                chk.step(2 * L)
    # configuration-driven registration is the same thing as attach()
    with chk.scenario("config") as on:
        if on:
            refs = ["mc.cbs:occ_code", "mc.cbs.clock", "mc.cbs:Box.inner"]
            for r, iv, ti, store, mx, en in itertools.product(refs, (None, 1, 2), (None, 1e-3), (True, False), (None, 1), (True, False)):
                spec = {"callable": r, "name": "p"}
                if iv is not None:
                    spec["interval"] = iv
                if ti is not None:
                    spec["time_interval"] = ti
                if mx is not None:
                    spec["max_records"] = mx
                spec["store"] = store
                spec["enabled"] = en
                kmc = w.kmc(Table(7), occ, kmc_passes=1, property_callbacks=[spec], builtin_property_enabled={"conductivity": False})
                with patched_rng(tape(draws(L))):
                    tr = kmc.run(label="c06e")
                ref = Ref(L, None)
                ref.attach("p", iv, ti, store, mx, en)
                start, traj = ref_run(w, tab, occ, draws(L), 0, L)
                for s, (i, dt, o, t, d) in enumerate(traj):
                    ref.sample(s + 1, t)
                got = {k: [x["step"] for x in v] for k, v in tr.get_property_records().items()}
                want = {"p": [s for s, _ in ref.recs["p"]]}
                chk.note(spec=spec)
                chk.step(L)
                chk.state((r, iv, ti, store, mx, en))
                chk.expect(got == want, "records of a configured callback", got=got, want=want, spec=spec)
                chk.expect(all(v != v for v in tr.results["conductivity"]), "configured built-in enablement")
                chk.expect(all(v == v for v in tr.results["msd"]), "configured built-in enablement of others")
            for bad in ("mc.cbs:nope", "mc.nope:f", "occ_code", "mc.cbs:not_callable"):
                chk.raises(lambda: w.kmc(Table(7), occ, property_callbacks=[{"callable": bad}]), "unresolvable callback accepted", ref=bad)
