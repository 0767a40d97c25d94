"""S03: operations with different content are never conflated."""
import copy, pickle
from rtmon.core import rng_for, Violation
from rtmon import catalog as C, dev

LEVEL = "exploration"
RULE = ("A case is a pair of operations (equal parameters created in different ways, or exactly one execution-relevant parameter changed, including close values, -1 against -2, permuted lists and nested contents) "
        "observed through ==, hash and inside schedules; or a schedule of many near-duplicates followed through adding, modifying copies and compiling. Non-trivial: the two parameter sets differ or were built "
        "independently; distinct by class, parameter and values.")
ASSUMPTIONS = ["distinctness of 64-bit hashes is observed, not proven"]
MINIMUM = {"equal_pairs": 500, "changed_pairs": 1500, "schedules": 40, "schedulable_content": 600, "compiled_content": 200, "modifications": 100, "classes": 45}

def jobs(tier, seed):
    n = 6 if tier == "quick" else 60
    m = 60 if tier == "quick" else 800
    return ([dict(kind="pairs", cls=c, i=i, seed=seed) for c in C.CAT for i in range(n)] + [dict(kind="sched", i=i, seed=seed) for i in range(m)]
            + [dict(kind="alias", i=i, seed=seed) for i in range(m)])

def cleanup_job(): dev.close_all()

def pairs(job, mon):
    cls = job["cls"]; r = rng_for("s03", job["seed"], cls, job["i"])
    if job["i"] == 0: mon.count("classes")
    for _ in range(4):
        kw = C.random_kwargs(cls, r)
        a, b = C.make(cls, kw), C.make(cls, kw)
        for how, x in (("rebuilt", b), ("deepcopy", copy.deepcopy(a)), ("pickle", pickle.loads(pickle.dumps(a)))):
            mon.count("equal_pairs"); mon.case((cls, how, repr(kw)))
            if not (a == x and hash(a) == hash(x) and a.hash == x.hash): mon.fail("equal-operations-differ", (cls, how, kw))
        for p in C.CAT[cls]:
            for _ in range(3):
                kw2 = copy.deepcopy(kw); kw2[p] = C.cother(C.CAT[cls][p], r, kw[p])
                try: kw2 = C.fix(cls, kw2)
                except Exception: continue
                if C.same(kw2[p], kw[p]): continue
                try: c = C.make(cls, kw2)
                except (NotImplementedError, ValueError): continue
                mon.count("changed_pairs"); mon.case((cls, p, repr(kw[p]), repr(kw2[p])))
                if a == c or a.hash == c.hash: mon.fail("different-operations-equal", (cls, p, kw[p], kw2[p], kw))
                if not (a == b): mon.fail("equality-changed", (cls, p, kw))

PULSES = ["ShiftClockPhase", "VoltageOffset", "RampPulse", "SquarePulse", "ChirpPulse", "DRAGPulse", "GaussPulse", "NumericalPulse", "SoftSquarePulse", "SSBIntegrationComplex", "Trace", "IdlePulse", "StaircasePulse",
          "SuddenNetZeroPulse", "SkewedHermitePulse"]
def canon(o):
    """Content of an operation, independent of the library's own hashing."""
    import numpy as np
    if isinstance(o, type): return repr(o)
    if isinstance(o, np.generic): o = o.item()
    if isinstance(o, (int, float, complex)): return repr(complex(o) + 0)
    if hasattr(o, "program"): return [o.program, o.duration, o.port, o.clock, canon(o.waveforms), o.safe_labels]
    if isinstance(o, dict): return {k: canon(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [canon(v) for v in o]
    if isinstance(o, np.ndarray): return canon(o.tolist())
    if hasattr(o, "schedulables"):
        return ["sched"] + [[canon(o.operations[x["operation_id"]]), repr([(t.ref_pt, t.ref_pt_new, t.rel_time) for t in x["timing_constraints"]])] for x in o.schedulables.values()]
    if hasattr(o, "data"): return {k: canon(v) for k, v in o.data.items()}
    return repr(o)

def sched(job, mon):
    from quantify_scheduler import Schedule, SerialCompiler
    r = rng_for("s03s", job["seed"], job["i"])
    dev_ops = job["i"] % 2 == 0
    pool = PULSES if dev_ops else [c for c in C.CAT if c not in ("PulseCompensation",)]
    want = {}; s = Schedule("s"); fam = r.sample(pool, r.randint(1, 4)); base = {c: C.random_kwargs(c, r) for c in fam}
    if dev_ops:
        from quantify_scheduler.resources import ClockResource
        s.add_resources([ClockResource(c, 5e9) for c in ("q0.01", "q0.ro", "q1.01", "q0.12")])
    ops = []; chan = 0
    def new():
        nonlocal chan
        if ops and r.random() < 0.25:  # the same content again
            cls, kw = r.choice(ops)
        else:
            cls = r.choice(fam); kw = copy.deepcopy(base[cls]); p = r.choice(list(C.CAT[cls])); kw[p] = C.cother(C.CAT[cls][p], r, kw[p]); C.fix(cls, kw)
            if dev_ops and "acq_channel" in kw: chan += 1; kw.update(acq_channel=f"c{chan}", acq_index=None, coords=None)
            if cls == "Trace" and dev_ops: kw["bin_mode"] = "average"
        op = C.make(cls, kw)
        if not (dev_ops and "acq_channel" in kw): ops.append((cls, kw))
        return op
    n = r.randint(8, 25)
    for j in range(n):
        try: op = new()
        except (NotImplementedError, ValueError): continue
        w = canon(op)
        if r.random() < 0.3:
            sub = Schedule("sub")
            if dev_ops: pass
            for _ in range(r.randint(1, 3)):
                try: o2 = new()
                except (NotImplementedError, ValueError): continue
                sub.add(o2)
            if len(sub.schedulables): op = sub; w = canon(sub)
        want[f"l{j}"] = w
        s.add(op, label=f"l{j}")
        # a modified copy of an operation that is already in the schedule
        if r.random() < 0.3 and not hasattr(op, "schedulables") and op.data["pulse_info"] and "amp" in op.data["pulse_info"][0]:
            c = copy.deepcopy(op); c.data["pulse_info"][0]["amp"] = 0.0123 * r.randint(1, 3); mon.count("modifications")
            want[f"m{j}"] = canon(c); s.add(c, label=f"m{j}")
    if not want: return
    mon.count("schedules"); mon.case(("sched", repr(want)))
    def verify(sc, when):
        for l, w in want.items():
            got = canon(sc.operations[sc.schedulables[l]["operation_id"]]); mon.count("schedulable_content")
            if got != w: mon.fail("operation-conflated", (when, l, got, w)); return False
        return True
    verify(s, "added")
    s2 = copy.deepcopy(s); verify(s2, "deepcopy")
    s3 = Schedule.from_json(s.to_json()) if job["i"] % 3 == 0 and dev_ops else None
    if dev_ops:
        from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
        qd = QuantumDevice("qd")
        cs = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        verify(s, "compiled original")
        for l, w in want.items():
            o = cs.operations[cs.schedulables[l]["operation_id"]]; mon.count("compiled_content")
            def strip(x):
                if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("clock", "acq_index", "acq_channel", "acq_channel_internal", "coords", "duration")}
                if isinstance(x, list) and x and x[0] == "sched": return ["sched"] + [strip(v[0]) for v in x[1:]]
                if isinstance(x, list): return [strip(v) for v in x]
                return x
            if strip(canon(o)) != strip(w): mon.fail("compiled-operation-conflated", (l, strip(canon(o)), strip(w))); break

def alias(job, mon):
    """Changing one operation object must leave independently created ones alone."""
    from quantify_scheduler import Schedule
    r = rng_for("s03a", job["seed"], job["i"])
    live = []
    for j in range(r.randint(4, 8)):
        cls = r.choice(["SquarePulse", "X", "X90", "Rxy", "Measure", "SSBIntegrationComplex", "Reset", "CZ", "VoltageOffset", "ShiftClockPhase", "NumericalPulse", "ThresholdedAcquisition", "Rz", "H", "IdlePulse"])
        kw = C.random_kwargs(cls, r); live.append([C.make(cls, kw), cls, kw])
    scheds = []
    for k in range(2):
        s = Schedule(f"s{k}")
        for o, *_ in live: s.add(copy.deepcopy(o))
        scheds.append(s)
    state = lambda: [canon(o) for o, *_ in live]
    sst = [canon(s) for s in scheds]
    for step in range(6):
        before = state(); i = r.randrange(len(live)); o = live[i][0]; kind = r.randrange(5)
        touched = {i}
        if kind == 0:
            j = r.randrange(len(live))
            if live[j][0].data["pulse_info"] and j != i: o.add_pulse(live[j][0])
        elif kind == 1:
            j = r.randrange(len(live))
            if live[j][0].data["acquisition_info"] and j != i: o.add_acquisition(live[j][0])
        elif kind == 2:
            for pi in o.data["pulse_info"]: pi["amp"] = 0.01 * step + 0.005; pi["t0"] = 4e-9 * step
            for pi in o.data["acquisition_info"]: pi["duration"] = 4e-9 * (step + 1)
        elif kind == 3:
            if o.data["gate_info"]: o.data["gate_info"].setdefault("device_overrides", {})["x%d" % step] = step; o.data["gate_info"]["device_elements"].append("zz")
        else:
            j = r.randrange(len(live))
            if live[j][0].data["gate_info"] and j != i: o.add_gate_info(live[j][0])
        after = state(); mon.count("modifications"); mon.case(("alias", repr(before), i, kind))
        for j in range(len(live)):
            if j not in touched and after[j] != before[j]: mon.fail("other-operation-changed", (kind, live[i][1], live[j][1], before[j], after[j]))
        if [canon(s) for s in scheds] != sst: mon.fail("schedule-changed", (kind, live[i][1]))
    # fresh operations are unaffected by what was done to earlier instances
    for o, cls, kw in live:
        a, b = C.make(cls, kw), C.make(cls, kw)
        if canon(a) != canon(b): mon.fail("fresh-operation-differs", cls)
        if "zz" in repr(canon(a)) or "'x1'" in repr(canon(a)): mon.fail("fresh-operation-polluted", (cls, canon(a)))

def run_job(job, mon):
    globals()[job["kind"]](job, mon)
