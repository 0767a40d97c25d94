"""Q04: every scheduled acquisition fires once, on time, into a bin of its own."""
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, qacq, qtm

LEVEL = "exploration"
RULE = ("A case is a random schedule with acquisitions (integrated, thresholded, weighted, trace, trigger count; appended, averaged, summed and distributed; loops, nested and repeated sub-schedules, pulses and clock "
        "operations around them) compiled for random readout modules and executed; every acquisition instruction that runs is matched with the scheduled ones by time, and its bin, weights, integration length, "
        "threshold and gate are compared. Non-trivial: at least two acquisitions; distinct by schedule and hardware description.")
ASSUMPTIONS = ["WeightedThresholdedAcquisition rotates by 315 degrees, as its documentation states", "the hardware acquisition mapping of the compiled schedule is what the data retrieval uses", "acquisitions of one sequencer are at least 300 ns apart"]
MINIMUM = {"loop-of-acq": 25, "long-acqs": 25, "acquisitions": 8000, "append": 1000, "average": 1000, "ttl": 200, "weighted": 300, "threshold": 200, "trace": 10, "distribution": 40, "loops": 100, "in-loop": 500, "explicit": 100, "repetitions": 300, "bins": 3000, "sum": 100, "timetags": 1500, "fine-delay": 100, "scope": 200}

def jobs(tier, seed):
    n = 700 if tier == "quick" else 40000
    return [dict(i=i, seed=seed, kind="qtm" if i % 4 == 3 else "analog") for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def make(job):
    r = rng_for("Q04", job["seed"], job["i"])
    while True:
        out = make1(r)
        tr = [n["acq"] for _, n, _ in qacq.walk(out[-1]) if n["c"] == "Trace"]
        if len(set(tr)) == len(tr): return out      # a trace channel may be used once

def make1(r):
    while True:
        rig = qb.make_rig(r, mtypes=[r.choice(["QRM", "QRM", "QRM_RF", "QRC"]) for _ in range(r.randint(1, 2))] + r.choice([[], ["QCM"]]))
        if any(c["inp"] for c in rig["chans"]): break
    if r.random() < 0.06:
        plan = qacq.Plan(r, rig, modes=("square", "ttl"), long=qtm.LONG)
        g = qtm.Gen(r, rig, {"acq"} | {f for f in ("loops", "nested", "share") if r.random() < 0.5}, total=r.choice([400000, 1000000]), acqs=plan.op); g.plan = plan; g.c("long-acqs")
        top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.choice([1, 2, 3]))
        qacq.set_explicit(top, plan, r)
        return r, rig, g, top
    plan = qacq.Plan(r, rig)
    feat = {"pulses", "acq"} | {f for f in ("loops", "nested", "long", "offsets", "share") if r.random() < 0.5}
    if r.random() < 0.3 and not any(s["mode"] == "ttl" for s in plan.seq.values()): feat.add("clk")
    g = qb.Gen(r, rig, feat, total=r.choice([3000, 6000, 15000]), acqs=plan.op)
    top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.choice([1, 1, 2, 3, 5]))
    qacq.set_explicit(top, plan, r)
    return r, rig, g, top

def run_job(job, mon):
    if job.get("kind") == "qtm": rig, _, g, top = qtm.make(rng_for("Q04qtm", job["seed"], job["i"]))
    else: r, rig, g, top = make(job)
    for k in ("loops", "nested", "loop-of-acq", "long-acqs"): mon.count(k, g.counts.get(k, 0))
    judge(rig, top, mon)

def judge(rig, top, mon):
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    D = int(S.duration(top)); reps = top["reps"]
    chans, first = qacq.number(top)
    amap, extra = qb.assign(comp, rig)
    ex = sorted(qacq.executed(top), key=lambda x: x[0])
    want = {}
    for t, n, sp, lin in ex: want.setdefault(n["ch"], []).append((int(t), n, sp, lin))
    if set(want) - set(amap): raise Violation("acquisition-not-compiled", [rig["chans"][i].pc for i in set(want) - set(amap)])
    for i, (slot, seq, st) in amap.items():
        c = rig["chans"][i]; run = q1sim.run(st.sequence)
        bad = [m for m in run.limits if "bin" in m or "acquisition" in m or "weight" in m]
        if bad: raise Violation("undeclared-bin", f"{c.pc}: {bad}\n{st.sequence['acquisitions']}\n" + st.sequence["program"][-2000:])
        if len(run.reps) != reps: raise Violation("repetitions", f"{c.pc}: {len(run.reps)}")
        over = int((run.end - run.reps[0]) / reps - D)
        evs = [e for e in run.events if e.kind.startswith("acquire")]
        starts = [e for e in evs if not (e.kind in ("acquire_ttl", "acquire_timetags") and e.arg[2] == 0)]
        stops = [e for e in evs if e.kind in ("acquire_ttl", "acquire_timetags") and e.arg[2] == 0]
        exp = []
        for k, t0 in enumerate(run.reps):
            mon.count("repetitions")
            for t, n, sp, lin in want.get(i, []): exp.append((t0 + over + t, n, sp, lin, k))
        got_t, exp_t = [e.t for e in starts], [x[0] for x in exp]
        if got_t != exp_t:
            d = sorted(set(got_t) ^ set(exp_t))[:4]
            raise Violation("acquisition-times", f"{c.pc}: {len(got_t)} acquisitions triggered, {len(exp_t)} scheduled; first differences at {d} (repetition starts {run.reps[:3]} + {over})\n" + st.sequence["program"][-2500:])
        mapping = comp.compiled_instructions["cluster0"][f"cluster0_module{slot}"].get("acq_hardware_mapping", {}).get(seq, {})
        wts = {w["index"]: np.asarray(w["data"], float) for w in (st.sequence.get("weights") or {}).values()}
        owner = {}
        for e, (t, n, sp, lin, k) in zip(starts, exp):
            name = n["kw"]["acq_channel"]; bm = n["kw"]["bin_mode"]; proto = n["c"]
            mon.count("acquisitions"); mon.count(bm)
            if n["kw"].get("acq_index") is not None: mon.count("explicit")
            if name not in mapping: raise Violation("channel-not-mapped", f"{name}: {mapping}")
            hw, b = e.arg[0], e.arg[1]; m = mapping[name]
            if proto == "Trace" or bm == "distribution":
                if hw != m: raise Violation("wrong-hardware-index", f"{c.pc} {name}: {hw} instead of {m}")
                mon.count("trace" if proto == "Trace" else "distribution"); key = (name,)
            else:
                idx = first[sp] + (lin if bm == "append" else 0)
                if lin: mon.count("in-loop")
                if idx not in m: raise Violation("index-not-mapped", f"{c.pc} {name}[{idx}]: {m}")
                x = m[idx]
                wb = x.bin + (k * x.stride if bm == "append" else 0)
                if (hw, b) != (x.index, wb): raise Violation("wrong-bin", f"{c.pc} {name}[{idx}] repetition {k} t={t}: stored in acquisition {hw} bin {b}, data is read from acquisition {x.index} bin {wb} (stride {x.stride})\n" + st.sequence["program"][-2500:])
                key = (name, idx, k) if bm == "append" else (name, idx)
            if owner.setdefault((hw, b), key) != key: raise Violation("bin-shared", f"{c.pc}: acquisition {hw} bin {b} holds {owner[(hw, b)]} and {key}")
            # what is acquired
            kind = {"acquire": "square", "acquire_weighed": "weighted", "acquire_ttl": "ttl", "acquire_timetags": "timetags"}.get(e.kind, e.kind)
            wk = "timetags" if c["mtype"] == "QTM" else "weighted" if proto in qacq.WEIGHTED else "ttl" if proto == "TriggerCount" else "square"
            if kind != wk: raise Violation("acquisition-kind", f"{proto}: {e.kind}")
            if wk not in ("ttl", "timetags") and st.integration_length_acq != n["dur"] and proto != "Trace": raise Violation("integration-length", f"{c.pc} {proto}: {st.integration_length_acq}, scheduled {n['dur']}")
            if wk == "weighted":
                mon.count("weighted")
                for which, x in (("weights_a", e.arg[2]), ("weights_b", e.arg[3])):
                    ref = qacq.weight(n["kw"][which], n["kw"]["weights_sampling_rate"], n["dur"]).real
                    if len(wts[x]) != len(ref) or np.abs(wts[x] - ref).max() > 1e-4: raise Violation("weights", f"{c.pc} {name} {which}: {wts[x][:6]}.. ({len(wts[x])} samples) instead of {ref[:6]}.. ({len(ref)})")
            if wk == "timetags":
                mon.count("timetags")
                fine = round(n["kw"].get("fine_start_delay", 0) * 128e9)
                if e.arg[3] != fine: raise Violation("fine-delay", f"{c.pc} {name}: gate opens with {e.arg[3]}/128 ns, scheduled {fine}/128 ns")
                if fine: mon.count("fine-delay")
                scope = proto in ("Trace", "TimetagTrace")
                if bool(e.st.scope) != scope: raise Violation("scope-window", f"{c.pc} {name} ({proto}): scope recording {'on' if e.st.scope else 'off'}")
                if scope: mon.count("scope")
                if proto == "Trace" and st.trace_acq_duration != n["dur"]: raise Violation("trace-length", f"{c.pc} {name}: {st.trace_acq_duration} ns, scheduled {n['dur']}")
                if proto == "Timetag" and (str(getattr(st.time_source, "value", st.time_source)), str(getattr(st.time_ref, "value", st.time_ref))) != (n["kw"]["time_source"], n["kw"]["time_ref"]): raise Violation("timetag-settings", f"{c.pc}: {st.time_source} {st.time_ref}, scheduled {n['kw']}")
            elif "Thresholded" in proto:
                mon.count("threshold")
                rot, thr = n["kw"].get("acq_rotation", 315), n["kw"]["acq_threshold"]
                if abs(st.thresholded_acq_rotation - rot) > 1e-9 or abs(st.thresholded_acq_threshold - thr * n["dur"]) > 1e-6:
                    raise Violation("threshold", f"{c.pc}: rotation {st.thresholded_acq_rotation} threshold {st.thresholded_acq_threshold}, scheduled {rot} and {thr} x {n['dur']}")
            if wk == "ttl":
                mon.count("ttl")
                if st.ttl_acq_input_select != int(c["inp"][-1]): raise Violation("ttl-input", f"{c.pc}: {st.ttl_acq_input_select}, connected {c['inp']}")
                if bool(st.ttl_acq_auto_bin_incr_en) != (bm == "distribution"): raise Violation("ttl-auto-increment", f"{c.pc} {bm}: {st.ttl_acq_auto_bin_incr_en}")
        mon.count("bins", len(owner))
        ttl = [(e, x) for e, x in zip(starts, exp) if e.kind in ("acquire_ttl", "acquire_timetags")]
        if len(ttl) != len(stops): raise Violation("gate", f"{len(ttl)} gates opened, {len(stops)} closed")
        for (e, x), f in zip(ttl, stops):
            if f.t != e.t + x[1]["dur"] - 4 or f.arg[:2] != e.arg[:2]: raise Violation("gate", f"{c.pc}: gate opened at {e.t} in {e.arg} closed at {f.t} in {f.arg}, duration {x[1]['dur']}\n" + st.sequence["program"][-2500:])
            if c["mtype"] == "QTM" and f.arg[3] != round(x[1]["kw"].get("fine_end_delay", 0) * 128e9): raise Violation("fine-delay", f"{c.pc} {x[1]['acq']}: gate closes with {f.arg[3]}/128 ns, scheduled {x[1]['kw']}")
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), len(ex) >= 2)
