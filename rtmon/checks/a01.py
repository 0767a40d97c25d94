"""A01: the acquisition description of a compiled schedule lists exactly its acquisitions; contradictory channels are refused."""
import copy
from rtmon.core import rng_for, Violation, Skip
from rtmon import spec as S, qb, qacq

LEVEL = "exploration"
RULE = ("A case is a random schedule with acquisitions (all binned protocols, traces, trigger counts; several ports per channel, loops, nested and re-used sub-schedules, explicit and automatic indices, coordinates) "
        "compiled and compared with an independent enumeration of its acquisitions, or such a schedule with one contradiction planted (mixed protocol, mixed bin mode, second trace, wrong explicit index) that must be "
        "refused. Non-trivial: at least three acquisition indices or a refusal; distinct by schedule.")
ASSUMPTIONS = ["the acquisitions of a sub-schedule are numbered where the sub-schedule starts, those of a loop acquisition by acquisition with all its iterations together", "explicit indices of appended acquisitions are recorded, not checked (as the code documents)"]
MINIMUM = {"channels": 1000, "indices": 5000, "explicit": 800, "loop-indices": 120, "coords": 800, "shared-channel": 60, "trace": 30, "distribution": 8, "refused mixed-protocol": 20, "refused mixed-bin-mode": 30, "refused second-trace": 2, "refused explicit-index": 20}

def jobs(tier, seed):
    n = 900 if tier == "quick" else 40000
    return [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def make(job, pid="A01", pool=None, **kw):
    r = rng_for(pid, job["seed"], job["i"])
    while True:
        rig = qb.make_rig(r, pool=pool, **kw, mtypes=[r.choice(["QRM", "QRM", "QRM_RF", "QRC"]) for _ in range(r.randint(1, 2))])
        if not any(c["inp"] for c in rig["chans"]): continue
        plan = qacq.Plan(r, rig, shared=0.35)
        g = qb.Gen(r, rig, {"acq"} | {f for f in ("loops", "nested", "share") if r.random() < 0.6}, total=r.choice([3000, 8000, 15000]), acqs=plan.op)
        top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.choice([1, 1, 2, 5]))
        tr = [n["acq"] for _, n, _ in qacq.walk(top) if n["c"] == "Trace"]
        if len(set(tr)) == len(tr): break
    qacq.set_explicit(top, plan, r)
    return r, rig, plan, top

def contradict(r, top):
    """Plant one contradiction; returns (kind, schedule) or None."""
    top = copy.deepcopy(top)
    stat = list(qacq.walk(top)); by = {}
    for _, n, _ in stat: by.setdefault(n["acq"], []).append(n)
    kinds = ["mixed-protocol", "mixed-bin-mode", "second-trace", "explicit-index"]; r.shuffle(kinds)
    for kind in kinds:
        cand = []
        for name, ns in by.items():
            uniq = list({id(n): n for n in ns}.values()); n0 = uniq[0]
            if kind == "mixed-protocol" and len(uniq) > 1 and n0["c"] in qacq.SQUARE: cand += uniq
            if kind == "mixed-bin-mode" and len(uniq) > 1 and (n0["c"] in qacq.SQUARE + qacq.WEIGHTED): cand += uniq
            if kind == "second-trace" and n0["c"] == "Trace": cand += uniq
            if kind == "explicit-index" and n0["kw"]["bin_mode"] == "average" and n0["c"] != "Trace": cand += [n for n in uniq if n["kw"].get("acq_index") is not None and sum(m is n for m in ns) == 1]
        if not cand: continue
        n = r.choice(cand); kw = n["kw"]
        if kind == "mixed-protocol":
            if n["c"] == "SSBIntegrationComplex":
                th = [m for m in (x[1] for x in stat) if m["c"] == "ThresholdedAcquisition" and m["ch"] == n["ch"]]
                n["c"] = "ThresholdedAcquisition"; kw["acq_rotation"], kw["acq_threshold"] = (th[0]["kw"]["acq_rotation"], th[0]["kw"]["acq_threshold"]) if th else (0, 0)
            else:
                n["c"] = "SSBIntegrationComplex"; kw.pop("acq_rotation"); kw.pop("acq_threshold")
        elif kind == "mixed-bin-mode": kw["bin_mode"] = "append" if kw["bin_mode"] == "average" else "average"; kw.pop("acq_index", None)
        elif kind == "second-trace":
            end = int(S.duration(top)) + 1000
            top["items"].append(S.ITEM(copy.deepcopy(n), [S.CON(rel=end)]))
        else: kw["acq_index"] += r.choice([1, 2, 5, -1] if kw["acq_index"] else [1, 2, 5])
        return kind, top
    return None

def run_job(job, mon):
    r, rig, plan, top = make(job)
    if r.random() < 0.3:
        bad = contradict(r, top)
        if bad is None: raise Skip("nothing to contradict")
        kind, b = bad
        try: comp = qb.compile_schedule(S.build(b), qb.config(rig))
        except Exception: mon.count(f"refused {kind}"); mon.case(repr(S.describe(b)), True); return
        raise Violation("contradiction-accepted", f"{kind}: {comp.compiled_instructions['cluster0']['acq_channels_data']}\n{S.describe(b)}")
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    got = comp.compiled_instructions.get("cluster0", {}).get("acq_channels_data", {})
    chans, first = qacq.number(top)
    if set(got) != set(chans): raise Violation("channels", f"described {sorted(map(str, got))}, scheduled {sorted(map(str, chans))}")
    ports = {}
    for _, n, loops in qacq.walk(top): ports.setdefault(n["acq"], set()).add(n["ch"])
    dims = set(); tot = 0
    for name, want in chans.items():
        d = got[name]; mon.count("channels")
        if str(getattr(d.bin_mode, "value", d.bin_mode)) != want["bm"] or d.protocol != want["proto"]: raise Violation("protocol-or-bin-mode", f"{name}: {d.protocol}/{d.bin_mode}, scheduled {want['proto']}/{want['bm']}")
        if str(name) not in d.acq_index_dim_name or d.acq_index_dim_name in dims: raise Violation("dimension-name", f"{name}: {d.acq_index_dim_name}")
        dims.add(d.acq_index_dim_name)
        if want["proto"] == "Trace" or want["bm"] == "distribution":
            mon.count("trace" if want["proto"] == "Trace" else "distribution")
            ok = [dict(n["kw"].get("coords") or {}) for _, n, _ in qacq.walk(top) if n["acq"] == name]
            if dict(d.coords) not in ok: raise Violation("coords", f"{name}: {d.coords} not among {ok}")
            continue
        w, g = want["coords"], list(d.coords)
        mon.count("indices", len(w)); tot += len(w)
        mon.count("loop-indices", sum(f"loop_repetition_{name}" in c for c in w)); mon.count("explicit", sum(f"acq_index_legacy_{name}" in c for c in w)); mon.count("coords", sum(f"x{name}" in c for c in w))
        if len(ports[name]) > 1: mon.count("shared-channel")
        if len(g) != len(w): raise Violation("number-of-indices", f"{name} ({want['bm']}): {len(g)} entries, {len(w)} acquisitions\n{g}\n{w}")
        for i, (a, b) in enumerate(zip(g, w)):
            if dict(a) != b: raise Violation("coords", f"{name}[{i}] ({want['bm']}): {a}, scheduled {b}\nall {g}\nscheduled {w}")
    mon.case(repr(S.describe(top)), tot >= 3)
