"""Q05: the returned dataset holds, at every label, the value of the acquisition that carries the label."""
import math
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, qacq, qic, qtm
from rtmon.checks import a01

LEVEL = "exploration"
RULE = ("A case is a random schedule with acquisitions compiled for random readout modules; every hardware acquisition that the programs fire deposits its own random raw value in the bin it addresses in the vendor's "
        "dummy cluster, the instrument coordinator prepares, starts and retrieves, and the dataset is compared label by label with the values of the scheduled acquisitions (two rounds with different data). "
        "Non-trivial: at least three values; distinct by schedule.")
ASSUMPTIONS = ["the vendor's dummy cluster returns stored bin data as the instrument does", "conversion per protocol as documented: integrated values divided by the integration length for SSBIntegrationComplex, I + iQ for separated and I + Q for plain weighted integration, 0/1 (-1 when invalid) for thresholded, counts for trigger counts"]
MINIMUM = {"values": 6000, "datasets": 400, "append": 500, "average": 500, "loop-values": 200, "coords": 1000, "trace": 30, "distribution": 8, "thresholded": 800, "shared-channel": 40, "multi-module": 60, "invalid": 20, "sum": 30, "qtm-values": 1000, "timetag-traces": 100, "qtm-thresholded": 60, "timetag": 200}

THROUGH = lambda comp: comp      # (replaced by other checks that put the compiled schedule through something first)

def jobs(tier, seed):
    n = 400 if tier == "quick" else 16000
    return [dict(i=0, seed=seed, kind="timetag-trace-in-loop")] + [dict(i=i, seed=seed, kind="qtm" if i % 4 == 3 else "analog") for i in range(n)]

def make(job):
    return a01.make(job, "Q05", {k: v for k, v in qic.SLOTS.items() if k in ("QRM", "QRM_RF", "QRC")}, lo_ok=False)

def raw(r, proto):
    """One hardware result: I, Q (multiples of the resolution), thresholded bit, count."""
    return (r.randint(-2**21, 2**21) / 2**22, r.randint(-2**21, 2**21) / 2**22, r.randint(0, 1), r.randint(0, 1000))

def fire(r, comp, rig, top):
    """Run the programs; every acquisition leaves its value in the bin it addresses. Returns bins per sequencer and the values by label."""
    amap, _ = qb.assign(comp, rig)
    chans, first = qacq.number(top)
    ex = sorted(qacq.executed(top), key=lambda x: x[0])
    vals, bins = {}, {}
    for i, (slot, seq, st) in amap.items():
        run = q1sim.run(st.sequence)
        evs = [e for e in run.events if e.kind.startswith("acquire") and not (e.kind in ("acquire_ttl", "acquire_timetags") and e.arg[2] == 0)]
        mine = [x for x in ex if x[1]["ch"] == i]
        if len(evs) != len(mine) * len(run.reps): raise Violation("acquisition-count", f"{rig['chans'][i].pc}: {len(evs)} acquisitions fired, {len(mine)} x {len(run.reps)} scheduled")
        b = bins.setdefault((slot, int(seq[3:])), {})
        for k in range(len(run.reps)):
            for j, (t, n, sp, lin) in enumerate(mine):
                e = evs[k * len(mine) + j]; name = n["acq"]
                v = raw(r, n["c"])
                if n["c"] == "Trace" or n["kw"]["bin_mode"] == "distribution": b.setdefault((e.arg[0], None), []).append(v); continue
                b.setdefault((e.arg[0], e.arg[1]), []).append(v)
                lab = (name, first[sp] + lin, k) if n["kw"]["bin_mode"] == "append" else (name, first[sp])
                vals.setdefault(lab, []).append(v)
    return amap, chans, first, bins, vals

def mean(vs): return tuple(sum(v[k] for v in vs) / len(vs) for k in range(4))

def load(r, cl, amap, bins, declared, scopes, dists, nans):
    """Put the raw data into the dummy modules. avg/sum semantics of the hardware: integrated data are averaged, counts added."""
    from qblox_instruments.native.definitions import BINNED_ACQUISITION_SCALING_QRC as SCALE      # the driver's own unit of QRC results
    from qblox_instruments import DummyBinnedAcquisitionData as B, DummyScopeAcquisitionData as SC
    for (slot, q), d in bins.items():
        mod = qic.module(cl, slot); sc = SCALE if slot in qic.SLOTS["QRC"] else 1
        for a, nb in declared[slot, q].items():
            data = []
            hist = dists.get((slot, q, a))
            if hist is not None:
                mx = max(hist)
                data = [B(data=(0.0, 0.0), thres=0, avg_cnt=sum(n for c, n in hist.items() if c > k)) for k in range(mx + r.choice([0, 2]))]
            else:
                for b in range(nb):
                    vs = d.get((a, b))
                    if vs is None or (slot, q, a, b) in nans: data.append(None); continue
                    m = mean(vs)
                    if (slot, q, a) in declared["ttl"]: data.append(B(data=(0.0, 0.0), thres=0, avg_cnt=sum(v[3] for v in vs)))
                    else: data.append(B(data=(m[0] / sc, m[1] / sc), thres=m[2], avg_cnt=len(vs)))
            mod.set_dummy_binned_acquisition_data(q, str(a), data)
    for slot, pts in scopes.items(): cl.set_dummy_scope_acquisition_data(slot, sequencer=0, data=SC(data=pts, out_of_range=(False,) * len(pts[0]), avg_cnt=(1,) * len(pts[0])))

def run_qtm(job, mon):
    """The same on timetagging modules."""
    from qblox_instruments import DummyBinnedAcquisitionData as B
    r = rng_for("Q05qtm", job["seed"], job["i"])
    if job["kind"] == "timetag-trace-in-loop": rig, top = loop_trace(r)
    else:
        while True:
            rig, plan, g, top = qtm.make(r, pool=qic.SLOTS)
            tt = {}
            for t, n, sp, lin in sorted(qacq.executed(top), key=lambda x: x[0]):
                if n["c"] == "TimetagTrace": tt.setdefault(n["acq"], []).append(sp)
            # the known finding is about several acquisitions that alternate in a loop
            if all(len(set(v)) == sum(x != y for x, y in zip([None] + v, v)) for v in tt.values()): break
    cl, icc, ic = qic.rack()
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    chans, first = qacq.number(top)
    if not chans: return
    ic.stop(); qic.forget(cl); ic.prepare(THROUGH(comp))
    ex = sorted(qacq.executed(top), key=lambda x: x[0]); reps = top["reps"]
    loops = {}
    for sp, n, lp in qacq.walk(top): loops[sp] = lp
    amap, _ = qb.assign(comp, rig)
    want, traces, ttrace = {}, {}, {}
    inloop = {n["acq"] for t, n, sp, lin in ex if n["kw"]["bin_mode"] == "sum" and int(np.prod(loops[sp] or (1,))) > 1}
    for i, (slot, seq, st) in amap.items():
        run = q1sim.run(st.sequence); mine = [x for x in ex if x[1]["ch"] == i]
        evs = [e for e in run.events if e.kind == "acquire_timetags" and e.arg[2] == 1]
        if len(evs) != len(mine) * len(run.reps): raise Violation("acquisition-count", f"{rig['chans'][i].pc}: {len(evs)} acquisitions fired, {len(mine)} x {len(run.reps)} scheduled")
        bins, windows, base = {}, [], r.randint(10**6, 10**9)
        for k in range(len(run.reps)):
            for j, (t, n, sp, lin) in enumerate(mine):
                e = evs[k * len(mine) + j]; name, p, bm = n["acq"], n["c"], n["kw"]["bin_mode"]
                base += r.randint(10**5, 10**6)
                if p == "Trace":
                    if name not in traces:
                        tr = [r.randint(0, 3) for _ in range(n["dur"])]; traces[name] = np.array(tr, float)
                        patch(cl, slot, rig["chans"][i]["cidx"], tr + [7] * r.choice([0, 0, 50]))
                    continue
                lab = (name, first[sp] + lin, k) if bm == "append" else (name, first[sp])
                v = want.setdefault(lab, (r.randint(0, 12) if "Thresholded" in p else r.randint(0, 5000), r.randint(0, 2**20)))
                if p == "TimetagTrace":
                    m = r.choice([0, 1, 1, 2, 3, 6]); ev = sorted(r.sample(range(base, base + 90000), m))
                    windows += [("OPEN", base)] + [("RISE", x) for x in ev] + [("CLOSE", base + 95000)]
                    ttrace[lab] = [(v[1] + x - ev[0]) / 2048 for x in ev]
                bins.setdefault(e.arg[:2], []).append(v)
        if windows: patch(cl, slot, rig["chans"][i]["cidx"], windows)
        for a in st.sequence["acquisitions"].values():
            data = []
            for b in range(a["num_bins"]):
                vs = bins.get((a["index"], b))
                data.append(B(data=(0.0, 0.0), thres=0, avg_cnt=1) if vs is None else B(data=(sum(v[0] for v in vs) / len(vs) / 2**22, sum(v[1] for v in vs) / len(vs) / 2**22), thres=0, avg_cnt=len(vs)))
            qic.module(cl, slot).set_dummy_binned_acquisition_data(int(seq[3:]), str(a["index"]), data)
    ic.start(); ic.wait_done(timeout_sec=1)
    ds = ic.retrieve_acquisition(); ic.stop()
    if ds is None or set(ds.data_vars) != set(chans): raise Violation("channels", f"dataset has {ds and sorted(map(str, ds.data_vars))}, scheduled {sorted(map(str, chans))}")
    mon.count("datasets"); mon.count("qtm-datasets")
    for name, c in chans.items():
        a = ds[name]; dim = f"acq_index_{name}"; bm = c["bm"]; p = c["proto"]
        if p == "Trace":
            mon.count("trace")
            if a.values.shape != (1, len(traces[name])) or not (a.values[0] == traces[name]).all(): raise Violation("trace-data", f"{name}: {a.values} instead of {traces[name]}")
            check_coords(name, a, dim, [c["coords"]], mon); continue
        N = len(c["coords"])
        dims = (("repetition", dim) if bm == "append" else (dim,)) + ((f"trace_index_{name}",) if p == "TimetagTrace" else ())
        if set(a.dims) != set(dims): raise Violation("dimensions", f"{name} ({p}, {bm}): {a.dims}")
        a = a.transpose(*dims).sortby(dim)
        if a.shape[:len(dims) - (p == "TimetagTrace")] != ((reps, N) if bm == "append" else (N,)): raise Violation("shape", f"{name}: {a.shape}, scheduled {reps} x {N}")
        if list(a[dim].values) != list(range(N)): raise Violation("index-labels", f"{name}: {a[dim].values}")
        check_coords(name, a, dim, c["coords"], mon)
        kw = next(n["kw"] for _, n, _, _ in ex if n["acq"] == name)
        for lab, v in want.items():
            if lab[0] != name or name in inloop: continue     # (what the hardware makes of a sum inside a loop is not specified)
            x = a.values[lab[2], lab[1]] if bm == "append" else a.values[lab[1]]
            if p == "TimetagTrace":
                mon.count("timetag-traces"); w = ttrace[lab]; got = [y for y in x if not np.isnan(y)]
                if got != w: raise Violation("timetag-trace", f"{name} {lab[1:]}: {got[:6]}, recorded {w[:6]} (channel of {N} indices, {reps} repetitions)", mechanism="timetag-trace-in-loop" if job["kind"] == "timetag-trace-in-loop" else None)
                continue
            mon.count("values"); mon.count("qtm-values"); mon.count(bm)
            if p == "ThresholdedTriggerCount": w = int(v[0] >= kw["threshold"]) if kw["feedback_trigger_condition"] == "greater_than_equal_to" else int(v[0] < kw["threshold"]); mon.count("qtm-thresholded")
            elif p == "Timetag": w = v[1] / 2048; mon.count("timetag")
            else: w = v[0] * (reps if bm == "sum" else 1)
            if abs(x - w) > 1e-6: raise Violation("wrong-value", f"{name} ({p}, {bm}) index {lab[1:]}: {x}, expected {w}\nvalues of this channel in the dataset: {a.values.tolist()}")
    mon.case(repr(S.describe(top)), sum(len(c["coords"]) for c in chans.values()) >= 3)

def loop_trace(r):
    """Two TimetagTrace acquisitions in a loop."""
    rig = qtm.rig(r, pool=qic.SLOTS, nmod=1, nchan=1); c = rig["chans"][0]
    def acq():
        n = S.OP("TimetagTrace", 100, port=c.port, clock=c.clock, acq_channel=0, bin_mode="append", duration=S.ns(100)); n.update(ch=0, what="acq", acq=0, gate=True); return n
    top = S.SCHED([S.ITEM(S.LOOP(S.SCHED([S.ITEM(acq()), S.ITEM(acq(), S.CON(rel=500)), S.ITEM(S.IDLE(500))]), 2))], "top")
    return rig, qb.with_clocks(top, rig, 1)

def patch(cl, slot, ch, data):
    """What the scope of a timetagging channel recorded (the vendor's dummy has none)."""
    object.__setattr__(qic.module(cl, slot).io_channels[ch], "get_scope_data", lambda: list(data))

def run_job(job, mon):
    if job.get("kind", "analog") != "analog": return run_qtm(job, mon)
    r, rig, plan, top = make(job)
    cl, icc, ic = qic.rack()
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    chans0, _ = qacq.number(top)
    if not chans0:
        return
    ports = {}
    for _, n, _ in qacq.walk(top): ports.setdefault(n["acq"], set()).add(n["ch"])
    mon.count("shared-channel", sum(len(v) > 1 for v in ports.values()))
    if len({c["slot"] for i, c in enumerate(rig["chans"]) if any(i in v for v in ports.values())}) > 1: mon.count("multi-module")
    ic.stop()
    qic.forget(cl)
    ic.prepare(THROUGH(comp))
    for rnd in range(2): one_round(r, cl, ic, comp, rig, top, mon)
    ic.stop()
    mon.case(repr(S.describe(top)), sum(len(c["coords"]) for c in chans0.values()) >= 3)

def one_round(r, cl, ic, comp, rig, top, mon):
    """The prepared program runs once with random data; the dataset must hold them."""
    amap, chans, first, bins, vals = fire(r, comp, rig, top)
    declared = {"ttl": set()}; scopes, dists, expect_trace, expect_dist = {}, {}, {}, {}
    for i, (slot, seq, st) in amap.items():
        q = int(seq[3:])
        declared[slot, q] = {a["index"]: a["num_bins"] for a in st.sequence["acquisitions"].values()}
        bins.setdefault((slot, q), {})
        mapping = comp.compiled_instructions["cluster0"][f"cluster0_module{slot}"].get("acq_hardware_mapping", {}).get(seq, {})
        for name, m in mapping.items():
            d = chans.get(name)
            if d is None: raise Violation("channel-invented", str(name))
            if d["proto"] == "TriggerCount": declared["ttl"].add((slot, q, m if isinstance(m, int) else next(iter(m.values())).index))
            if d["bm"] == "distribution":
                h = {c: r.randint(1, 50) for c in r.sample(range(1, 30), r.randint(1, 5))}
                dists[slot, q, m] = h; expect_dist[name] = h
            if d["proto"] == "Trace":
                w = 4 if rig["modules"][slot] == "QRC" else 2
                pts = [tuple(r.randint(-2**10, 2**10) / 2**11 for _ in range(w)) for _ in range(r.choice([16384, 4096, 2100]))]
                scopes[slot] = pts
                k = 2 if rig["chans"][i]["inp"].endswith("_1") and w == 4 else 0
                dur = next(n["dur"] for _, n, _ in qacq.walk(top) if n["acq"] == name)
                expect_trace[name] = np.array([p[k] + 1j * p[k + 1] for p in pts[:dur]])
    # some bins never become valid
    nans = set()
    if r.random() < 0.3:
        for (slot, q), d in bins.items():
            for key in d:
                if key[1] is not None and r.random() < 0.2: nans.add((slot, q) + key)
    load(r, cl, amap, bins, declared, scopes, dists, nans)
    bad = invalid_labels(comp, rig, amap, chans, top, first, nans)
    ic.start(); ic.wait_done(timeout_sec=1)
    data = ic.retrieve_acquisition()
    compare(data, chans, top["reps"], vals, expect_trace, expect_dist, bad, mon)

def invalid_labels(comp, rig, amap, chans, top, first, nans):
    """Labels whose value was replaced by 'never valid' on the hardware, found by replaying which bin each label uses."""
    if not nans: return set()
    out = set(); ex = sorted(qacq.executed(top), key=lambda x: x[0])
    for i, (slot, seq, st) in amap.items():
        run = q1sim.run(st.sequence); q = int(seq[3:])
        evs = [e for e in run.events if e.kind.startswith("acquire") and not (e.kind == "acquire_ttl" and e.arg[2] == 0)]
        mine = [x for x in ex if x[1]["ch"] == i]
        for k in range(len(run.reps)):
            for j, (t, n, sp, lin) in enumerate(mine):
                e = evs[k * len(mine) + j]
                if (slot, q, e.arg[0], e.arg[1]) in nans and sp in first:
                    out.add((n["acq"], first[sp] + lin, k) if n["kw"]["bin_mode"] == "append" else (n["acq"], first[sp]))
    return out

def convert(proto, v, dur):
    if proto == "SSBIntegrationComplex": return complex(v[0], v[1]) / dur
    if proto in ("NumericalSeparatedWeightedIntegration", "WeightedIntegratedSeparated"): return complex(v[0], v[1])
    if proto == "NumericalWeightedIntegration": return complex(v[0] + v[1])
    if "Thresholded" in proto: return v[2]
    return v[3]

def compare(data, chans, reps, vals, traces, dists, bad, mon):
    if data is None: raise Violation("no-data", f"scheduled channels {sorted(map(str, chans))}")
    mon.count("datasets")
    got = set(data.data_vars)
    if got != set(chans): raise Violation("channels", f"dataset has {sorted(map(str, got))}, scheduled {sorted(map(str, chans))}")
    durs = chans["__dur__"] if "__dur__" in chans else None
    for name, c in chans.items():
        a = data[name]; dim = f"acq_index_{name}"
        if name in traces:
            mon.count("trace"); w = traces[name]
            if a.shape != (1, len(w)) or a.dims[0] != dim: raise Violation("trace-shape", f"{name}: {a.dims} {a.shape}, scheduled {len(w)} samples")
            if np.abs(a.values[0] - w).max() > 1e-9: raise Violation("trace-data", f"{name}: {a.values[0][:4]} instead of {w[:4]}")
            check_coords(name, a, dim, [c["coords"]], mon)
            continue
        if name in dists:
            mon.count("distribution"); h = dists[name]
            g = dict(zip([int(x) for x in a.coords[f"counts_{name}"].values], [float(x) for x in a.values]))
            if g != {k: float(v) for k, v in h.items()}: raise Violation("distribution", f"{name}: {g} instead of {h}")
            continue
        N = len(c["coords"]); bm = c["bm"]; mon.count(bm)
        dims = ("repetition", dim) if bm == "append" else (dim,)
        shape = (reps, N) if bm == "append" else (N,)
        if set(a.dims) != set(dims): raise Violation("dimensions", f"{name} ({bm}): {a.dims}")
        a = a.transpose(*dims)
        if a.shape != shape: raise Violation("shape", f"{name} ({bm}): {a.shape}, scheduled {shape}")
        if len(set(a[dim].values)) == N: a = a.sortby(dim)
        if list(a[dim].values) != list(range(N)): raise Violation("index-labels", f"{name}: {a[dim].values}")
        if bm == "append" and "repetition" in a.coords and list(a["repetition"].values) != list(range(reps)): raise Violation("repetition-labels", f"{name}: {a['repetition'].values}")
        check_coords(name, a, dim, c["coords"], mon)
        for lab, vs in vals.items():
            if lab[0] != name: continue
            x = a.values[lab[2], lab[1]] if bm == "append" else a.values[lab[1]]
            m = mean(vs)
            if bm == "sum": m = (0, 0, 0, sum(v[3] for v in vs))
            if lab in bad:
                mon.count("invalid")
                want = -1 if "Thresholded" in c["proto"] else 0 if c["proto"] == "TriggerCount" else math.nan
            else: want = convert(c["proto"], m, c["dur"][lab[1]] if "dur" in c else 1)
            mon.count("values")
            if "Thresholded" in c["proto"]: mon.count("thresholded")
            if f"loop_repetition_{name}" in c["coords"][lab[1]]: mon.count("loop-values")
            ok = (np.isnan(x) and np.isnan(want)) or abs(complex(x) - complex(want)) <= 1e-6 * max(1, abs(want)) / (c["dur"][lab[1]] if c["proto"] == "SSBIntegrationComplex" else 1)
            if not ok: raise Violation("wrong-value", f"{name} ({c['proto']}, {bm}) index {lab[1:]}: {x}, expected {want}\nvalues of this channel in the dataset: {a.values.tolist()}")

def check_coords(name, a, dim, coords, mon):
    keys = {k for c in coords for k in c}
    have = {k for k in a.coords if k not in a.dims and a.coords[k].dims == (dim,)}
    if not keys <= have: raise Violation("coords-missing", f"{name}: {sorted(keys - have)}")
    if have - keys: raise Violation("coords-invented", f"{name}: {sorted(map(str, have - keys))}")
    for i, c in enumerate(coords):
        for k in keys:
            x = a.coords[k].values[i]; mon.count("coords")
            if k in c:
                if x != c[k]: raise Violation("coords-wrong", f"{name}[{i}] {k}: {x}, scheduled {c[k]}")
            elif not (isinstance(x, float) and math.isnan(x)): raise Violation("coords-wrong", f"{name}[{i}] {k}: {x}, scheduled without")
