"""Gate-level workloads: transmon devices, their Qblox hardware and random circuits as plain descriptions."""
from __future__ import annotations
import numpy as np
from rtmon import spec as S, qb, dev

FIXED = ["X", "X90", "Y", "Y90", "Z", "Z90", "S", "SDagger", "T", "TDagger", "H"]
PROTO = ["SSBIntegrationComplex", "ThresholdedAcquisition", "NumericalSeparatedWeightedIntegration"]

def device(r, n=None, edges=True, hw=True):
    """A plain description of a transmon device."""
    d = dict(q={}, e=[], acq={}, hw=None)
    for i in range(n or r.randint(1, 4)):
        d["q"][f"q{i}"] = dict(rxy_dur=4 * r.randint(3, 30), amp180=round(r.uniform(0.1, 0.6), 4), motzoi=round(r.uniform(-0.3, 0.3), 4), f01=round(r.uniform(4e9, 6e9), -3), f12=round(r.uniform(3e9, 4e9), -3),
                               ro=None, ro_amp=round(r.uniform(0.05, 0.3), 4), ro_dur=4 * r.randint(20, 90), acq_delay=4 * r.randint(0, 50), integ=4 * r.randint(80, 200), reset=4 * r.randint(100, 500),
                               chan=r.choice([i, f"ch{i}", 10 + i]), rot=round(r.uniform(0, 359), 2), thr=round(r.uniform(-0.5, 0.5), 4), rcp=r.random() < 0.8)
        d["acq"][f"q{i}"] = dict(proto=r.choice([None] + PROTO), bm=r.choice(["append", "average", None]), w=[round(r.uniform(-1, 1), 3) for _ in range(d["q"][f"q{i}"]["integ"])])
    names = list(d["q"])
    ro_lo = round(r.uniform(6.6e9, 7.4e9), -8)
    for i, q in enumerate(names): d["q"][q]["ro"] = ro_lo + r.choice([-1, 1]) * (30e6 + 25e6 * i)
    d["ro_lo"] = ro_lo
    if edges:
        pairs = [(a, b) for a in names for b in names if a != b]; r.shuffle(pairs)
        for a, b in pairs:
            if len(d["e"]) < 3 and not any({a, b} == {x, y} for x, y, _ in d["e"]):
                d["e"].append((a, b, dict(amp=round(r.uniform(0.1, 0.6), 4), dur=4 * r.randint(4, 24), pp=round(r.uniform(-180, 180), 3), cp=round(r.uniform(-180, 180), 3))))
    if hw: hardware(r, d)
    return d

def hardware(r, d):
    names = list(d["q"]); slots = r.sample(range(1, 21), 20)
    mods, graph, mf = {}, [], {}
    mw = []
    for q in names:
        if not mw: 
            s = slots.pop(); mods[s] = {"instrument_type": "QCM_RF"}; mw = [(s, 0), (s, 1)]
        s, o = mw.pop(0); graph.append((f"cluster0.module{s}.complex_output_{o}", f"{q}:mw"))
        mf[f"{q}:mw-{q}.01"] = r.choice([{"interm_freq": r.choice([-1, 1]) * r.randint(10, 300) * 1e6}, {"lo_freq": round(d["q"][q]["f01"] + r.randint(-200, 200) * 1e6)}])
    s = slots.pop(); mods[s] = {"instrument_type": "QRM_RF"}
    for q in names:
        graph.append((f"cluster0.module{s}.complex_output_0", f"{q}:res")); mf[f"{q}:res-{q}.ro"] = {"lo_freq": d["ro_lo"]}
    fl = []
    for q in names:
        if not fl: s = slots.pop(); mods[s] = {"instrument_type": "QCM"}; fl = [(s, i) for i in range(4)]
        s, o = fl.pop(0); graph.append((f"cluster0.module{s}.real_output_{o}", f"{q}:fl"))
    d["hw"] = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig", "version": "0.1",
               "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": {str(k): v for k, v in mods.items()}}},
               "hardware_options": {"modulation_frequencies": mf}, "connectivity": {"graph": graph}}

def element(name, p, acq=None):
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    q = BasicTransmonElement(name); ns = S.ns
    q.rxy.duration(ns(p["rxy_dur"])); q.rxy.amp180(p["amp180"]); q.rxy.motzoi(p["motzoi"])
    q.clock_freqs.f01(p["f01"]); q.clock_freqs.f12(p["f12"]); q.clock_freqs.readout(p["ro"])
    m = q.measure
    m.pulse_amp(p["ro_amp"]); m.pulse_duration(ns(p["ro_dur"])); m.acq_delay(ns(p["acq_delay"])); m.integration_time(ns(p["integ"])); m.acq_channel(p["chan"])
    m.acq_rotation(p["rot"]); m.acq_threshold(p["thr"]); m.reset_clock_phase(p["rcp"])
    if acq: m.acq_weights_a(np.array(acq["w"])); m.acq_weights_b(np.array(acq["w"][::-1])); m.acq_weights_sampling_rate(1e9)
    q.reset.duration(ns(p["reset"]))
    return q

def realise(d, name="qd", config=True):
    from quantify_scheduler import QuantumDevice
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    qd = QuantumDevice(name)
    els = {q: element(q, p, d["acq"][q]) for q, p in d["q"].items()}
    for e in els.values(): qd.add_element(e)
    for a, b, p in d["e"]:
        e = CompositeSquareEdge(a, b)
        e.cz.square_amp(p["amp"]); e.cz.square_duration(S.ns(p["dur"])); e.cz.parameters[f"{a}_phase_correction"](p["pp"]); e.cz.parameters[f"{b}_phase_correction"](p["cp"])
        qd.add_edge(e)
    if d["hw"] is not None: qd.hardware_config(d["hw"])
    return qd

class Circuit:
    """Random circuits: gates in sequence or side by side, loops, nested and re-used schedules, measurements, conditionals."""
    def __init__(self, r, d, feat, safe=False):
        """safe: at least 4 ns between operations and something after the last one, as the Qblox hardware needs."""
        self.r, self.d, self.feat, self.safe = r, d, feat, safe
        self.names = list(d["q"]); self.pool = []; self.subs = []; self.sid = 0; self.n = 0; self.counts = {}; self.labels = 0
    def c(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def share(self, node, pool, p=0.3):
        if "share" in self.feat and self.r.random() < p:
            self.sid += 1; node["sid"] = self.sid; pool.append(node)
        return node
    def gate(self, qs):
        """A gate on (some of) the qubits; returns (node, qubits)."""
        r = self.r
        if "share" in self.feat and self.pool and r.random() < 0.25:
            n = r.choice(self.pool)
            if set(n["qs"]) <= set(qs): self.c("shared"); return n
        x = r.random(); q = r.choice(qs)
        es = [(a, b) for a, b, _ in self.d["e"] if a in qs and b in qs]
        if es and x < 0.15:
            a, b = r.choice(es)
            if r.random() < 0.5: a, b = b, a
            n = S.OP("CZ", 0, __args__=(a, b)); n["qs"] = (a, b); self.c("cz")
        elif x < 0.35: n = S.OP("Rxy", 0, theta=r.choice([float(r.randint(-180, 180)), round(r.uniform(-360, 360), 3)]), phi=r.choice([float(r.choice([0, 90, 45, -30])), round(r.uniform(-180, 180), 3)]), qubit=q); n["qs"] = (q,)
        elif x < 0.5: n = S.OP("Rz", 0, theta=r.choice([float(r.randint(-180, 180)), round(r.uniform(-720, 720), 3)]), qubit=q); n["qs"] = (q,)
        elif x < 0.55:
            k = r.sample(qs, r.randint(1, len(qs))); n = S.OP("Reset", 0, __args__=tuple(k)); n["qs"] = tuple(k)
        else: n = S.OP(r.choice(FIXED), 0, __args__=(q,)); n["qs"] = (q,)
        if "override" in self.feat and n["c"] in ("X", "Y90", "Rxy", "X90") and r.random() < 0.3:
            n["kw"].update({"amp180": round(r.uniform(0.1, 0.9), 3)} if r.random() < 0.5 else {"duration": S.ns(4 * r.randint(3, 30))}); self.c("override")
        self.c("gates")
        return self.share(n, self.pool)
    def measure(self, qs):
        r = self.r; a = self.d["acq"]
        k = [r.choice(qs)]
        for q in qs:
            if q not in k and (a[q]["proto"], a[q]["bm"]) == (a[k[0]]["proto"], a[k[0]]["bm"]) and r.random() < 0.5: k.append(q)
        p = a[k[0]]; kw = dict(__args__=tuple(k))
        if p["proto"]: kw["acq_protocol"] = p["proto"]
        if p["bm"]: kw["bin_mode"] = p["bm"]
        if "override" in self.feat and r.random() < 0.3: kw["pulse_amp"] = round(r.uniform(0.05, 0.3), 3); self.c("override")
        n = S.OP("Measure", 0, **kw); n["qs"] = tuple(k); self.c("measure", len(k))
        return self.share(n, self.pool, 0.2)
    def sched(self, n, depth, incond=False):
        r = self.r; items = []; self.n += 1; name = f"s{self.n}"
        for _ in range(n):
            x = r.random(); cons = [S.CON(rel=r.choice([0, 0, 0, 4 * r.randint(1, 50)]) + 4 * self.safe)]
            if depth > 0 and x < 0.25 and ({"loops", "nested", "conds"} & self.feat):
                k = r.choice([f for f in ("loops", "nested", "conds") if f in self.feat])
                if k == "conds" and not incond:
                    q = r.choice(self.names); a = self.d["acq"][q]
                    if a["proto"] != "ThresholdedAcquisition": continue
                    kw = dict(__args__=(q,), acq_protocol="ThresholdedAcquisition", feedback_trigger_label=q)
                    if a["bm"]: kw["bin_mode"] = a["bm"]
                    m = S.OP("Measure", 0, **kw); m["qs"] = (q,)
                    items.append(S.ITEM(m, *cons))
                    items.append(S.ITEM(S.COND(self.body(r.randint(1, 3)), q, 4 * r.randint(0, 3)), S.CON(rel=4 * r.randint(100, 300)))); self.c("conds")
                    continue
                if k == "conds": continue
                if k == "nested" and "share" in self.feat and self.subs and r.random() < 0.3: items.append(S.ITEM(r.choice(self.subs), *cons)); self.c("shared-sub"); continue
                b = self.sched(r.randint(1, 4), depth - 1, incond)
                if k == "nested": b = self.share(b, self.subs, 0.5)
                elif r.random() < 0.25: b = self.gate(self.names); self.c("loop-of-gate")
                elif r.random() < 0.2: b = S.LOOP(b, r.randint(1, 3)); self.c("loop-of-loop")
                items.append(S.ITEM(b if k == "nested" else S.LOOP(b, r.randint(1, 4)), *cons)); self.c(k)
            elif "measure" in self.feat and not incond and x > 0.85: items.append(S.ITEM(self.measure(self.names), *cons))
            else:
                g = self.gate(self.names); items.append(S.ITEM(g, *cons))
                rest = [q for q in self.names if q not in g["qs"]]
                if "parallel" in self.feat and rest and r.random() < 0.3:
                    i = len(items) - 1; h = self.gate(rest)
                    if set(h["qs"]) & set(g["qs"]): continue
                    items.append(S.ITEM(h, S.CON(ref=i, pt="start", rel=4 * r.randint(0, 5) + 4 * self.safe))); j = i + 1; self.c("parallel")
                    self.after = (i, j)
                    items.append(S.ITEM(S.IDLE(4), S.CON(ref=i, pt="end", rel=0), S.CON(ref=j, pt="end", rel=0)))
        if not items: items.append(S.ITEM(self.gate(self.names)))
        if self.safe: items.append(S.ITEM(S.IDLE(8)))
        return S.SCHED(items, name)
    def body(self, n):
        """Plain single-qubit gates (for conditionals)."""
        return S.SCHED([S.ITEM(S.OP(self.r.choice(["X", "Y", "X90", "Y90"]), 0, __args__=(self.r.choice(self.names),))) for _ in range(n)], f"b{self.r.randrange(10**6)}")
    def top(self, n, depth, reps=1):
        return dict(self.sched(n, depth), reps=reps)
