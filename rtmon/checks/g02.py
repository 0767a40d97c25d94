"""G02: every gate uses the parameters of its own device element (or edge)."""
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, gd, wfref

LEVEL = "exploration"
RULE = ("A case is a random device (transmon, spin, NV and charge-sensor elements, edges, renamed ports, all parameters random) and a random schedule of gates and measurements on it (nested, in loops, "
        "multiplexed, with overrides), compiled to device level, its pulses, phase shifts and acquisitions compared one by one with the table of what each gate means on its element; then parameters are "
        "changed and it is compiled again. Refusal cases use a gate its elements have no configuration for. Non-trivial: at least one gate was compared or refused; distinct by device and schedule.")
ASSUMPTIONS = ["overrides apply to all pulses of the operation they are given with", "several phase shifts of one clock at one time are equivalent to their sum",
               "apply_acquisition_delay=False lets the next operation start one acquisition delay earlier"]
MINIMUM = {"gates": 3000, "play": 2000, "phase": 800, "acq": 600, "override": 250, "multiplexed": 150, "cz": 150, "recompiled": 150, "refused": 60, "loops": 60, "nested": 60, "longtime": 20, "early-next": 20, "nv": 200, "spin": 300}

def jobs(tier, seed):
    n = 600 if tier == "quick" else 40000
    return [dict(i=i, seed=seed) for i in range(n)] + [dict(i=i, seed=seed, refuse=1) for i in range(100 if tier == "quick" else 2000)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

FIX = {"transmon": ["X", "X90", "Y", "Y90", "Z", "Z90", "S", "SDagger", "T", "TDagger", "H", "Rxy", "Rxy", "Rz", "Rz", "Reset", "Measure", "Measure"],
       "spin": ["X", "Y90", "Z", "S", "TDagger", "H", "Rxy", "Rz", "Reset", "Measure", "Measure"],
       "nv": ["X", "Y", "Y90", "Rxy", "Reset", "Measure", "CRCount", "ChargeReset", "SpectroscopyOperation", "Measure"], "sensor": ["Measure"]}

class Build:
    def __init__(self, r, d): self.r, self.d, self.counts, self.acqi = r, d, {}, 0
    def c(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def over(self, n, opts):
        """Parameter overrides given with the operation."""
        r = self.r
        if r.random() > 0.35: return n
        for k in r.sample(list(opts), r.randint(1, min(3, len(opts)))):
            v = opts[k](); n.setdefault("ov", {})[k] = v
            n["kw"][k] = S.ns(v) if k in ("duration", "acq_duration", "acq_delay", "pulse_duration", "square_duration") else (np.array(v) if k.startswith("acq_weights") and isinstance(v, list) else v)
        self.c("override"); return n

    def gate(self):
        r, d = self.r, self.d
        q = r.choice(list(d["q"])); typ = d["q"][q]["typ"]
        if d["e"] and r.random() < 0.15:
            a, b = r.choice(list(d["e"]))
            if r.random() < 0.5: a, b = b, a
            n = S.OP("CZ", 0, __args__=(a, b)); self.c("cz")
            return self.over(n, {"square_amp": lambda: round(r.uniform(0.1, 0.9), 3), "square_duration": lambda: r.randint(8, 90), "virt_z_parent_qubit_phase": lambda: float(r.randint(-90, 90)), "virt_z_child_qubit_phase": lambda: 12.5})
        c = r.choice(FIX[typ]); self.c(typ); self.c("gates")
        A = lambda: round(r.uniform(0.1, 0.9), 3)
        if c == "Rxy":
            n = S.OP("Rxy", 0, theta=round(r.uniform(-400, 400), 3), phi=round(r.uniform(-400, 400), 3), qubit=q)
        elif c == "Rz": n = S.OP("Rz", 0, theta=round(r.uniform(-180, 180), 3), qubit=q)
        elif c in ("Measure", "CRCount"): return self.measure(c, q, typ)
        elif c in ("Reset", "ChargeReset"):
            qs = [q] + ([x for x in d["q"] if x != q and d["q"][x]["typ"] == typ and r.random() < 0.5])
            if len(qs) == 2 and c == "ChargeReset": pass
            if len(qs) > 1: self.c("multiplexed")
            n = S.OP(c, 0, __args__=tuple(qs))
            return self.over(n, {"duration": lambda: r.randint(50, 900)}) if c == "Reset" else n
        elif c == "SpectroscopyOperation": return S.OP(c, 0, __args__=(q,))
        else: n = S.OP(c, 0, __args__=(q,))
        if n["c"] in gd.PHASE or c == "Rz":
            return self.over(n, {"clock": lambda: f"{q}.ro"}) if r.random() < 0.3 else n
        o = {"amp180": A, "duration": lambda: r.randint(8, 90)}
        if c != "H": o["clock"] = lambda: f"{q}." + {"transmon": "12", "spin": "ro", "nv": "f01"}[typ]; o["port"] = lambda: f"{q}:other"
        if typ == "transmon": o["motzoi"] = lambda: round(r.uniform(-0.5, 0.5), 3)
        if typ == "nv": o["skewness"] = lambda: round(r.uniform(-0.5, 0.5), 3)
        return self.over(n, o)

    def measure(self, c, q, typ):
        r, d = self.r, self.d
        qs = [q] + [x for x in d["q"] if x != q and (d["q"][x]["typ"] == typ or "nv" not in (typ, d["q"][x]["typ"])) and r.random() < 0.35]
        r.shuffle(qs)
        kw = dict(__args__=tuple(qs)); ov = {}
        if typ == "nv":
            kw["acq_protocol"] = r.choice([None, "TriggerCount", "Trace"] + ["Timetag", "TimetagTrace"] * (c == "Measure")); kw["bin_mode"] = r.choice([None, "append", "average"])
            if kw["acq_protocol"] == "Trace": kw["bin_mode"] = "average"
            elif kw["acq_protocol"] == "TimetagTrace": kw["bin_mode"] = "append"
            elif kw["acq_protocol"] == "Timetag": kw["bin_mode"] = r.choice([None, "append", "average"])
            else: kw["bin_mode"] = r.choice([None, "append", "distribution"])
            ov = {"acq_duration": lambda: r.randint(50, 900), "acq_delay": lambda: r.randint(-90, 90)}
        else:
            kw["acq_protocol"] = r.choice([None] + gd.SSBLIKE); kw["bin_mode"] = r.choice([None, "append", "average"])
            if kw["acq_protocol"] == "LongTimeTrace": kw["bin_mode"] = "append"; self.c("longtime")
            if kw["acq_protocol"] == "Trace": kw["bin_mode"] = None
            if kw["acq_protocol"] in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition") and len(qs) == 1 and r.random() < 0.4: kw["feedback_trigger_label"] = q
            ov = {"pulse_amp": lambda: round(r.uniform(0.1, 0.9), 3), "pulse_duration": lambda: r.randint(20, 900), "acq_duration": lambda: r.randint(20, 900), "acq_delay": lambda: r.randint(0, 300),
                  "acq_rotation": lambda: float(r.randint(0, 359)), "acq_threshold": lambda: round(r.uniform(-1, 1), 3), "reset_clock_phase": lambda: r.random() < 0.5, "num_points": lambda: r.randint(1, 4),
                  "freq": lambda: 5.1e9, "acq_channel": lambda: r.choice([9, "over"])}
            if r.random() < 0.3:
                m = r.randint(3, 9); ov["acq_weights_a"] = lambda: [0.5] * m
            if r.random() < 0.25: kw["apply_acquisition_delay"] = False; self.c("early-next")
        if r.random() < 0.25: kw["acq_channel"] = r.choice([0, 4, "given"])
        if r.random() < 0.2:
            self.acqi += 1; kw["acq_index"] = self.acqi if len(qs) == 1 else tuple(self.acqi + k for k in range(len(qs)))
        if r.random() < 0.3: kw["coords"] = {"x": round(r.random(), 3)}
        ch = ov.pop("acq_channel", None)   # `acq_channel` itself is an argument of Measure
        n = S.OP(c, 0, **{k: v for k, v in kw.items() if v is not None})
        if len(qs) > 1: self.c("multiplexed")
        if c == "Measure": self.over(n, ov)
        if n.get("ov", {}).get("acq_weights_a"): n["ov"]["acq_weights_b"] = [0.25] * len(n["ov"]["acq_weights_a"]); n["kw"]["acq_weights_b"] = np.array(n["ov"]["acq_weights_b"])
        return n

    def sched(self, size, depth, name="s"):
        r = self.r; items = []
        for _ in range(size):
            if depth and r.random() < 0.2:
                b = self.sched(r.randint(1, 3), depth - 1)
                if r.random() < 0.5:
                    if r.random() < 0.3: b = self.gate(); self.c("loop-of-gate")
                    elif r.random() < 0.2: b = S.LOOP(b, 2)
                    node = S.LOOP(b, r.randint(1, 3)); self.c("loops")
                else: node = b; self.c("nested")
            else: node = self.gate()
            items.append(S.ITEM(node, S.CON(rel=r.choice([0, 0, r.randint(0, 500)]))))
        return S.SCHED(items, name)

def finish(node, d):
    """Fill in durations and meanings; returns a copy whose gates carry (events)."""
    if node["k"] == "op" and "ev" in node: return node
    if node["k"] == "op":
        ev, dur, shift = gd.meaning(node, d)
        return dict(node, dur=dur, ev=ev, shift=shift)
    if node["k"] == "loop": return dict(node, body=finish(node["body"], d))
    items = [dict(it, node=finish(it["node"], d)) for it in node["items"]]
    for i in range(1, len(items)):
        sh = items[i - 1]["node"].get("shift", 0)
        if sh: items[i]["con"] = [dict(items[i]["con"][0], rel=items[i]["con"][0]["rel"] + sh)]
    return dict(node, items=items)

def make(job):
    r = rng_for("G02", job["seed"], job["i"], job.get("refuse", 0))
    d = gd.device(r); b = Build(r, d)
    top = b.sched(r.randint(2, 10), r.choice([0, 1, 2]), "top")
    return r, d, b, top

def run_job(job, mon):
    if job.get("refuse"): return refuse(job, mon)
    import warnings; warnings.simplefilter("ignore")
    r, d, b, top = make(job)
    for k, v in b.counts.items(): mon.count(k, v)
    qd = gd.realise(d)
    sched = S.build(top)
    one(sched, top, d, qd, mon)
    if r.random() < 0.4:
        cfg = qd.generate_compilation_config(); before = freeze(d)
        alter(r, d); gd.realise(d, qd=qd)
        compare(compiled(sched, cfg), top, before, mon)          # the old configuration still describes the old device
        one(sched, top, d, qd, mon); mon.count("recompiled")
    mon.case(repr((d, S.describe(top))), True)

def freeze(d):
    import copy; return copy.deepcopy(d)

def alter(r, d):
    """New values for some parameters."""
    for q, e in d["q"].items():
        new = gd.element(r, q, e["typ"])["p"]
        for k in list(e["p"]):
            if k in new and r.random() < 0.4 and not k.startswith("measure.acq_weights") and ".reference_magnitude." not in k: e["p"][k] = new[k]
    for k, p in d["e"].items():
        if r.random() < 0.5: p["cz.square_amp"] = round(r.uniform(0.05, 0.9), 4)
        if r.random() < 0.5: p[f"cz.{k[1]}_phase_correction"] = round(r.uniform(-180, 180), 2)

def compiled(sched, cfg):
    from quantify_scheduler.backends import SerialCompiler
    return SerialCompiler("c").compile(sched, cfg)

def one(sched, top, d, qd, mon): compare(compiled(sched, qd.generate_compilation_config()), top, d, mon)

def expect(top, d):
    fin = finish(top, d); out = []
    starts = list(S.flatten(fin))
    for t, n, _, _ in starts:
        for e in n["ev"]: out.append((e[0], int(t) + e[1]) + tuple(e[2:]))
    return out, fin

def compare(comp, top, d, mon):
    want, fin = expect(top, d)
    got = gd.observed(comp)
    other = [g for g in got if g[0] == "other"]
    if other: raise Violation("unexpected-operation", other[:3])
    # phase shifts: sum per time and clock
    def phases(ev):
        s = {}
        for e in ev:
            if e[0] == "phase": s[e[1], e[2]] = s.get((e[1], e[2]), 0) + e[3]
        return {k: v % 360 for k, v in s.items()}
    pg, pw = phases(got), phases(want)
    for k in set(pg) | set(pw):
        dv = (pg.get(k, 0) - pw.get(k, 0) + 180) % 360 - 180
        if abs(dv) > 1e-6: raise Violation("phase-shift", f"at {k}: compiled {pg.get(k)}, configured {pw.get(k)}\n{S.describe(top)}")
    mon.count("phase", len(pw))
    for kind in ("play", "offset", "reset", "freq", "acq"):
        g = [e for e in got if e[0] == kind]; w = [e for e in want if e[0] == kind]
        mon.count(kind, len(w))
        left = list(g)
        for e in w:
            hit = next((x for x in left if same(x, e)), None)
            if hit is None:
                near = [brief(x) for x in left if x[1] == e[1]]
                raise Violation(kind + "-differs", f"expected {brief(e)}\ncompiled at that time: {near}\nothers: {[brief(x) for x in left if x[1] != e[1]][:6]}\n{S.describe(top)}")
            left.pop(next(i for i, x in enumerate(left) if x is hit))
        if left: raise Violation(kind + "-extra", f"{[brief(x) for x in left][:4]}\n{S.describe(top)}")
    # clock frequencies
    ck = gd.clocks(d)
    for c, f in resources(comp).items():
        if c in ck and abs(f - ck[c]) > 1e-3: raise Violation("clock-frequency", f"{c}: {f} instead of {ck[c]}")

def resources(comp, out=None):
    out = {} if out is None else out
    for k, v in comp.resources.items():
        if "freq" in v.data and v.data["freq"] is not None: out[k] = v.data["freq"]
    for op in comp.operations.values():
        body = getattr(op, "body", None) if not hasattr(op, "schedulables") else op
        if body is not None and hasattr(body, "operations"): resources(body, out)
    return out

def brief(e):
    if e[0] == "play": return e[:6] + ((len(e[6]), complex(np.round(e[6].sum(), 6))) if not isinstance(e[6], dict) else (e[6],))
    return e

def same(g, w):
    if g[1] != w[1]: return False
    k = g[0]
    if k == "play":
        if g[2:4] != w[2:4]: return False
        rg, rw = g[4], w[4]
        if (rg is None) != (rw is None) or rg is not None and (abs(rg[0] - rw[0]) > 1e-9 or rg[1] != rw[1]): return False
        y = wfref.sample_pulse_spec(w[5], w[6])
        return len(y) == len(g[6]) and g[5] == len(y) and np.abs(y - g[6]).max(initial=0) < 1e-9 * max(1, np.abs(y).max(initial=0))
    if k == "offset": return g[2:4] == w[2:4] and abs(g[4] - w[4]) < 1e-12 and abs(g[5] - w[5]) < 1e-12
    if k == "reset": return g[2] == w[2]
    if k == "freq": return g[2:] == w[2:]
    i, a = g[4], w[4]
    if g[2:4] != w[2:4] or gd.N(i["duration"]) != a["duration"] or i["protocol"] not in (a["protocol"],) or i["acq_channel"] != a["channel"] or str(getattr(i["bin_mode"], "value", i["bin_mode"])) != a["bin_mode"]: return False
    if i["acq_index"] != a["acq_index"] or (i["coords"] or None) != (a["coords"] or None): return False
    if "label" in a and i.get("feedback_trigger_label") != a["label"]: return False
    if "threshold" in a and abs(i["acq_threshold"] - a["threshold"]) > 1e-12: return False
    if "rotation" in a and abs(i["acq_rotation"] - a["rotation"]) > 1e-12: return False
    if "wa" in a:
        for wf, x in zip(i["waveforms"], (a["wa"], a["wb"])):
            s = np.asarray(wf["samples"]); ts = np.asarray(wf["t_samples"])
            # the second weight may be given by a factor i
            if len(s) != len(x) or np.abs(ts - np.arange(len(x)) / a["sr"]).max() > 1e-15: return False
            if np.abs(s - np.asarray(x)).max() > 1e-12 and np.abs(s - 1j * np.asarray(x)).max() > 1e-12: return False
    return True

def refuse(job, mon):
    import warnings; warnings.simplefilter("ignore")
    r = rng_for("G02", job["seed"], job["i"], 1)
    kind = ["unknown-element", "no-edge", "unsupported", "protocol", "clock-unset", "cnot", "both-edges", "mux-unknown", "bin-mode"][job["i"] % 9]
    d = gd.device(r, types=["transmon", "transmon", "spin", "spin", "nv", "sensor"], n=6)
    qs = {t: [q for q in d["q"] if d["q"][q]["typ"] == t] for t in gd.TYPES}
    if kind == "no-edge": d["e"] = {}
    if kind == "both-edges":
        for k in list(d["e"]): d["e"][k[::-1]] = gd.edge(r, d, *k[::-1])
        if not d["e"]: return
    if kind == "clock-unset": q = r.choice(qs["transmon"]); d["q"][q]["p"]["clock_freqs.f01"] = float("nan")
    qd = gd.realise(d)
    from quantify_scheduler import Schedule
    L = S.libs(); s = Schedule("x")
    if kind == "unknown-element": s.add(L[r.choice(["X", "Z", "Measure", "Reset", "H"])]("nobody"))
    elif kind == "no-edge": s.add(L["CZ"](*r.sample(qs[r.choice(["transmon", "spin"])], 2)))
    elif kind == "unsupported":
        t, c = r.choice([("nv", "Z"), ("nv", "H"), ("sensor", "X"), ("sensor", "Reset"), ("transmon", "ChargeReset"), ("spin", "CRCount"), ("transmon", "SpectroscopyOperation")])
        s.add(L[c](r.choice(qs[t])))
    elif kind == "protocol": s.add(L["Measure"](r.choice(qs["transmon"] + qs["nv"]), acq_protocol=r.choice(["Nonsense", "WeightedIntegratedSeparated"])))
    elif kind == "clock-unset": s.add(L[r.choice(["X", "S", "H"])](q))
    elif kind == "cnot": s.add(L["CNOT"](*r.sample(qs[r.choice(["transmon", "spin"])], 2)))
    elif kind == "both-edges": 
        a, b = r.choice(list(d["e"]))
        # both directions exist: the one that is named is used; this is accepted
        s.add(L["CZ"](a, b))
        comp = compiled(s, qd.generate_compilation_config())
        compare(comp, S.SCHED([S.ITEM(S.OP("CZ", 0, __args__=(a, b)))]), d, mon); mon.case(repr((kind, d)), True); return
    elif kind == "mux-unknown": s.add(L["Measure"](qs["transmon"][0], "nobody", qs["transmon"][1]))
    elif kind == "bin-mode": s.add(L["Measure"](r.choice(qs["transmon"]), acq_protocol="LongTimeTrace", bin_mode="average"))
    try: compiled(s, qd.generate_compilation_config())
    except Exception: mon.count("refused"); mon.count("refused-" + kind); mon.case(repr((kind, d)), True); return
    raise Violation("not-refused", f"{kind}: {list(s.operations.values())}")
