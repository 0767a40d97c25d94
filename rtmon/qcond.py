"""Conditional playback: rigs, feedback measurements and schedules with conditional blocks."""
from rtmon import spec as S, qb, qacq

DELAY = 364        # ns from the end of a measurement to its trigger being usable

class Plan(qacq.Plan):
    """Some measuring channels give feedback (all their acquisitions carry a trigger label), the others measure as usual."""
    def __init__(self, r, rig, kinds=("threshold", "threshold", "weighted", "count"), **kw):
        super().__init__(r, rig, **kw)
        self.fb = {}
        meas = [ci for ci, c in enumerate(rig["chans"]) if c["inp"]]
        keep = r.sample(meas, r.randint(1, min(3, len(meas)))) if meas else []
        for ci in keep:
            c = rig["chans"][ci]
            kind = r.choice([k for k in kinds if k != "count" or (c["inp"].startswith("real") and rig["version"] == "0.2")])
            f = dict(kind=kind, label=r.choice([f"q{ci}", f"lab {ci}", f"{ci}x"]), rot=r.choice([0, r.randint(0, 359)]), thr=round(r.uniform(-0.5, 0.5), 4), bm=r.choice(["append", "average"]), chan=r.choice([f"fb{ci}", 100 + ci]),
                     L=r.choice([4, 8, 100, 300, 1000, r.randint(4, 600)]), n=r.randint(1, 5), cond=r.choice(["greater_than_equal_to", "less_than"]))
            if kind == "count": f["bm"] = "append"; f["L"] = max(f["L"], 8)
            if kind == "weighted": f["L"] = r.choice([8, 100, 300]); f["w"] = [round(r.uniform(-1, 1), 3) for _ in range(f["L"])]
            self.fb[ci] = f; self.seq.pop(ci, None)
        self.chan = {k: v for k, v in self.chan.items() if v["ci"] not in self.fb and any(k in s["chans"] for s in self.seq.values())}
        for s in self.seq.values(): s["chans"] = [n for n in s["chans"] if n in self.chan]

    def add_qtm(self):
        """One timetagging channel (never used for anything else) that gives feedback, with one or two thresholds."""
        r, rig = self.r, self.rig
        slot = r.choice([s for s in range(1, 21) if s not in rig["modules"]]); rig["modules"][slot] = "QTM"
        used = r.sample(range(8), r.randint(1, 2))
        for i in used:
            ci = len(rig["chans"]); port = f"qe{ci}:{r.choice(['opt', 'ro'])}"
            rig["chans"].append(qb.Chan(port=port, clock=qb.CLN, freq=0.0, slot=slot, mtype="QTM", cname=f"digital_input_{i}", cplx=False, inp=f"digital_input_{i}", lo=None, interm=None, mix=None, how="lo", nco=0.0, cidx=i))
            rig.setdefault("opts", {}).setdefault("digitization_thresholds", {})[f"{port}-{qb.CLN}"] = {"analog_threshold": round(r.uniform(0.1, 2), 2)}
            lo = r.randint(1, 6)
            f = dict(kind=r.choice(["qthr", "qdual"]), chan=r.choice([f"tt{ci}", 200 + ci]), L=r.choice([8, 100, 500]), n=lo, lo=lo, hi=lo + r.randint(1, 5), cond=r.choice(["greater_than_equal_to", "less_than"]), bm="append", label=f"d{ci}", labels={})
            if f["kind"] == "qdual":
                for k in r.sample(["low", "mid", "high", "invalid"], r.choice([1, 2, 3, 4])): f["labels"][k] = f"{ci}{k}"
            self.fb[ci] = f

    def feedback(self, ci):
        c, f = self.rig["chans"][ci], self.fb[ci]
        kw = dict(port=c.port, clock=c.clock, acq_channel=f["chan"], bin_mode=f["bm"], feedback_trigger_label=f["label"])
        if f["kind"] == "threshold": n = S.OP("ThresholdedAcquisition", f["L"], duration=S.ns(f["L"]), acq_rotation=f["rot"], acq_threshold=f["thr"], **kw)
        elif f["kind"] == "weighted": n = S.OP("WeightedThresholdedAcquisition", f["L"], weights_a=f["w"], weights_b=f["w"][::-1], weights_sampling_rate=1e9, acq_threshold=f["thr"], **kw)
        elif f["kind"] == "qdual":
            del kw["feedback_trigger_label"]
            n = S.OP("DualThresholdedTriggerCount", f["L"], duration=S.ns(f["L"]), threshold_low=f["lo"], threshold_high=f["hi"], **{f"label_{k}": v for k, v in f["labels"].items()}, **kw); n["gate"] = True
        else: n = S.OP("ThresholdedTriggerCount", f["L"], duration=S.ns(f["L"]), threshold=f["n"], feedback_trigger_condition=f["cond"], **kw); n["gate"] = True
        n["ch"] = ci; n["what"] = "acq"; n["acq"] = f["chan"]; n["fb"] = sorted(f["labels"].values()) if f["kind"] == "qdual" else [f["label"]]
        return n

class Gen(qb.Gen):
    """Random schedules with feedback measurements, each used by one conditional block in the same frame."""
    longbody = False
    def __init__(self, *a, plan=None, **kw):
        super().__init__(*a, acqs=plan.op, **kw); self.plan = plan; self.incond = False

    def conditional(self, items, t, room, depth):
        r = self.r
        if self.incond or not self.plan.fb: return None
        ci = r.choice(sorted(self.plan.fb)); f = self.plan.fb[ci]; nch = len(self.rig["chans"])
        lead = r.choice([0, 0, r.randint(4, 40), r.randint(20, 300)])
        d = r.choice([0, r.randint(self.gap, 40)])
        wait = max(f["L"] + DELAY, 16) + r.choice([0, 0, r.randint(0, 200), r.randint(4, 1000)])
        blocks = []
        labels = [f["label"]] if f["kind"] != "qdual" else r.sample(sorted(f["labels"].values()), len(f["labels"]))
        for _ in labels:
            b = r.choice([r.randint(4, 60), r.randint(16, 600), r.randint(16, 3000)])
            if self.longbody and r.random() < 0.3: b = r.choice([65000, 65531, 65532, 65533, 66000, 140000, r.randint(65000, 400000)])
            blocks.append((b, 4 + r.choice([0, 0, 4, r.randint(4, 40)])))
        if lead + d + wait + sum(b + h for b, h in blocks) + 4 + 100 * (len(blocks) - 1) > room: return None
        ta = t + lead + d; tc = ta + wait
        if lead >= 20:
            for cj in range(nch): self.slot(items, cj, t, t + lead - 4)
        if d:
            p = self.pulse(ci, 99)
            if p is not None: items.append((t + lead, p)); self.c("pulses")
        fb = self.plan.feedback(ci)
        if r.random() < 0.15: fb = S.SCHED([S.ITEM(fb)], f"m{r.randrange(10**6)}"); fb["dur"] = f["L"]; self.c("wrapped")
        items.append((ta, fb)); self.c("feedback"); self.c("fb-" + f["kind"]); self.used.add(ci)
        items.append((ta, S.IDLE(8)))          # the trigger counters are cleared here
        for cj in range(nch): self.slot(items, cj, ta + 8 + (r.randint(0, 40) if cj != ci else f["L"] + 304), tc - 4)
        for label, (b, hb) in zip(labels, blocks):
            body = self.body(b, depth, ci if f["kind"] == "count" or self.rig.get("debug") else None)
            node = S.COND(body, label, hb); node["dur"] = dur = int(S.duration(body)) + hb; node["src"] = ci
            if r.random() < 0.15: node = S.SCHED([S.ITEM(node)], f"w{r.randrange(10**6)}"); node["dur"] = dur; self.c("wrapped")
            items.append((tc, node)); self.c("conds"); last = tc + dur
            tc = last + r.choice([0, 0, 4, r.randint(4, 100)])
        return tc

    def body(self, b, depth, without=None):
        """without: channel that must not be used (its gate is open when the trigger counters are cleared)."""
        r = self.r; self.incond = True; self.without = without
        try:
            x = r.random(); nch = len(self.rig["chans"])
            if x < 0.3 or b < 24:      # a bare pulse, or a loop over one
                p = None
                cj = r.randrange(nch)
                n = r.choice([1, 1, r.randint(1, 6)])
                p = self.pulse(cj, max(b // n, 4))
                if p is not None and cj != without and p["dur"] >= self.gap and not (p["c"] == "RampPulse" and p["dur"] >= 2000):
                    self.c("bare"); self.c("pulses")
                    if n > 1: self.c("loops"); return S.LOOP(p, n)
                    return p
                return S.IDLE(b)
            if x < 0.33: self.c("empty"); return S.IDLE(b)
            if x < 0.55 and b >= 40:
                n = min(r.randint(2, 6), b // 16); self.c("loops")
                return S.LOOP(self.frame(max(16, b // n), depth - 1), n)
            return self.frame(b, depth)
        finally: self.incond = False; self.without = None

    def pulse(self, ci, maxdur):
        return None if self.rig["chans"][ci].mtype == "QTM" else super().pulse(ci, maxdur)

    def slot(self, items, ci, t0, t1):
        if self.rig["chans"][ci].mtype == "QTM": return
        if self.incond and ci == self.without: return
        super().slot(items, ci, t0, t1)

def has_conditions(node):
    if node["k"] == "cond": return True
    if node["k"] == "loop": return has_conditions(node["body"])
    return node["k"] == "sched" and any(has_conditions(i["node"]) for i in node["items"])

def make(r, feats=("loops", "nested", "long", "offsets", "share", "clk"), kinds=("threshold", "threshold", "weighted", "count"), longbody=0.1, reps=(1, 1, 2, 3), mods=("QRM", "QRM", "QRM_RF", "QRC"), debug=0.0, qtm=0.0):
    while True:
        rig = qb.make_rig(r, mtypes=[r.choice(mods)] + [r.choice(["QRM", "QCM", "QCM_RF", "QRM_RF", "QCM"]) for _ in range(r.randint(0, 2))])
        plan = Plan(r, rig, kinds=kinds, shared=0.0, traces=False)
        if r.random() < qtm:
            plan.add_qtm()
            if r.random() < 0.4: plan.fb = {k: v for k, v in plan.fb.items() if v["kind"][0] == "q"}
        if not plan.fb: continue
        feat = {"pulses", "cond"} | {f for f in feats if r.random() < 0.5}
        if r.random() < 0.5: feat.add("acq")
        if "clk" in feat and any(f["kind"] == "count" for f in plan.fb.values()): feat.discard("clk")
        if any(s["mode"] == "ttl" for s in plan.seq.values()): feat.discard("clk")
        g = Gen(r, rig, feat, total=r.choice([3000, 6000, 15000]), plan=plan)
        if r.random() < longbody: g.longbody = True; g.total = r.choice([300000, 700000]); g.feat -= {"clk"}
        if r.random() < debug:
            g.gap = 8; g.feat -= {"long", "offsets", "overlap", "clk"}
            for c in rig["chans"]:
                if c.mtype not in ("QRC", "QTM"): rig["cdesc"].setdefault((c.slot, c.cname), {})["marker_debug_mode_enable"] = True
            rig["debug"] = True
        top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.choice(reps))
        if not has_conditions(top): continue
        return rig, plan, g, top

def executed(node, t=0):
    """Executed feedback measurements and conditional blocks: (time, "fb"|"cond", node)."""
    k = node["k"]
    if k == "op":
        if "fb" in node: yield t, "fb", node
    elif k == "loop":
        d = S.duration(node["body"])
        for i in range(node["n"]): yield from executed(node["body"], t + i * d)
    elif k == "cond":
        yield t, "cond", node
        yield from executed(node["body"], t)
    else:
        for s, it in zip(S.starts(node), node["items"]): yield from executed(it["node"], t + s)

def touched(node, rig):
    """Channels with an operation in node: their sequencers follow its condition."""
    out = set()
    if node["k"] == "op":
        if "ch" in node: out.add(node["ch"])
        if node.get("what") == "clk": out |= {i for i, c in enumerate(rig["chans"]) if c.clock == node["clk"]}
    elif node["k"] == "sched":
        for it in node["items"]: out |= touched(it["node"], rig)
    else: out |= touched(node["body"], rig)
    return out
