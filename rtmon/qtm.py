"""Timetagging modules: rigs, acquisition plans and random schedules of digital acquisitions."""
from rtmon import spec as S, qb, qacq

def rig(r, pool=None, nmod=None, nchan=None):
    slots = []
    free = r.sample(pool["QTM"], len(pool["QTM"])) if pool else r.sample(range(1, 21), 3)
    slots = free[:nmod or r.choice([1, 1, 2])]
    rg = dict(modules={s: "QTM" for s in slots}, chans=[], version=r.choice(["0.1", "0.2"]), clocks={}, lo={}, opts={}, cdesc={}, latency={}, order=r.random())
    th = {}; used = set()
    for k in range(nchan or r.randint(1, 4)):
        slot = r.choice(slots); i = r.randrange(8)
        if (slot, i) in used: continue
        used.add((slot, i)); port = f"qe{k}:{r.choice(['opt', 'ro', 'x'])}"
        clock = r.choice(["digital", f"qe{k}.ge0", f"qe{k}.ge1"])
        if clock != "digital": rg["clocks"][clock] = 470e12
        rg["chans"].append(qb.Chan(port=port, clock=clock, freq=0.0, slot=slot, mtype="QTM", cname=f"digital_input_{i}", cplx=False, inp=f"digital_input_{i}", lo=None, interm=None, mix=None, how="lo", nco=0.0, cidx=i))
        th[f"{port}-{clock}"] = {"analog_threshold": round(r.uniform(0.1, 2), 2)}
    rg["opts"]["digitization_thresholds"] = th
    return rg

LONG = [65531, 65535, 65536, 65537, 65540, 65543, 65544, 70000, 131068, 131072, 262136, 262140, 262144, 300000]   # around the longest wait of one instruction
class Plan:
    """Which digital acquisitions each port-clock makes."""
    def __init__(self, r, rg, coords=True, fine=True, big=False):
        self.r, self.rig, self.coords, self.big = r, rg, coords, big
        self.chan, self.seq = {}, {}; nch = 0
        for ci, c in enumerate(rg["chans"]):
            kinds = r.choice([["TriggerCount"], ["TriggerCount", "Timetag"], ["Timetag"], ["TimetagTrace"], ["Trace"], ["Trace", "TriggerCount"], ["ThresholdedTriggerCount"], ["ThresholdedTriggerCount", "Timetag"], ["DualThresholdedTriggerCount"]])
            s = self.seq[ci] = dict(chans=[], L=r.choice([8, 9, 100, 200, 1001, 2500]), src=r.choice(["first", "second", "last"]), thr=r.randint(1, 9), cond=r.choice(["greater_than_equal_to", "less_than"]),
                                    lab=None, hi=0, ref=r.choice(["start", "start", "end", "first"]), fine=fine and r.random() < 0.4, mode="qtm")
            s["hi"] = s["thr"] + r.randint(1, 5)
            for p in kinds:
                for _ in range(1 if p in ("Trace", "TimetagTrace") else r.randint(1, 2)):
                    bm = {"TriggerCount": r.choice(["append", "sum"]), "Timetag": r.choice(["append", "average"]), "Trace": "first"}.get(p, "append")
                    name = r.choice([nch, f"ch{nch}", f"{nch}x"]); nch += 1
                    self.chan[name] = dict(proto=p, bm=bm, ci=ci, used=False, mode="qtm"); s["chans"].append(name)

    def op(self, g, ci, depth_path=None):
        r = self.r; c = self.rig["chans"][ci]; s = self.seq[ci]
        names = [n for n in s["chans"] if not (self.chan[n]["proto"] == "Trace" and self.chan[n]["used"])]
        if not names: return None
        name = r.choice(names); d = self.chan[name]; p = d["proto"]
        L = r.choice([s["L"], s["L"], r.randint(8, 800)]) if not self.big else r.choice(LONG + [r.randint(65000, 300000)])
        kw = dict(port=c.port, clock=c.clock, acq_channel=name, bin_mode=d["bm"], duration=S.ns(L))
        if p == "Trace": d["used"] = True; L = max(L, 8); kw["duration"] = S.ns(L)
        if self.coords and r.random() < 0.4: kw["coords"] = {f"x{name}": r.choice([r.randint(-5, 5), round(r.uniform(-1, 1), 3)])}
        if p in ("Timetag", "TimetagTrace"): kw["time_ref"] = s["ref"] if p == "Timetag" or s["ref"] != "end" else "start"
        if p == "Timetag": kw["time_source"] = s["src"]
        if p == "ThresholdedTriggerCount": kw.update(threshold=s["thr"], feedback_trigger_condition=s["cond"], feedback_trigger_label=s["lab"])
        if p == "DualThresholdedTriggerCount": kw.update(threshold_low=s["thr"], threshold_high=s["hi"])
        if s["fine"] and p in ("TriggerCount", "Timetag", "TimetagTrace") and L >= 50:
            for k in ("fine_start_delay", "fine_end_delay"):
                if r.random() < 0.7: kw[k] = r.randint(0, 128 * 15) / 128 * 1e-9
        n = S.OP(p, L, **kw)
        n["ch"] = ci; n["what"] = "acq"; n["acq"] = name; n["gate"] = True; n["fine"] = s["fine"]
        return n

class Gen(qb.Gen):
    """Only acquisitions (timetagging channels play nothing but digital levels)."""
    def pulse(self, ci, maxdur): return None

    def slot(self, items, ci, t0, t1):
        r = self.r; t = t0 + r.choice([0, 0, r.randint(4, 30)])
        if r.random() < 0.2: return
        while t < t1 - 8:
            if r.random() < 0.2: t += r.randint(4, 300); continue
            a = self.acqs(self, ci)
            w = None if a is None else max(a["dur"] + (r.choice([0, 4, 50]) if not a.get("fine") else 25), 300)
            if a is None: break
            if t + w + 40 > t1:
                if a["c"] == "Trace": self.plan.chan[a["acq"]]["used"] = False
                break
            items.append((t, a)); self.c("acqs"); self.used.add(ci); t += w

def make(r, pool=None, reps=(1, 1, 2, 3, 5), fine=True):
    """A random schedule of digital acquisitions: (rig, plan, generator, schedule)."""
    while True:
        rg = rig(r, pool)
        if not rg["chans"]: continue
        big = r.random() < 0.1
        plan = Plan(r, rg, fine=fine, big=big)
        g = Gen(r, rg, {"acq"} | {f for f in ("loops", "nested", "share") if r.random() < 0.5}, total=r.choice([3000, 6000, 15000]) if not big else r.choice([400000, 1000000]), acqs=plan.op); g.plan = plan
        if big: g.c("long-acqs")
        top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rg, r.choice(reps))
        tr = [n["acq"] for _, n, _ in qacq.walk(top) if n["c"] == "Trace"]
        if len(set(tr)) != len(tr): continue
        qacq.set_explicit(top, plan, r)
        return rg, plan, g, top
