"""Acquisitions: generation plans per sequencer, reference numbering of acquisition indices, structural walk."""
from __future__ import annotations
import numpy as np
from rtmon import spec as S, qb, wfref

SQUARE = ["SSBIntegrationComplex", "ThresholdedAcquisition"]
WEIGHTED = ["NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"]

class Plan:
    """What the acquisitions of each measuring channel of a rig look like."""
    def __init__(self, r, rig, modes=("square", "weighted", "ttl"), explicit=True, coords=True, traces=True, shared=0.15, long=None):
        self.r, self.rig, self.explicit, self.coords = r, rig, explicit, coords
        self.seq, self.chan = {}, {}
        trace_mod = set(); nch = 0
        for ci, c in enumerate(rig["chans"]):
            if not c["inp"]: continue
            mode = r.choice([m for m in modes if m != "ttl" or (c["inp"].startswith("real") and rig["version"] == "0.2")])
            L = r.choice([4, 60, 100, 300, 300, 1000, 2000])
            if mode == "ttl": L = r.choice([8, 12, 100, 500, 1000, 2001])
            if mode == "weighted": L = r.choice([20, 100, 300, 700])
            elif long: L = r.choice(long) if mode == "ttl" else r.choice([16384, 16383, 12000])
            seq = dict(mode=mode, dur=L, rot=r.choice([0, 0, r.randint(0, 359), round(r.uniform(0, 359), 3)]), thr=r.choice([0, round(r.uniform(-1, 1), 4), round(r.uniform(-0.01, 0.01), 6)]), chans=[], thresholded=False, weights=[])
            self.seq[ci] = seq
            pool = {"square": SQUARE, "weighted": WEIGHTED, "ttl": ["TriggerCount"]}[mode]
            dist = mode == "ttl" and r.random() < 0.2
            for _ in range(r.randint(1, 3)):
                old = [n for n, d in self.chan.items() if d["mode"] == mode != "ttl" and d["proto"] != "Trace" and n not in seq["chans"]]
                if old and r.random() < shared:      # one acquisition channel on several ports
                    name = r.choice(old); seq["chans"].append(name); seq["thresholded"] |= "Thresholded" in self.chan[name]["proto"]
                    continue
                proto = r.choice(pool)
                if proto == "TriggerCount": bm = "distribution" if dist else r.choice(["append", "sum"])
                else: bm = r.choice(["append", "average"])
                name = r.choice([nch, f"ch{nch}", f"{nch}x"]); nch += 1
                self.chan[name] = dict(proto=proto, bm=bm, ci=ci, mode=mode); seq["chans"].append(name)
                if "Thresholded" in proto: seq["thresholded"] = True
            if traces and mode == "square" and (c["slot"] not in trace_mod) and r.random() < 0.35:
                trace_mod.add(c["slot"]); name = f"tr{nch}"; nch += 1
                self.chan[name] = dict(proto="Trace", bm="average", ci=ci, used=False, mode=mode); seq["chans"].append(name)
            if mode == "weighted":
                rate = r.choice([1e9, 1e9, 5e8, 2.5e8])
                L = max(8, L // 4 * 4); seq["dur"] = L; n = int(L * rate / 1e9)
                seq["rate"] = rate
                for _ in range(r.randint(2, 3)):
                    m = 1.0 if rate == 1e9 else 0.3   # the last interval is extrapolated
                    seq["weights"].append([round(r.uniform(-m, m), 3) for _ in range(n)] if r.random() < 0.8 else [m * r.choice([0.5, 1.0, -1.0])] * n)
    def op(self, g, ci, depth_path=None):
        """Node of one acquisition on channel ci (None if nothing fits)."""
        r = self.r; c = self.rig["chans"][ci]; seq = self.seq.get(ci)
        if seq is None: return None
        names = [n for n in seq["chans"] if not (self.chan[n]["proto"] == "Trace" and (self.chan[n]["used"] or r.random() < 0.6))]
        if not names: return None
        name = r.choice(names); ch = self.chan[name]; L = seq["dur"]
        kw = dict(port=c.port, clock=c.clock, acq_channel=name, bin_mode=ch["bm"])
        if self.coords and r.random() < 0.4: kw["coords"] = {f"x{name}": r.choice([r.randint(-5, 5), round(r.uniform(-1, 1), 3)])}
        p = ch["proto"]
        if p == "ThresholdedAcquisition": kw.update(acq_rotation=seq["rot"], acq_threshold=seq["thr"])
        if p == "WeightedThresholdedAcquisition": kw.update(acq_threshold=seq["thr"])
        if p in WEIGHTED: kw.update(weights_a=r.choice(seq["weights"]), weights_b=r.choice(seq["weights"]), weights_sampling_rate=seq["rate"])
        else: kw["duration"] = S.ns(L)
        n = S.OP(p, L, **kw)
        n["ch"] = ci; n["what"] = "acq"; n["acq"] = name
        if seq["mode"] == "ttl": n["gate"] = True
        if p == "Trace": ch["used"] = True
        return n

def walk(node, alap=False, spath=(), loops=()):
    """Static acquisitions in time order: (structural path, node, loop repetitions)."""
    k = node["k"]
    if k == "op":
        if node.get("what") == "acq": yield spath, node, loops
    elif k == "loop": yield from walk(node["body"], alap, spath + (None,), loops + (node["n"],))
    elif k == "cond": yield from walk(node["body"], alap, spath + (None,), loops)
    else:
        st = S.starts(node, alap)
        for i in sorted(range(len(st)), key=lambda i: st[i]): yield from walk(node["items"][i]["node"], alap, spath + (i,), loops)

def executed(node, t=0, alap=False, spath=(), lin=0, tot=1):
    """Executed acquisitions: (time, node, structural path, linear index over all enclosing loops)."""
    k = node["k"]
    if k == "op":
        if node.get("what") == "acq": yield t, node, spath, lin
    elif k == "loop":
        d = S.duration(node["body"], alap)
        for i in range(node["n"]): yield from executed(node["body"], t + i * d, alap, spath + (None,), lin * node["n"] + i)
    elif k == "cond": yield from executed(node["body"], t, alap, spath + (None,), lin)
    else:
        st = S.starts(node, alap)
        for i, it in enumerate(node["items"]): yield from executed(it["node"], t + st[i], alap, spath + (i,), lin)

def is_avg(n): return n["kw"]["bin_mode"] in ("average", "sum") and n["c"] != "Trace"
def is_app(n): return n["kw"]["bin_mode"] == "append"

def set_explicit(top, plan, r, p=0.5):
    """Give some channels' acquisitions explicit indices, numbered as required."""
    stat = list(walk(top)); seen = {}
    for sp, n, _ in stat: seen[id(n)] = seen.get(id(n), 0) + 1
    use = {name: r.random() < p for name in plan.chan}
    cnt = {}
    for sp, n, loops in stat:
        name = n["acq"]
        if n["c"] == "Trace" or n["kw"]["bin_mode"] == "distribution" or not use[name] or seen[id(n)] > 1: continue
        if r.random() < 0.75:
            n["kw"]["acq_index"] = cnt.get(name, 0)
            cnt[name] = cnt.get(name, 0) + (int(np.prod(loops)) if is_app(n) and loops else 1)

def number(top, alap=False):
    """Reference numbering: {channel: dict(proto, bm, coords)}, {structural path: first index}."""
    chans, first = {}, {}
    for explicit in (True, False):
        for sp, n, loops in walk(top, alap):
            kw = n["kw"]; name = kw["acq_channel"]; idx = kw.get("acq_index")
            if (idx is not None) != explicit: continue
            co = dict(kw.get("coords") or {})
            c = chans.setdefault(name, dict(proto=n["c"], bm=kw["bin_mode"], coords=[] if n["c"] != "Trace" and kw["bin_mode"] != "distribution" else co, dur=[]))
            if not isinstance(c["coords"], list): continue
            first[sp] = len(c["coords"])
            if is_avg(n): c["coords"].append(co)
            else:
                if idx is not None: co = {f"acq_index_legacy_{name}": idx, **co}
                if not loops: c["coords"].append(co)
                else: c["coords"] += [{f"loop_repetition_{name}": k, **co} for k in range(int(np.prod(loops)))]
            c["dur"] += [n["dur"]] * (len(c["coords"]) - len(c["dur"]))
    return chans, first

def weight(samples, rate, dur):
    """Weight sampled at 1 GS/s, linear interpolation."""
    s = np.asarray(samples, complex); ts = np.arange(len(s)) / rate
    t = np.arange(dur) * 1e-9
    return wfref.interp(t, s, ts)
