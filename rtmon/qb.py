"""Qblox rigs (hardware configurations), pulse-level schedule generation, compilation and execution.

A rig is a plain description; `hwcfg(rig)` turns it into the hardware configuration a user writes.  Schedules are generated with
absolute times (ns) per frame and built through the public API.
"""
from __future__ import annotations
import math
import numpy as np
from rtmon import spec as S, wfref, q1sim
from rtmon.core import Violation

CLN = "cl0.baseband"
MTYPES = ["QCM", "QRM", "QCM_RF", "QRM_RF"]
RF = {"QCM_RF", "QRM_RF", "QRC"}
CX_OUT = {"QCM": 2, "QRM": 1, "QCM_RF": 2, "QRM_RF": 1, "QRC": 6}
RE_OUT = {"QCM": 4, "QRM": 2}
HAS_IN = {"QRM": 1, "QRM_RF": 1, "QRC": 2}

class Chan(dict):
    """One port-clock combination: port, clock, freq, module, mtype, cname, cplx, inp (input channel name or None), lo, interm."""
    __getattr__ = dict.__getitem__
    @property
    def pc(self): return f"{self['port']}-{self['clock']}"

def make_rig(r, mtypes=None, want_in=None, multi_clock=True, real_ok=True, inputs=True, version=None, max_chan=6, lo_ok=True, pool=None):
    """Random modules and channels."""
    mts = list(mtypes) if mtypes else [r.choice(MTYPES) for _ in range(r.randint(1, 3))]
    slots = r.sample(range(1, 21), len(mts))
    if pool is not None:       # slots of an existing cluster: {module type: [slots]}
        free = {k: r.sample(v, len(v)) for k, v in pool.items()}
        mts = [m for i, m in enumerate(mts) if mts[:i].count(m) < len(free.get(m, []))]
        slots = [free[m].pop() for m in mts]
    version = version or r.choice(["0.1", "0.2"])
    rig = dict(modules={}, chans=[], version=version, clocks={}, lo={}, opts={}, cdesc={})
    np_ = 0
    for slot, mt in zip(slots, mts):
        rig["modules"][slot] = mt
        lay = []
        if real_ok and mt in RE_OUT and r.random() < 0.55:
            lay = [("real", i) for i in range(RE_OUT[mt])]
            if mt == "QCM" and r.random() < 0.3: lay = [("complex", 0), ("real", 2), ("real", 3)]
        else: lay = [("complex", i) for i in range(CX_OUT[mt])]
        lay = r.sample(lay, r.randint(1, min(len(lay), 3)))
        for kind, i in lay:
            port = f"q{np_}:{r.choice(['mw','fl','res','x'])}"; np_ += 1
            cname = f"{kind}_output_{i}"
            inp = None
            if inputs and mt in HAS_IN:
                ok = (kind == "complex" and i < 2) or kind == "real"
                if ok and not (mt == "QRC" and (i >= 2 or version == "0.1")): inp = f"{kind}_input_{i}"
            rfm = mt in RF
            nclk = r.choice([1, 1, 2]) if multi_clock else 1
            mix = None
            if rfm:
                lo = round(r.uniform(3e9, 9e9) / 1e6) * 1e6
                if mt == "QRC": lo = round(lo / 1e8) * 1e8
            else:
                lo = None
                if lo_ok and kind == "complex" and r.random() < 0.25:
                    lo = round(r.uniform(3e9, 7e9) / 1e6) * 1e6
                    rig["lo"][f"lo{np_}"] = dict(mod=slot, cname=cname, port=port); mix = f"lo{np_}"
            ifs = r.sample([x * 10e6 for x in range(-40, 41) if x], nclk)
            for k in range(nclk):
                if not rfm and lo is None:
                    if k == 0 and r.random() < 0.6: clock, f, inter = CLN, 0.0, None
                    else:
                        f = abs(ifs[k]); clock = f"{port.split(':')[0]}.c{k}"; inter = None
                else:
                    f = lo + ifs[k]; clock = f"{port.split(':')[0]}.c{k}"; inter = ifs[k]
                if clock != CLN: rig["clocks"][clock] = f
                if any(c["port"] == port and (c["clock"] == clock or c["freq"] == f) for c in rig["chans"]): continue
                rig["chans"].append(Chan(port=port, clock=clock, freq=f, slot=slot, mtype=mt, cname=cname, cplx=kind == "complex", inp=inp, lo=lo, interm=inter, mix=mix,
                                         how=r.choice(["lo", "if"]), nco=f - (lo or 0)))
    while len(rig["chans"]) > max_chan: rig["chans"].pop(r.randrange(len(rig["chans"])))
    used = {c["clock"] for c in rig["chans"]}
    rig["clocks"] = {k: v for k, v in rig["clocks"].items() if k in used}
    # one way of giving the LO per output: the first channel may give it by its IF, the others must agree
    seen = set()
    for c in rig["chans"]:
        key = (c["slot"], c["cname"])
        if key in seen: c["how"] = "lo"
        seen.add(key)
    usedports = {c["port"] for c in rig["chans"]}
    rig["lo"] = {k: v for k, v in rig["lo"].items() if v["port"] in usedports}
    rig["latency"] = {}
    rig["order"] = r.random()
    return rig

def hwcfg(rig, cluster="cluster0"):
    desc = {cluster: {"instrument_type": "Cluster", "ref": "internal", "modules": {str(s): {"instrument_type": mt} for s, mt in rig["modules"].items()}}}
    for (slot, cname), d in rig.get("cdesc", {}).items(): desc[cluster]["modules"][str(slot)][cname] = d
    for slot, d in rig.get("mdesc", {}).items(): desc[cluster]["modules"][str(slot)].update(d)
    mf, graph = {}, []
    done = set()
    for name, d in rig["lo"].items():
        desc[name] = {"instrument_type": "LocalOscillator", "power": 1}
        desc["iq" + name] = {"instrument_type": "IQMixer"}
        graph += [(f"{cluster}.module{d['mod']}.{d['cname']}", f"iq{name}.if"), (f"{name}.output", f"iq{name}.lo"), (f"iq{name}.rf", d["port"])]
        done.add((d["mod"], d["cname"], d["port"]))
    for c in rig["chans"]:
        k = (c["slot"], c["cname"], c["port"])
        if k not in done:
            done.add(k); graph.append((f"{cluster}.module{c['slot']}.{c['cname']}", c["port"]))
        if c["inp"] and rig["version"] == "0.2":
            k = (c["slot"], c["inp"], c["port"])
            if k not in done:
                done.add(k); graph.append((f"{cluster}.module{c['slot']}.{c['inp']}", c["port"]))
        if c["lo"] is not None:
            mf[c.pc] = {"lo_freq": c["lo"]} if c["how"] == "lo" else {"interm_freq": c["interm"]}
    for slot, dn, port in rig.get("digital", []): graph.append((f"{cluster}.module{slot}.{dn}", port))
    opts = {"modulation_frequencies": mf} if mf else {}
    if rig["latency"]: opts["latency_corrections"] = {pc: S.ns(x) for pc, x in rig["latency"].items()}
    for k, v in rig.get("opts", {}).items(): opts[k] = v
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig", "version": rig["version"],
            "hardware_description": desc, "hardware_options": opts, "connectivity": {"graph": graph}}

def config(rig, elements=(), edges=()):
    from quantify_scheduler import QuantumDevice
    qd = QuantumDevice("qd")
    for e in elements: qd.add_element(e)
    for e in edges: qd.add_edge(e)
    qd.hardware_config(hwcfg(rig))
    try: return qd.generate_compilation_config()
    finally: qd.close()

def compile_schedule(sched, cfg):
    from quantify_scheduler.backends import SerialCompiler
    return SerialCompiler("c").compile(sched, cfg)

def sequencers(compiled, cluster="cluster0"):
    """All (module slot, sequencer name, settings) of a compiled schedule."""
    out = []
    for m, v in compiled.compiled_instructions.get(cluster, {}).items():
        if not m.startswith(cluster + "_module"): continue
        for s, st in v["sequencers"].items():
            if st.sequence is not None: out.append((int(m[len(cluster) + 7:]), s, st))
    return out

def assign(compiled, rig, mon=None):
    """Which sequencer serves which channel: by output, and by modulation frequency when several share an output.
    Returns {channel index: (slot, seqname, settings)} and requires the pairing to be one to one."""
    res, seqs = {}, sequencers(compiled)
    for i, c in enumerate(rig["chans"]):
        hit = [(s, n, st) for s, n, st in seqs if s == c["slot"] and st.channel_name == c["cname"]]
        if sum(1 for d in rig["chans"] if d["slot"] == c["slot"] and d["cname"] == c["cname"]) > 1:
            hit = [h for h in hit if abs((h[2].modulation_freq or 0) - c["nco"]) < 0.5]
        if len(hit) > 1: raise Violation("portclock-served-twice", f"{c.pc}: {[(h[0], h[1]) for h in hit]}")
        if hit: res[i] = hit[0]
    if len({(s, n) for s, n, _ in res.values()}) != len(res): raise Violation("sequencer-shared", f"{[(i, v[:2]) for i, v in res.items()]}")
    extra = {(s, n) for s, n, _ in seqs} - {(s, n) for s, n, _ in res.values()}
    return res, extra

# ------------------------------------------------------------------ schedule generation
class Frame:
    """Book-keeping of occupied times inside one frame."""
    def __init__(self, nch):
        self.busy = [[] for _ in range(nch)]   # per channel [(start, end)]

class Gen:
    """feat: set of strings among pulses long offsets phase freq reset acq overlap loops nested marker share"""
    def __init__(self, r, rig, feat, total=4000, maxdepth=3, acqs=None, grid=1, amp=0.4):
        self.r, self.rig, self.feat, self.total, self.maxdepth, self.acqs, self.grid, self.amp = r, rig, feat, total, maxdepth, acqs, grid, amp
        self.sid = 0; self.used = set(); self.pool = {}; self.counts = {}
        self.kinds = [k for k in wfref.PULSE_KINDS]
        self.fset = set(); self.nph = {}
        self.mem = {}; self.hold = {}   # channel -> persistent offset active (avoid long pulses there)
        self.gap = 4                    # smallest time between two instructions

    def c(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n

    def pulse(self, ci, maxdur):
        """A pulse op for channel ci with duration <= maxdur, or None"""
        r = self.r; ch = self.rig["chans"][ci]
        if "inline" in self.feat and maxdur >= 8 and r.random() < 0.3:
            n = self.inline(self, ci, maxdur)
            if n is not None: self.used.add(ci); return n
        if "share" in self.feat and self.pool.get(ci) and r.random() < 0.35:
            n = r.choice(self.pool[ci])
            if n["dur"] <= maxdur and not (self.hold.get(ci) and n["dur"] >= 100): self.c("shared"); return n
        if "long" in self.feat and maxdur >= 110 and r.random() < 0.35 and not self.hold.get(ci):
            d = r.choice([100, 101, 110, r.randint(100, min(maxdur, 3000)), r.randint(100, maxdur)])
            d = min(d, maxdur); self.c("long")
            x = r.random()
            if d > 1100 and x < 0.3 and self.mem.get(ci, 0) + 2 * d < 9000:   # long sampled pulses that are zero at both ends
                a = [round(r.uniform(-self.amp, self.amp), 3) for _ in range(3)]; d = r.choice([1100, 1100, d])
                n = S.OP("NumericalPulse", d, samples=[0.0, 0.0] + a + [0.0, 0.0], t_samples=[S.ns(d) * k / 6 for k in range(7)])
                self.mem[ci] = self.mem.get(ci, 0) + 2 * d; self.c("longsampled")
                n["kw"].update(port=ch.port, clock=ch.clock); n["ch"] = ci; n["what"] = "pulse"; self.used.add(ci)
                return n
            if x < 0.55 or maxdur < 2000 or self.mem.get(ci, 0) > 7000:
                v = round(r.uniform(0.05, self.amp), 4) * r.choice([1, -1])
                if ch.cplx and r.random() < 0.4: v = complex(v, round(r.uniform(-self.amp, self.amp), 4))
                n = S.OP("SquarePulse", d, amp=v, duration=S.ns(d))
            else:
                d = r.choice([2000, 2001, 2003, r.randint(2000, maxdur), 4000, 6000]); d = min(d, maxdur); d = max(d, 2000)
                n = S.OP("RampPulse", d, amp=round(r.uniform(0.05, self.amp), 4) * r.choice([1, -1]), offset=r.choice([0, 0, round(r.uniform(-0.3, 0.3), 4)]), duration=S.ns(d))
                if ch.clock != CLN and "longramp_clock" not in self.feat: return self.pulse(ci, min(maxdur, 99))
                self.c("longramp"); self.mem[ci] = self.mem.get(ci, 0) + 4100
        else:
            kind = r.choice(self.kinds)
            lo = {"SuddenNetZeroPulse": 6, "NumericalPulse": 5, "SoftSquarePulse": 4, "StaircasePulse": 12, "DRAGPulse": 4, "GaussPulse": 4, "SkewedHermitePulse": 4, "RampPulse": 2}.get(kind, 1)
            if maxdur < lo: kind, lo = "SquarePulse", 1
            hi = min(maxdur, 99 if kind == "SquarePulse" else 400)
            d = r.randint(lo, hi)
            if self.mem.get(ci, 0) + 2 * d > 12000: return None
            if self.grid > 1: d = max(self.grid, d // self.grid * self.grid)
            kw = wfref.random_pulse(r, kind, d, self.amp, ch.cplx)
            if kind == "StaircasePulse":   # no sample exactly on an edge
                while math.gcd(kw["num_steps"], d) > 1: kw["num_steps"] += 1
            self.mem[ci] = self.mem.get(ci, 0) + (2 if ch.cplx else 1) * d
            if not ch.cplx:
                if kind == "ChirpPulse": kind, kw = "SquarePulse", dict(amp=0.2, duration=S.ns(min(d, 99))); d = min(d, 99)
                if kind == "DRAGPulse": kw["D_amp"] = 0; kw["phase"] = 0
                if kind == "GaussPulse": kw["phase"] = 0
            n = S.OP(kind, d, **kw)
        n["kw"].update(port=ch.port, clock=ch.clock); n["ch"] = ci; n["what"] = "pulse"
        if "share" in self.feat and r.random() < 0.4:
            self.sid += 1; n["sid"] = self.sid; self.pool.setdefault(ci, []).append(n)
        self.used.add(ci)
        return n

    def looped_acq(self, room):
        """An acquisition that can follow itself, or None."""
        ci = self.r.randrange(len(self.rig["chans"])); a = self.acqs(self, ci) if self.rig["chans"][ci]["inp"] else None
        if a is None: return None
        if not 300 <= a["dur"] <= room or a.get("fine"):
            if a["c"] == "Trace": self.acqs.__self__.chan[a["acq"]]["used"] = False
            return None
        self.used.add(ci); self.c("acqs")
        return a

    def frame(self, length, depth, name="f"):
        """A sched node of given length; every block (loop, nested schedule) has its time to itself."""
        r = self.r; nch = len(self.rig["chans"])
        items = [(0, S.IDLE(length))]
        t = r.choice([0, 0, r.randint(4, 20)])
        top = not getattr(self, "started", False); self.started = True
        if top and "clk" in self.feat: t = r.randint(4, 40)
        while t < length - 8:
            room = length - t
            if "cond" in self.feat and r.random() < 0.5:
                u = self.conditional(items, t, room, depth)
                if u: t = u; continue
            if depth > 0 and room > 60 and r.random() < 0.45 and ({"loops", "nested"} & self.feat):
                kinds = [k for k in ("loops", "nested") if k in self.feat]
                k = r.choice(kinds)
                if k == "loops":
                    n = r.randint(1, 5); b = max(16, min(room // n, r.randint(16, 1500)))
                    if b * n > room: n = max(1, room // b)
                    if b * n > room or 0 < room - b * n < 4: break
                    p = None
                    if r.random() < 0.15 and "cond" not in self.feat: p = self.pulse(r.randrange(nch), min(room // n, 300)) if r.random() < 0.6 else None
                    if p is None and self.acqs and "acq" in self.feat and "cond" not in self.feat and r.random() < 0.4: p = self.looped_acq(room // n)
                    if p is not None and p["dur"] >= 12: b = p["dur"]; node = S.LOOP(p, n); self.c("loop-of-acq" if p["what"] == "acq" else "loop-of-pulse")
                    else: node = S.LOOP(self.frame(b, depth - 1), n)
                    if b * n * 2 + 8 <= room and r.random() < 0.25: n2 = r.randint(1, min(3, (room - 4) // (b * n))); node = S.LOOP(node, n2); n *= n2; self.c("loop-of-loop")
                    if 0 < room - b * n < 4: break
                    node["dur"] = b * n; self.c("loops")
                    items.append((t, node)); t += b * n
                else:
                    b = r.randint(16, room); b = min(b, 3000)
                    if 0 < room - b < 4: b -= 4
                    node = self.frame(b, depth - 1); self.c("nested")
                    if "share" in self.feat and r.random() < 0.3:
                        self.sid += 1; node["sid"] = self.sid
                        items.append((t, node)); t += b
                        if length - t >= b + 8 and r.random() < 0.7:
                            t += r.choice([4, 5, r.randint(4, 100)])
                            if length - t == b or length - t >= b + 4: items.append((t, node)); t += b; self.c("shared-frame")
                    else: items.append((t, node)); t += b
                t += r.choice([0, 4, r.randint(4, 60)])
            else:
                w = min(room, r.choice([r.randint(20, 300), r.randint(100, 1500), r.randint(500, max(600, self.total // 2))]))
                for ci in range(nch): self.slot(items, ci, t, t + w)
                t += w + r.choice([4, 5, r.randint(4, 40)])
        if "clk" in self.feat: self.clock_ops(items, length)
        if top and "clk" in self.feat:
            for clk in sorted(self.fset): items.append((0, self.clock_op(clk, "freq0")))
        head, rest = items[0], items[1:]
        r.shuffle(rest)
        rest.sort(key=lambda x: x[1].get("what") not in ("offset", "clk"))   # parameters go before what they apply to
        its = [S.ITEM(head[1])]
        for tt, n in rest: its.append(S.ITEM(n, S.CON(ref=0, pt="start", rel=tt)))
        return dict(S.SCHED(its, name=f"{name}{self.r.randrange(10**6)}"), dur=length)

    # ---- clock operations
    def clock_op(self, clk, kind):
        r = self.r
        if kind == "phase":
            ph = r.choice([90, -90, 180, 360, -720.5, r.uniform(-400, 400), r.uniform(-2, 2), 1e-3])
            n = S.OP("ShiftClockPhase", 0, phase_shift=ph, clock=clk)
        elif kind == "reset": n = S.OP("ResetClockPhase", 0, clock=clk)
        elif kind == "freq0": n = S.OP("SetClockFrequency", 0, clock=clk, clock_freq_new=r.choice([None, self.rig["clocks"][clk]]))
        else:
            lo, hi = -1e12, 1e12
            for c in self.rig["chans"]:
                if c.clock == clk:
                    mid = (c.lo or 0) if not c.get("down") else c["down"] - c.lo
                    lo, hi = max(lo, mid - 499e6), min(hi, mid + 499e6)
            f = r.choice([None, round(r.uniform(lo, hi)), round(r.uniform(lo, hi) / 1e6) * 1e6, r.uniform(lo, hi), lo - 1e6, hi + 1e6])
            n = S.OP("SetClockFrequency", 0, clock=clk, clock_freq_new=f); self.fset.add(clk)
        n["what"] = "clk"; n["clk"] = clk; self.c(kind)
        return n

    def clock_ops(self, items, length):
        """Phase shifts, phase resets and frequency changes, on their own or together with a pulse."""
        r = self.r; chans = self.rig["chans"]
        blocks = [(t, t + n["dur"]) for t, n in items[1:] if "what" not in n]
        clks = sorted({c.clock for c in chans if c.clock != CLN})
        for clk in clks:
            if r.random() < 0.25: continue
            own = {i for i, c in enumerate(chans) if c.clock == clk}
            times, tails = set(), set()
            for t, n in items[1:]:
                if n.get("ch") in own:
                    times.add(t)
                    if n["what"] == "pulse" and n["dur"] >= 100 and n["c"] == "SquarePulse": times.add(t + n["dur"] - 4); tails.add(t + n["dur"] - 4)
                    if n["what"] == "pulse" and n["dur"] >= 2000 and n["c"] == "RampPulse": times |= {t + k for k in range(0, n["dur"], 2000)}; tails |= {t + k for k in range(2000, n["dur"], 2000)}
            ps = sorted(t for t, n in items[1:] if n.get("ch") in own and n["what"] in ("pulse", "acq"))
            mine = {}
            for _ in range(r.randint(1, 6)):
                T = r.choice(ps) if ps and r.random() < 0.5 else r.randrange(0, length)
                if r.random() < 0.15 and blocks: T = r.choice(blocks)[1]
                if T > length - 4: continue
                if any(b0 == T or b0 - 4 < T < b1 or b1 < T < b1 + 4 for b0, b1 in blocks): continue
                if T in tails or any(0 < abs(x - T) < 4 for x in times) or any(0 < abs(x - T) < 4 for x in mine): continue
                if T < 4: continue
                kind = r.choice(["phase", "phase", "reset", "freq"])
                grp = "freq" if kind == "freq" else "phase"
                if grp in mine.get(T, ()): continue
                mine.setdefault(T, set()).add(grp)
                items.append((T, self.clock_op(clk, kind)))

    def slot(self, items, ci, t0, t1):
        """Fill [t0, t1) of one channel."""
        r = self.r; t = t0 + r.choice([0, 0, r.randint(4, 30)])
        if r.random() < 0.2: return
        off = False; last = t0 - 4; gap = 4   # last instruction; smallest gap to what comes next
        while t < t1 - 8:
            x = r.random()
            if "offsets" in self.feat and not off and x < 0.12 and t1 - t > 40:
                ch = self.rig["chans"][ci]
                v = [round(r.uniform(-0.3, 0.3), 4), round(r.uniform(-0.3, 0.3), 4) if ch.cplx else 0.0]
                items.append((t, self.offset(ci, v))); self.hold[ci] = True; off = True; last = t; gap = 4
                t += r.choice([4, r.randint(4, 50)]) if r.random() < 0.8 else 0
                pass
                continue
            if x < 0.25: t += r.randint(gap, 60); gap = 1; continue
            if "acq" in self.feat and self.acqs is not None and self.rig["chans"][ci]["inp"] and x > 0.75 and not off:
                a = self.acqs(self, ci, depth_path=None)
                w = None if a is None else max(a["dur"], 300)
                if a is not None and t + w + 40 <= t1:
                    d = 0
                    if r.random() < 0.5:
                        d = r.randint(self.gap, 40); p = self.pulse(ci, r.choice([w, 99, d + 400]) if not a.get("gate") else 99)
                        if p is not None and a.get("gate") and p["dur"] >= 100: p = None
                        if p is not None and p["c"] in ("SquarePulse",) and p["dur"] >= 100 and abs(p["dur"] - 4 - d) < 4: p = None
                        if p is not None and (p["dur"] >= 2000 or t + max(d + w, p["dur"]) > t1 - 8): p = None
                        if p is None: d = 0
                        else: items.append((t, p)); self.c("pulses"); w = max(d + w, p["dur"])
                    items.append((t + d, a)); self.c("acqs"); last = t + d; gap = 1; t += w + (self.gap if a.get("gate") and self.gap > 4 else 0); self.used.add(ci)
                    continue
            p = self.pulse(ci, t1 - t - (4 if off else 0))
            if p is None: break
            if "wave" in p and off and last == t: t += 4      # a parameter change at the time of an inline program is refused
            if off and t + p["dur"] > t1 - 8: break
            items.append((t, p)); self.c("pulses"); last = t; gap = 1
            if "overlap" in self.feat and not off and p["dur"] >= 12 and p["c"] not in ("RampPulse", "InlineQ1ASM") and r.random() < 0.3 and "sid" not in p:
                # a second pulse on top, its start at least 4 ns from other edges
                s = r.choice([0, r.randint(4, p["dur"] - 4)])
                d = r.choice([p["dur"] - s, r.randint(4, 90)])
                if r.random() < 0.3: d = p["dur"] - s + r.choice([-3, -2, -1, 1, 2, 3])
                near = 0 < abs(s + d - p["dur"]) < 4; first = min(s + d, p["dur"])
                if not near or (first >= s + 4 and t + first + 4 <= t1):
                    if d >= 4 and t + s + d <= t1:
                        q = S.OP("SquarePulse", d, amp=round(r.uniform(-.2, .2), 3), duration=S.ns(d), port=p["kw"]["port"], clock=p["kw"]["clock"]); q["ch"] = ci; q["what"] = "pulse"
                        if d < 100:
                            items.append((t + s, q)); self.c("overlaps"); t = max(t, t + s + d - p["dur"], t + first + 4 - max(4, p["dur"]) if near else 0); self.c("near-ends", near)
            t += max(self.gap, p["dur"])
            if "wave" in p: t += r.choice([0, r.randint(4, 40)]); gap = 4     # the compiler cannot lengthen an inline program by 1..3 ns
            else: t += r.choice([0, 0, r.randint(0, 40)])
            if off and r.random() < 0.3 and t < t1 - 8:
                items.append((t, self.offset(ci, [0.0, 0.0]))); off = False; self.hold[ci] = False; last = t; t += 4
        if off:
            tt = max(last + 4, min(t, t1 - 4))
            items.append((tt, self.offset(ci, [0.0, 0.0]))); self.hold[ci] = False

    def offset(self, ci, v):
        ch = self.rig["chans"][ci]; self.used.add(ci); self.c("offsets")
        n = S.OP("VoltageOffset", 0, offset_path_I=v[0], offset_path_Q=v[1], port=ch.port, clock=ch.clock); n["ch"] = ci; n["what"] = "offset"
        return n

def with_clocks(node, rig, reps=1):
    node = dict(node); node["clocks"] = dict(rig["clocks"]); node["reps"] = reps
    return node

# ------------------------------------------------------------------ expected signals
def scaled(n):
    """Absolute sum bound on the value of one pulse"""
    return 1

def expected_envelope(flat, ci, length, offs0=0j):
    """Sum of pulses and offsets of channel ci on a 1 ns grid."""
    y = np.zeros(length, complex); cnt = np.zeros(length + 1, int)
    offs = []
    for t, n, _, _ in flat:
        if n.get("ch") != ci: continue
        t = int(t)
        if n["what"] == "offset": offs.append((t, complex(n["kw"]["offset_path_I"], n["kw"]["offset_path_Q"])))
        elif n["what"] == "pulse":
            kw = {k: v for k, v in n["kw"].items() if k not in ("port", "clock")}
            w = n["wave"] if "wave" in n else wfref.sample_pulse_spec(n["c"], kw)
            y[t:t + len(w)] += w; cnt[t] += 1; cnt[min(length, t + len(w))] -= 1
    offs.sort(key=lambda x: x[0])
    cur = offs0; last = 0
    o = np.zeros(length, complex)
    for t, v in offs: o[last:t] = cur; cur = v; last = t
    o[last:] = cur
    return y + o, np.cumsum(cnt)[:length], cur
