"""Q10: executed outputs put through the configured crosstalk model, and through the reference correction functions."""
import math, warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, wfref

LEVEL = "exploration"
RULE = ("A case is a random schedule (pulses of every library shape at the same or different times on several port-clocks, operations with several pulses, loops, nested and re-used schedules, long pulses, measurement-like "
        "operations) on a random cluster with a random crosstalk table and random software distortion corrections. The programs are executed; the outputs, multiplied by the crosstalk matrix, must be the scheduled pulses, "
        "outputs with a distortion correction must be the correction function of the sampled pulses, all others must be unchanged. Non-trivial: a pulse on a corrected port-clock; distinct by schedule and configuration.")
ASSUMPTIONS = ["crosstalk acts on the envelopes: the value configured for source and target is the part of the source's signal that appears at the target", "pulses played by offsets (square from 100 ns, ramps from 2 us) are documented as not distortion corrected; a RuntimeWarning says so",
               "pulses on distortion corrected port-clocks do not overlap there", "amplitude quantisation of 2^-15 per gain or offset"]
MINIMUM = {"crosstalk": 250, "distortion": 250, "corrected-pulses": 600, "compensated-pulses": 1500, "samples": 200000, "multi": 150, "loops": 80, "nested": 80, "shared": 100, "simultaneous": 200, "clipped": 60, "resampled": 30, "long": 80, "not-corrected-long": 20, "untouched": 100, "acquisitions": 30, "asymmetric": 100}

def jobs(tier, seed):
    n = 900 if tier == "quick" else 40000
    return [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

SHAPES = [k for k in wfref.PULSE_KINDS]

def make_pulse(r, ch, D, amp=0.25):
    kind = r.choice(SHAPES); lo = {"SuddenNetZeroPulse": 12, "StaircasePulse": 12, "NumericalPulse": 8}.get(kind, 4)
    if D < lo: kind = "SquarePulse"
    if not ch.cplx and kind == "ChirpPulse": kind = "SquarePulse"
    kw = wfref.random_pulse(r, kind, D, amp, ch.cplx)
    if kind == "StaircasePulse":
        while math.gcd(kw["num_steps"], D) > 1: kw["num_steps"] += 1
    if not ch.cplx:
        if kind == "DRAGPulse": kw["D_amp"] = 0
        if "phase" in kw and kind != "SkewedHermitePulse": kw["phase"] = 0
    n = S.OP(kind, D, **kw); n["kw"].update(port=ch.port, clock=ch.clock)
    return n

class Gen:
    def __init__(self, r, rig, groups, feat):
        self.r, self.rig, self.groups, self.feat = r, rig, groups, feat; self.counts = {}; self.pool = []; self.sid = 0; self.mem = 0
        self.xt = sorted(groups["xt"]); self.dc = sorted(groups["dc"])
    def c(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def op(self, ci, D):
        r = self.r
        if "share" in self.feat and r.random() < 0.3:
            c = [n for n in self.pool if n["ch"] == ci and n["dur"] == D]
            if c: self.c("shared"); return r.choice(c)
        n = make_pulse(r, self.rig["chans"][ci], D); n["ch"] = ci; n["what"] = "pulse"; self.mem += D
        if "share" in self.feat and r.random() < 0.5: self.sid += 1; n["sid"] = self.sid; self.pool.append(n)
        return n
    def multi(self):
        """One operation with several pulses one after another, possibly on different port-clocks, possibly after a phase reset."""
        r = self.r; n = None; t = 0; plus = []
        allch = list(range(len(self.rig["chans"])))
        for _ in range(r.randint(1, 3)):
            ci = r.choice(allch); D = 4 * r.randint(3, 20); p = make_pulse(r, self.rig["chans"][ci], D); p["ch"] = ci; p["kw"]["t0"] = S.ns(t); p["at"] = t; t += D + r.choice([0, 4, 20]); plus.append(p); self.mem += D
        if r.random() < 0.4 and self.rig["chans"][plus[0]["ch"]].clock != qb.CLN:
            n = S.OP("ResetClockPhase", 0, clock=self.rig["chans"][plus[0]["ch"]].clock)
        else: n = S.OP("IdlePulse", 4, duration=S.ns(4)) if r.random() < 0.2 else plus.pop(0)
        n = dict(n); n["first"] = n.get("ch") is not None and dict(n); n["plus"] = plus; n["dur"] = t; n["what"] = "multi"; n.pop("ch", None)
        acq = [c for c in allch if self.rig["chans"][c]["inp"]]
        if acq and r.random() < 0.5:
            c = r.choice(acq); ch = self.rig["chans"][c]; self.c("acquisitions")
            n["addacq"] = S.OP("SSBIntegrationComplex", 300, port=ch.port, clock=ch.clock, duration=S.ns(300), acq_channel=f"c{c}", bin_mode="average"); n["acqch"] = c
            n["addacq"]["kw"]["t0"] = S.ns(t + 4); n["dur"] = t + 304
        if "share" in self.feat and r.random() < 0.4: self.sid += 1; n["sid"] = self.sid
        self.c("multi"); return n
    def frame(self, blocks, depth):
        r = self.r; t = 4 * r.randint(0, 5); items = []; subs = []
        for _ in range(blocks):
            x = r.random()
            if depth and x < 0.2 and "loops" in self.feat: n = S.LOOP(self.frame(r.randint(1, 2), depth - 1), r.randint(1, 4)); n["dur"] = n["n"] * n["body"]["dur"]; n = dict(S.LOOP(n, 2), dur=2 * n["dur"]) if r.random() < 0.2 else n; items.append((t, n)); self.c("loops"); t += n["dur"]
            elif depth and x < 0.4 and "nested" in self.feat:
                if subs and r.random() < 0.4: n = r.choice(subs); self.c("shared")
                else:
                    n = self.frame(r.randint(1, 3), depth - 1); self.c("nested")
                    if "share" in self.feat and r.random() < 0.6: self.sid += 1; n["sid"] = self.sid; subs.append(n)
                items.append((t, n)); t += n["dur"]
            elif x < 0.55 and "multi" in self.feat:
                n = self.multi(); items.append((t, n)); t += n["dur"]
                if r.random() < 0.4 and not n.get("addacq"): items.append((t, n)); t += n["dur"]; self.c("shared")
            elif x < 0.65 and "long" in self.feat and self.mem < 4000:
                ci = r.randrange(len(self.rig["chans"])); ch = self.rig["chans"][ci]; D = r.choice([100, 120, 4 * r.randint(25, 400)])
                v = round(r.uniform(.05, .25), 4) * r.choice([1, -1])
                if ch.cplx and r.random() < 0.4: v = complex(v, round(r.uniform(-.2, .2), 4))
                if r.random() < 0.25 and ci not in self.groups["dc"]: D = r.choice([2000, 2400, 4000]); n = S.OP("RampPulse", D, amp=v if not isinstance(v, complex) else v.real, offset=r.choice([0, 0.1]), duration=S.ns(D)); self.mem += 4100
                else: n = S.OP("SquarePulse", D, amp=v, duration=S.ns(D))
                n["kw"].update(port=ch.port, clock=ch.clock); n["ch"] = ci; n["what"] = "pulse"; items.append((t, n)); self.c("long"); t += D
                if ci in self.groups["dc"]: self.c("not-corrected-long"); self.longdc = True
            else:
                W = 4 * r.randint(8, 40); last = t; used = 0
                for ci in range(len(self.rig["chans"])):
                    if r.random() < 0.3: continue
                    u = t + 4 * r.choice([0, 0, r.randint(0, 6)])
                    while u < t + W - 12 and self.mem < 6000:
                        D = 4 * r.randint(1, min(24, (t + W - u) // 4)); items.append((u, self.op(ci, D))); last = max(last, u + D); u += D + 4 * r.choice([0, 0, r.randint(0, 8)])
                    used += 1
                if used > 1: self.c("simultaneous")
                t = max(t + W, last)
            t += 4 * r.choice([1, 1, r.randint(1, 10)])
        its = [S.ITEM(S.IDLE(t))]; r.shuffle(items)
        for tt, n in items: its.append(S.ITEM(n, S.CON(ref=0, pt="start", rel=tt)))
        return dict(S.SCHED(its, f"f{r.randrange(10 ** 9)}"), dur=t)

def make(job):
    r = rng_for("Q10", job["seed"], job["i"])
    kind = r.choice(["real", "complex", "rf"])
    mts = {"real": ["QCM", "QCM", "QRM"], "complex": ["QCM", "QRM", "QCM"], "rf": ["QCM_RF", "QRM_RF", "QRC"]}[kind]
    while True:
        rig = qb.make_rig(r, mtypes=[r.choice(mts) for _ in range(r.randint(1, 3))], real_ok=kind == "real", multi_clock=kind != "real", max_chan=6)
        if rig["chans"]: break
    n = len(rig["chans"]); idx = list(range(n)); r.shuffle(idx)
    k = r.randint(0, n); xt = set(i for i in idx[:k] if True); 
    if len({rig["chans"][i].cplx for i in xt}) > 1: xt = {i for i in xt if rig["chans"][i].cplx == rig["chans"][min(xt)].cplx}
    if len(xt) < 2: xt = set()
    dc = {i for i in idx if i not in xt and r.random() < 0.6}
    feat = {f for f in ("loops", "nested", "share", "multi", "long") if r.random() < 0.6}
    M = np.eye(n, dtype=complex)
    if xt:
        tab = {}; order = sorted(xt); r.shuffle(order)
        for a in order:
            for b in order:
                if a != b and r.random() < 0.6:
                    v = round(r.uniform(-.25, .25), 3)
                    if rig["chans"][a].cplx and r.random() < 0.4: v = complex(v, round(r.uniform(-.2, .2), 3))
                    M[a, b] = v; tab.setdefault(rig["chans"][a].pc, {})[rig["chans"][b].pc] = v
        if r.random() < 0.1 and tab: a = r.choice(order); M[a, a] = v = r.choice([0.8, 1.1]); tab.setdefault(rig["chans"][a].pc, {})[rig["chans"][a].pc] = v
        if tab: rig["opts"]["crosstalk"] = tab
        else: xt = set()
        listed = {p for p, t in tab.items()} | {q for t in tab.values() for q in t}
        xt = {i for i in xt if rig["chans"][i].pc in listed}
    corr = {}
    for i in dc:
        f = r.choice(["lfilter", "lfilter", "iir", "echo", "cubic", "multiply"]); c = [round(r.uniform(-.4, .4), 3) for _ in range(r.randint(1, 6))]; c[0] = round(r.uniform(.5, 1.2), 3); g = None
        if f == "lfilter": d = dict(filter_func="scipy.signal.lfilter", input_var_name="x", kwargs=dict(b=c if r.random() < .5 else np.array(c), a=[1]))
        elif f == "iir": g = [1.0, round(r.uniform(-.3, .3), 3)]; d = dict(filter_func="scipy.signal.lfilter", input_var_name="x", kwargs=dict(b=c, a=g))
        elif f == "echo": d = dict(filter_func="rtmon.qcorr.echo", input_var_name="wave", kwargs=dict(gains=c))
        elif f == "cubic": c = [round(r.uniform(.5, 1), 3), round(r.uniform(-1, 1), 3)]; d = dict(filter_func="rtmon.qcorr.cubic", input_var_name="sig", kwargs=dict(c=c))
        else: c = c[:1]; d = dict(filter_func="rtmon.qcorr.echo", input_var_name="wave", kwargs=dict(gains=np.array(c)))
        if r.random() < 0.5: d["clipping_values"] = r.choice([[-0.1, 0.15], [-0.05, 0.3], [-0.2, 0.2], [-0.9, 0.9]])
        if r.random() < 0.15: d["sampling_rate"] = 5e8
        corr[i] = (f, c, g, d)
    if corr: rig["opts"]["distortion_corrections"] = {rig["chans"][i].pc: v[3] for i, v in corr.items()}
    g = Gen(r, rig, dict(xt=xt, dc=dc), feat)
    top = qb.with_clocks(g.frame(r.randint(1, 5), r.randint(0, 2)), rig, r.randint(1, 2))
    return rig, g, top, xt, corr, M

def fir(x, b):
    y = np.zeros(len(x), complex)
    for k, c in enumerate(b):
        if k < len(x): y[k:] += c * x[:len(x) - k]
    return y

def corrected(n, kw, spec, mon):
    f, c, g, d = spec; R = d.get("sampling_rate", 1e9)
    x = np.asarray(wfref.sample_pulse_spec(n["c"], kw, R), complex)
    if f in ("lfilter", "echo"): y = fir(x, c)
    elif f == "iir":
        u = fir(x, c); y = np.zeros(len(x), complex)
        for k in range(len(x)): y[k] = u[k] - (g[1] * y[k - 1] if k else 0)
    elif f == "cubic": h = lambda v: v * c[0] + c[1] * v ** 3; y = h(x.real) + 1j * h(x.imag)
    else: y = x * c[0]
    cl = d.get("clipping_values")
    if cl:
        z = np.clip(y.real, *cl) + 1j * np.clip(y.imag, *cl)
        if np.abs(z - y).max() > 1e-6: mon.count("clipped")
        y = z
    if R != 1e9:
        mon.count("resampled")
        if len(y) == 1: y = np.append(y, y)
        t = np.arange(n["dur"]); ts = np.arange(len(y)) * (1e9 / R); y = wfref.interp(t, y, ts)
    return y

def single(flat):
    """(time, pulse op) of every scheduled pulse."""
    for t, n, _, _ in flat:
        if n.get("what") == "pulse": yield int(t), n
        elif n.get("what") == "multi":
            for p in ([n["first"]] if n["first"] else []) + n["plus"]: yield int(t) + p["at"], p

def run_job(job, mon):
    rig, g, top, xt, corr, M = make(job)
    for k, v in g.counts.items(): mon.count(k, v)
    flat = list(S.flatten(top)); D = int(S.duration(top)); chans = rig["chans"]; reps = top["reps"]
    if not any(True for _ in single(flat)): return
    sched = S.build(top)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        comp = qb.compile_schedule(sched, qb.config(rig))
    w = [x for x in w if issubclass(x.category, RuntimeWarning) and "distortion" in str(x.message)]
    want = np.zeros((len(chans), D), complex); cnt = np.zeros(len(chans), int); nacq = {}
    longdc = False; used = set()
    for t, n in single(flat):
        i = n["ch"]; kw = {k: v for k, v in n["kw"].items() if k not in ("port", "clock", "t0")}; used.add(i)
        y = wfref.sample_pulse_spec(n["c"], kw)
        if i in corr:
            if n["c"] == "SquarePulse" and n["dur"] >= 100: longdc = True
            else: y = corrected(n, kw, corr[i], mon); mon.count("corrected-pulses")
        elif i in xt: mon.count("compensated-pulses")
        else: mon.count("untouched")
        want[i, t:t + len(y)] += y; cnt[i] = 1
    if longdc and not w: raise Violation("no-warning", "a long pulse on a distortion corrected port-clock is not corrected and nothing says so")
    for t, n, _, _ in flat:
        if n.get("addacq"): nacq[n["acqch"]] = nacq.get(n["acqch"], 0) + 1
    amap, extra = qb.assign(comp, rig)
    if extra: raise Violation("unexpected-sequencer", extra)
    missing = {i for i in used if i not in xt} - set(amap)
    if missing: raise Violation("portclock-not-played", [chans[i].pc for i in missing])
    runs = {i: q1sim.run(v[2].sequence) for i, v in amap.items()}
    got = np.zeros((reps, len(chans), D), complex)
    for i, run in runs.items():
        st = amap[i][2]; wfs = {x["index"]: np.asarray(x["data"], float) for x in st.sequence["waveforms"].values()}
        p0, p1 = q1sim.envelope(run, wfs, 0, run.end)
        over = int((run.end - run.reps[0]) / reps - D)
        if len(run.reps) != reps or over < 0 or over > 64: raise Violation("period", f"{chans[i].pc}: {len(run.reps)} repetitions, {over}")
        for k, t0 in enumerate(run.reps): got[k, i] = p0[t0 + over:t0 + over + D] + (1j * p1[t0 + over:t0 + over + D] if chans[i].cplx else 0)
    for k in range(reps):
        dev = M.T @ got[k]
        for i in range(len(chans)):
            tol = 1.3e-4 * (6 if i in xt else 1.5)
            diff = dev[i] - want[i]
            if not chans[i].cplx: diff = diff.real
            mon.count("samples", D)
            if np.abs(diff).max(initial=0) > tol:
                j = int(np.argmax(np.abs(diff) > tol)); ps = [(t, n["c"], n["dur"], {a: b for a, b in n["kw"].items() if a not in ("samples", "t_samples")}) for t, n in single(flat) if t <= j < t + n["dur"]]
                raise Violation("crosstalk" if i in xt else "distortion" if i in corr else "unchanged-port", f"{chans[i].pc} repetition {k}, t={j} ns of {D}: signal {dev[i][j]:.6f}, required {want[i][j]:.6f}; pulses then: {ps}; {rig['opts']}")
    if xt: mon.count("crosstalk")
    if xt and np.abs(M - M.T).max() > 1e-3: mon.count("asymmetric")
    if corr: mon.count("distortion")
    for i in set(nacq) & set(amap):
        have = count_acq(runs[i])
        if have != nacq[i] * reps: raise Violation("acquisitions-lost", f"{chans[i].pc}: {have} of {nacq[i] * reps}")
    mon.case(repr((S.describe(top), rig["opts"])), bool(xt or corr))

def count_acq(run): return sum(1 for e in run.events if e.kind == "acquire")
