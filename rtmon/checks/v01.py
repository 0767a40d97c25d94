"""V01: the sampled data of a pulse diagram, against an independent rendering of the schedule."""
import copy, functools, math
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, wfref, canon

LEVEL = "exploration"
RULE = ("A case is a schedule of pulses, offsets and acquisitions (overlapping, several clocks per port, nested schedules, loops, conditionals, shared objects, items not in time order), compiled without hardware or for a "
        "Qblox cluster, drawn with several option sets (sampling rate, modulation, time window, port list, combined waveforms; data, plotly figure or matplotlib subplots). At every sample inside the window the curves of a port must add up "
        "to the independently computed sum of its pulses and offsets, the acquisition windows must be those of the schedule, and the schedule must be unchanged. Non-trivial: at least one signal; distinct by schedule and options.")
ASSUMPTIONS = ["a conditional body is drawn as if the condition held", "between the drawn points the plot interpolates linearly", "the last drawn point of a pulse (0.99 of a sample after the last sample) may enter the normalisation of a waveform",
               "samples before the first or after the last point of a curve are zero"]
MINIMUM = {"samples": 400000, "pulses": 4000, "offsets": 600, "acqs": 400, "windowed": 300, "modulated": 300, "combined": 200, "portlist": 100, "loops": 200, "conds": 60, "qblox": 60, "plotly": 40, "mpl": 40, "overlaps": 300, "numerical": 120}

def jobs(tier, seed):
    n = 420 if tier == "quick" else 30000
    out = []
    for i in range(n):
        out.append(dict(i=i, seed=seed, kind="device"))
        if i % 3 == 0: out.append(dict(i=i, seed=seed, kind="qblox"))
    return out

def cleanup_job():
    import matplotlib.pyplot as plt
    plt.close("all")
    from rtmon import dev; dev.close_all()

PORTS = ["q0:mw", "q0:fl", "q1:res"]

@functools.lru_cache(None)
def empty_cfg():
    from quantify_scheduler.backends.graph_compilation import SerialCompilationConfig
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    d = QuantumDevice("v01_device"); cfg = d.generate_compilation_config(); d.close()
    return cfg

class Draw:
    """A random pulse-level schedule; times are multiples of g ns."""
    def __init__(self, r):
        self.r = r; self.g = r.choice([1, 1, 1, 4]); self.sid = 0; self.pool = []; self.n = {}
        self.clocks = {f"c{i}": round(r.uniform(1e6, 8e9), r.choice([0, -6])) for i in range(r.randint(1, 3))}
        self.ports = r.sample(PORTS, r.randint(1, 3))
    def c(self, k): self.n[k] = self.n.get(k, 0) + 1
    def t(self, lo, hi): return self.r.randint(lo, max(lo, hi)) * self.g
    def clock(self): return self.r.choice(list(self.clocks) + ["cl0.baseband"])
    def pulse(self):
        r = self.r
        if self.pool and r.random() < 0.2: self.c("shared"); return r.choice(self.pool)
        kinds = [k for k in wfref.PULSE_KINDS if self.g == 1 or k != "SuddenNetZeroPulse"]
        kind = r.choice(kinds); d = self.t(8, 80)
        kw = wfref.random_pulse(r, kind, d, 0.5, True)
        if kind == "NumericalPulse":
            self.c("numerical")
            if self.g == 4: kw["t_samples"] = [S.ns(round(x * 1e9 / 4) * 4) for x in kw["t_samples"]]; keep = [i for i, x in enumerate(kw["t_samples"]) if i == 0 or x > kw["t_samples"][i - 1]]; kw["t_samples"] = [kw["t_samples"][i] for i in keep]; kw["samples"] = [kw["samples"][i] for i in keep]
            if r.random() < 0.3: kw["t_samples"] = [x + S.ns(self.g * 5) for x in kw["t_samples"]]
            if r.random() < 0.5: kw["t_samples"] = np.array(kw["t_samples"])
        n = S.OP(kind, d, port=r.choice(self.ports), clock=self.clock(), **kw); n["what"] = "pulse"
        if kind == "SoftSquarePulse" and d < 20: n["dur"] = d
        if r.random() < 0.25: n["kw"]["t0"] = S.ns(self.t(1, 20)); n["t0"] = round(n["kw"]["t0"] * 1e9); n["dur"] = d + n["t0"]
        if r.random() < 0.25: self.sid += 1; n["sid"] = self.sid; self.pool.append(n)
        return n
    def offset(self, zero=False):
        r = self.r; v = [0.0, 0.0] if zero else [round(r.uniform(-.4, .4), 3), r.choice([0.0, round(r.uniform(-.4, .4), 3)])]
        n = S.OP("VoltageOffset", 0, offset_path_I=v[0], offset_path_Q=v[1], port=r.choice(self.ports), clock=self.clock()); n["what"] = "offset"
        return n
    def acq(self):
        r = self.r; d = self.t(10, 300); self.c("acq-op")
        n = S.OP(r.choice(["SSBIntegrationComplex", "SSBIntegrationComplex", "Trace"]), d, port=r.choice(self.ports), clock=self.clock(), duration=S.ns(d), acq_channel=f"a{self.c_('acqs')}"); n["what"] = "acq"
        if n["c"] == "SSBIntegrationComplex" and r.random() < 0.3: n["kw"]["t0"] = S.ns(self.t(1, 20)); n["t0"] = round(n["kw"]["t0"] * 1e9); n["dur"] = d + n["t0"]
        n["adur"] = d
        return n
    def c_(self, k): self.c(k); return self.n[k]
    def sched(self, depth, top=False):
        r = self.r; items = []
        for i in range(r.randint(2, 9) if top else r.randint(1, 4)):
            x = r.random()
            if depth and x < 0.18:
                y = r.random(); body = self.sched(depth - 1)
                if r.random() < 0.25: body = r.choice([lambda: S.LOOP(self.pulse(), r.randint(1, 3)), lambda: S.LOOP(body, 2), lambda: S.COND(self.pulse(), "q0", hb=self.t(0, 30))])(); self.c("direct")
                if y < 0.5: node = S.LOOP(body if r.random() < 0.8 else self.pulse(), r.randint(1, 4)); self.c("loops")
                elif y < 0.7: node = S.COND(body if r.random() < 0.7 else self.pulse(), "q0", hb=r.choice([0, self.t(1, 60)])); self.c("conds")
                else: node = body; self.c("nested")
            elif x < 0.65: node = self.pulse()
            elif x < 0.75: node = self.offset(r.random() < 0.3)
            elif x < 0.85: node = self.acq()
            elif x < 0.9 and not top: node = S.OP(r.choice(["ShiftClockPhase"]), 0, phase_shift=20.0, clock=r.choice(list(self.clocks))); 
            else: node = S.IDLE(self.t(1, 60))
            if not items: items.append(S.ITEM(node)); continue
            ref = r.choice([None, r.randrange(len(items))])
            pt = r.choice(["start", "end", "end", None]); ptn = r.choice([None, "start", "end"])
            if ref is None and r.random() < 0.5: pt = ptn = None
            items.append(S.ITEM(node, S.CON(ref=ref, pt=pt, ptn=ptn, rel=r.choice([0, 0, self.t(0, 50), -self.t(0, 30)]))))
        s = S.SCHED(items, name=f"s{r.randrange(10**6)}")
        if S.duration(s) < 4 * self.g: s["items"].append(S.ITEM(S.IDLE(self.g * 4)))
        return s

def signals(flat):
    """(t ns, port, clock, samples fn, ...) of every pulse; offsets; acquisitions"""
    P, O, A = [], [], []
    for t, n, _, _ in flat:
        w = n.get("what")
        if w == "pulse": P.append((float(t) + n.get("t0", 0), n))
        elif w == "offset": O.append((float(t), n))
        elif w == "acq": A.append((float(t) + n.get("t0", 0), n))
    return P, O, A

def render(P, O, port, total, sr, freq):
    """Expected signal of one port on the grid k/sr, with the tolerance of every sample."""
    N = int(round(total * 1e-9 * sr)); y = np.zeros(N, complex); tol = np.full(N, 1e-5)
    q = np.arange(N) / sr
    per = {}
    for t, n in P:
        if n["kw"]["port"] != port: continue
        kw = {k: v for k, v in n["kw"].items() if k not in ("port", "clock", "t0")}
        if n["c"] == "NumericalPulse": ts = np.asarray(kw["t_samples"], float); kw["t_samples"] = ts - ts[0]
        w = wfref.sample_pulse_spec(n["c"], kw, sr); k0 = int(round(t * 1e-9 * sr)); m = len(w)
        d = np.zeros(m)
        if n["c"] in ("SoftSquarePulse", "DRAGPulse", "GaussPulse", "SuddenNetZeroPulse"):   # shape normalised with the extra point
            tt = np.append(np.arange(m), m - 0.01) / sr
            if n["c"] == "SoftSquarePulse": v = wfref.soft_square(np.arange(m + 1) / sr, kw["amp"])[:m]
            elif n["c"] == "SuddenNetZeroPulse": v = w
            else: v = wfref.drag(tt, kw["G_amp"], kw.get("D_amp", 0), kw["duration"], 4, kw.get("sigma"), kw["phase"])[:m]
            d = 1.05 * np.abs(v - w)
        if n["c"] == "StaircasePulse":
            amb = wfref.staircase_ambiguous(np.arange(m) / sr, kw["num_steps"], kw["duration"]); step = abs(kw["final_amp"] - kw["start_amp"]) / (kw["num_steps"] - 1)
            d = np.where(amb, 1.05 * step, 0)
        e = np.exp(2j * np.pi * freq(n) * q[k0:k0 + m])
        y[k0:k0 + m] += w[:N - k0] * e; tol[k0:k0 + m] += d[:N - k0] + 1e-9 * freq(n) * total * 1e-9 * 1e-3
    for t, n in sorted((x for x in O if x[1]["kw"]["port"] == port), key=lambda x: x[0]):
        per.setdefault(n["kw"]["clock"], []).append((int(round(t * 1e-9 * sr)), complex(n["kw"]["offset_path_I"], n["kw"]["offset_path_Q"]), n))
    for clock, lst in per.items():
        o = np.zeros(N, complex)
        for k, v, n in lst: o[k:] = v
        y += o * np.exp(2j * np.pi * freq(lst[0][2]) * q)
    return q, y, tol

def curves_data(res):
    return {p: ([(np.asarray(s.time), np.asarray(s.signal), s.label) for s in pu], [(a.t0, a.duration) for a in ac]) for p, (pu, ac) in res.items()}

def curves_plotly(fig):
    """The curves and windows of a plotly figure, by the title of their row."""
    out = {}
    axis = lambda tr: (tr.yaxis or "y").replace("y", "yaxis", 1)
    for tr in fig.data:
        port = fig.layout[axis(tr)].title.text
        pu, ac = out.setdefault(port, ([], []))
        x = np.asarray(tr.x, float); yv = np.asarray(tr.y, float)
        if tr.mode == "markers": ac.append((x[0], x[1] - x[0])); continue
        pu.append((x, yv * (1j if tr.name.endswith("(imag)") else 1), tr.name))
    return out

def curves_mpl(axs):
    out = {}
    for ax in axs:
        port = ax.get_ylabel().split("\n")[0].replace("port ", "", 1)
        pu = out.setdefault(port, ([], None))[0]
        for ln in ax.get_lines(): pu.append((np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float) * (1j if ln.get_linestyle() == "--" else 1), ln.get_label()))
    return out

def check(mon, job, got, P, O, A, total, sr, freq, opts, what):
    ports = {n["kw"]["port"] for _, n in P + O + A}
    if opts.get("port_list") is not None: ports &= set(opts["port_list"])
    lo, hi = opts.get("x_range", (-np.inf, np.inf))
    if set(got) - ports: raise Violation("ports", f"{what}: drawn {sorted(got)}, schedule uses {sorted(ports)} ({opts})")
    for port in sorted(ports):
        q, y, tol = render(P, O, port, total, sr, freq)
        ins = (q > lo + 0.02 / sr) & (q < hi - 0.02 / sr)
        pu, ac = got.get(port, ([], []))
        s = np.zeros(len(q), complex)
        for x, v, label in pu:
            if np.any(np.diff(x) < -1e-15): raise Violation("time-order", f"{what}: curve {label!r} on {port} goes back in time ({opts})")
            if len(x): s += np.interp(q + 1e-6 / sr, x, v.astype(complex), left=0, right=0)
            if "VoltageOffset" not in label and not opts.get("combine_waveforms_on_same_port") and len(x) and (x[0] < lo - 1.03 / sr or x[-1] > hi + 1.03 / sr):
                raise Violation("window", f"{what}: {label!r} on {port} is drawn from {x[0]} to {x[-1]}, requested window {lo} to {hi}")
        bad = ins & ~(np.abs(s - y) <= tol)
        mon.count("samples", int(ins.sum()))
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation("signal", f"{what}: {port} at {q[k]*1e9:.3f} ns: drawn {s[k]:.6f}, schedule {y[k]:.6f} ({int(bad.sum())} of {int(ins.sum())} samples; {opts})")
        if ac is None: continue
        want = sorted((round(t, 3), n["adur"]) for t, n in A if n["kw"]["port"] == port)
        have = sorted((round(float(t) * 1e9, 3), round(float(d) * 1e9, 3)) for t, d in ac)
        must = [w for w in want if w[0] * 1e-9 <= hi and (w[0] + w[1]) * 1e-9 >= lo]
        rest = list(have)
        for w in must:
            if w not in rest: raise Violation("acquisitions", f"{what}: {port}: acquisition {w} not drawn, have {have[:8]} ({opts})")
            rest.remove(w)
        left = list(want)
        for h in have:
            if h not in left: raise Violation("acquisitions", f"{what}: {port}: acquisition {h} drawn, schedule has {want[:8]} ({opts})")
            left.remove(h)
        mon.count("acqs", len(must))
        if opts.get("combine_waveforms_on_same_port") and len(pu) > 1 and what == "data": raise Violation("combined", f"{len(pu)} curves on {port} with combine_waveforms_on_same_port")

def run_job(job, mon):
    from quantify_scheduler.schedules._visualization.pulse_diagram import sample_schedule
    r = rng_for("V01", job["seed"], job["i"], job["kind"])
    if job["kind"] == "device":
        d = Draw(r)
        top = dict(d.sched(2, True), clocks=dict(d.clocks), reps=r.choice([1, 1, 3]))
        from quantify_scheduler.backends.graph_compilation import SerialCompiler
        sched = S.build(top)
        comp = SerialCompiler("v01").compile(sched, config=empty_cfg())
        clocks = d.clocks; g = d.g; counts = d.n
    else:
        rig = qb.make_rig(r); feat = {"pulses", "long", "offsets", "overlap", "loops", "nested"}
        gen = qb.Gen(r, rig, feat | ({"share"} if r.random() < 0.3 else set()), total=r.choice([600, 2000]))
        top = qb.with_clocks(gen.frame(gen.total, 2), rig, r.choice([1, 3]))
        comp = qb.compile_schedule(S.build(top), qb.config(rig)); g = 0; clocks = rig["clocks"]; counts = dict(gen.counts); mon.count("qblox")
        if not gen.used: return
    P, O, A = signals(list(S.flatten(top)))
    if not P and not O and not A: return
    for k in ("loops", "conds", "nested", "shared", "numerical", "overlaps"): mon.count(k, counts.get(k, 0))
    mon.count("pulses", len(P)); mon.count("offsets", len(O))
    if g:
        iv = sorted((t, t + n["dur"] - n.get("t0", 0), n["kw"]["port"]) for t, n in P)
        mon.count("overlaps", sum(1 for i, a in enumerate(iv) for b in iv[i + 1:i + 6] if b[2] == a[2] and b[0] < a[1]))
    total = float(S.duration(top))
    before = canon.plain(comp)
    for k in range(3):
        opts = {}
        sr = r.choice([1e9, 1e9, 2e9, 4e9] if g == 1 else [1e9, 0.25e9, 0.5e9] if g == 4 else [1e9])
        if sr != 1e9 or r.random() < 0.5: opts["sampling_rate"] = sr
        mod = r.choice(["off", "off", "if", "clock"])
        fif = r.choice([0.0, 50e6, r.uniform(-3e8, 3e8)])
        if mod != "off" or r.random() < 0.2: opts["modulation"] = mod
        if mod == "if": opts["modulation_if"] = fif
        if r.random() < 0.5:
            a, b = sorted((r.uniform(-50, total + 50), r.uniform(-50, total + 50)))
            if r.random() < 0.4: a, b = round(a), round(b)
            if r.random() < 0.2: a = -math.inf
            elif r.random() < 0.2: b = math.inf
            if b - a > 0: opts["x_range"] = (a * 1e-9, b * 1e-9); mon.count("windowed")
        if r.random() < 0.25: opts["combine_waveforms_on_same_port"] = True; mon.count("combined")
        ports = sorted({n["kw"]["port"] for _, n in P + O + A})
        if r.random() < 0.2: opts["port_list"] = r.sample(ports + ["nowhere"], r.randint(1, len(ports))); mon.count("portlist")
        if mod != "off": mon.count("modulated")
        fr = lambda n: 0.0 if mod == "off" else fif if mod == "if" else (0.0 if n["kw"].get("clock", "cl0.baseband") == "cl0.baseband" else clocks[n["kw"]["clock"]])
        res = sample_schedule(comp, **opts); data = curves_data(res)
        mon.case((job["i"], job["kind"], k), nontrivial=bool(P or O))
        check(mon, job, data, P, O, A, total, sr, fr, opts, "data")
        if r.random() < 0.12 and data:
            fig = comp.plot_pulse_diagram(plot_backend="plotly", **opts); mon.count("plotly")
            check(mon, job, curves_plotly(fig), P, O, A, total, sr, fr, opts, "plotly")
        if r.random() < 0.12 and len(data) > 1 and all(len(v[0]) for v in data.values()):
            fig, axs = comp.plot_pulse_diagram(multiple_subplots=True, **opts); mon.count("mpl")
            check(mon, job, curves_mpl(axs), P, O, A, total, sr, fr, opts, "matplotlib")
            import matplotlib.pyplot as plt
            plt.close(fig)
        after = canon.plain(comp)
        if after != before: raise Violation("changed", f"drawing changed the schedule: {canon.diff(before, after)}")
