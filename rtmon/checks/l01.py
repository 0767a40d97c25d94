"""Monitor: the ready-made experiment schedules against an independent description of each experiment."""
from __future__ import annotations
import copy, warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import gd, spec as S
from rtmon.checks import g02

LEVEL = "exploration"
RULE = ("A case is one call of a library schedule function with random arguments (scalar and array sweeps of several kinds, artificial detuning, numbers of echo pulses, frequencies, delays, repetitions, ports) for a random device. "
        "The generated schedule is compiled for the device and every pulse, phase, frequency change and acquisition of the result is compared, with its absolute time, with a description of the experiment written from its documentation; "
        "further: acquisition indices per channel consecutive, repetitions, clock frequencies, arguments unchanged, the same result for a second call, invalid arguments refused. Non-trivial: a sweep of at least two points; distinct by function and arguments.")
ASSUMPTIONS = ["CPMG: the train of echo pulses may begin up to 4 ns after the nominal time (documented in the code, needed for the loop)", "the wait between the points of a staircase with multiplexing is not claimed (no relaxation time between its steps is documented)"]
MINIMUM = {"calls": 1500, "points": 8000, "acq": 8000, "play": 12000, "freq": 800, "refused": 60, "scalar": 100, "function-t1_sched": 40, "function-cpmg_sched": 40, "function-nv_dark_esr_sched_nco": 40, "function-multiplexing_staircase_sched": 40}
JOB_LIMIT_S = 60

def jobs(tier, seed):
    return [dict(i=i, seed=seed) for i in range(240 if tier == "quick" else 30000)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

# ------------------------------------------------------------------ pieces of the descriptions
def G(c, *qs, **kw): return S.OP(c, 0, __args__=tuple(qs), **kw) if c not in ("Rxy",) else S.OP("Rxy", 0, qubit=qs[0], **kw)
def EV(dur, *ev): return dict(k="op", c="-", kw={}, dur=dur, ev=list(ev), shift=0)
def PLAY(port, clock, dur, amp): return EV(dur, ("play", 0, port, clock, None, "SquarePulse", dict(amp=amp, duration=S.ns(dur))))
def DRAG(port, clock, dur, g, d=0): return EV(dur, ("play", 0, port, clock, None, "DRAGPulse", dict(G_amp=g, D_amp=d, phase=0, duration=S.ns(dur))))
def ACQ(port, clock, dur, ch=0, proto="SSBIntegrationComplex", bm="average"): return EV(dur, ("acq", 0, port, clock, dict(acq_index=None, coords=None, channel=ch, bin_mode=bm, protocol=proto, duration=dur)))
def FREQ(clock, f): return EV(0, ("freq", 0, clock, f))
def WAIT(d): return EV(d)
I = S.ITEM; C = S.CON

class Args:
    def __init__(self, r, d):
        self.r, self.d, self.n = r, d, 0
    def sweep(self, f, lo=1, hi=12):
        """(argument, values): a scalar, list, tuple or array."""
        r = self.r; x = r.random()
        if f == self.amp and r.random() < 0.15: f = lambda: r.randint(-1, 1)   # whole numbers: an integer array
        if x < 0.15: v = f(); self.n += 1; self.scalar = True; return r.choice([v, np.float64(v), np.array(v)]), [v]
        v = [f() for _ in range(r.randint(lo, hi))]; self.n += len(v)
        return r.choice([np.array(v), np.array(v), list(v), tuple(v)]), v
    def array(self, f, lo=1, hi=10):
        v = [f() for _ in range(self.r.randint(lo, hi))]; self.n += len(v); return np.array(v), v
    def times(self, step=1, lo=0, hi=3000): r = self.r; return self.sweep(lambda: None) if False else self._t(step, lo, hi)
    def _t(self, step, lo, hi):
        r = self.r; x = r.random(); g = lambda: step * r.randint(-(-lo // step), hi // step)
        if x < 0.15: t = [g()]; self.scalar = True; self.n += 1; return r.choice([S.ns(t[0]), np.array(S.ns(t[0])), np.float64(S.ns(t[0]))]), t
        k = r.randint(1, 12); t = [g() for _ in range(k)] if r.random() < 0.5 else sorted(g() for _ in range(k)); self.n += k
        return r.choice([np.array, np.array, list, tuple])([S.ns(x) for x in t]), t
    def q(self, *types): return self.r.choice([q for q, e in self.d["q"].items() if e["typ"] in types])
    def amp(self): return round(self.r.uniform(-0.95, 0.95), 4)
    def dur(self, lo=4, hi=2000): return self.r.randint(lo, hi)
    def f(self):
        if self.r.random() < 0.15: return self.r.randint(10**9, 8 * 10**9)
        return round(self.r.uniform(1e9, 8e9), self.r.choice([-6, -3, 0]))
    def delay(self): return self.r.choice([0, self.r.randint(0, 500)])

def opt(r, kw, name, value):
    if r.random() < 0.6: kw[name] = value; return value
    return None

# every function returns (positional description: kwargs, items, {clock: frequency})
def rabi(a):
    r = a.r; q = a.q("transmon"); kw = dict(qubit=q, frequency=a.f()); mode = r.choice(["amp", "dur", "both", "scalar"])
    if mode in ("amp", "scalar"): kw["pulse_amp"], A = a.sweep(a.amp) if mode == "amp" else (lambda v: (v, [v]))(a.amp()); D = [a.dur(8, 300)]; kw["pulse_duration"] = S.ns(D[0]); D = D * len(A)
    elif mode == "dur": kw["pulse_duration"], D = a._t(1, 8, 300); v = a.amp(); kw["pulse_amp"] = v; A = [v] * len(D)
    else:
        n = r.randint(2, 10); a.n += n; A = [r.randint(-1, 1) for _ in range(n)] if r.random() < 0.2 else [a.amp() for _ in range(n)]; D = [a.dur(8, 300) for _ in range(n)]; kw["pulse_amp"] = r.choice([list, np.array])(A); kw["pulse_duration"] = r.choice([list, np.array])([S.ns(x) for x in D])
    port = opt(r, kw, "port", f"{q}:xx") or f"{q}:mw"; clock = opt(r, kw, "clock", r.choice([f"{q}.01", f"{q}.zz"])) or f"{q}.01"
    it = []
    for A_, D_ in zip(A, D): it += [I(G("Reset", q)), I(DRAG(port, clock, D_, A_)), I(G("Measure", q))]
    return kw, it, {clock: kw["frequency"]}

def t1(a):
    q = a.q("transmon", "spin"); arg, T = a._t(1, 0, 5000); it = []
    for t in T: it += [I(G("Reset", q)), I(G("X", q)), I(G("Measure", q), C(pt="start", rel=t))]
    return dict(times=arg, qubit=q), it, {}

def ramsey(a):
    q = a.q("transmon", "spin"); arg, T = a._t(1, 0, 5000); kw = dict(times=arg, qubit=q); det = opt(a.r, kw, "artificial_detuning", a.r.choice([0, 250e3, -1.3e6, 4.1e6])) or 0; it = []
    for t in T: it += [I(G("Reset", q)), I(G("X90", q)), I(G("Rxy", q, theta=90, phi=360 * det * t * 1e-9), C(pt="start", rel=t)), I(G("Measure", q))]
    return kw, it, {}

def echo(a):
    q = a.q("transmon", "spin"); arg, T = a._t(2, 0, 5000); it = []
    for t in T: it += [I(G("Reset", q)), I(G("X90", q)), I(G("X", q), C(pt="start", rel=t // 2)), I(G("X90", q), C(pt="start", rel=t // 2)), I(G("Measure", q))]
    return dict(times=arg, qubit=q), it, {}

def cpmg(a, shift=4):
    r = a.r; q = a.q("transmon", "spin"); v = r.choice(["X", "Y", "XY"]); n = r.choice([1, 2, 4, 8] if v != "XY" else [2, 4, 8]); D = a.d["q"][q]["p"]["rxy.duration"]
    arg, T = a._t(2 * n, 2 * n * D, 2 * n * D + 3000); kw = dict(n_gates=n, times=arg, qubit=q)
    if v != "X" or r.random() < 0.3: kw["variant"] = v
    det = opt(r, kw, "artificial_detuning", r.choice([0, 250e3, -1.3e6])) or 0; it = []
    for t in T:
        it += [I(G("Reset", q)), I(G("X90", q))]; x90 = len(it) - 1; h = t // (2 * n)
        for k in range(n): it.append(I(G("X" if v == "X" or v == "XY" and k % 2 == 0 else "Y", q), C(ref=x90, pt="start", rel=shift + h + 2 * h * k)))
        it += [I(G("Rxy", q, theta=90, phi=360 * det * t * 1e-9), C(ref=x90, pt="start", rel=shift + t)), I(G("Measure", q))]
    return kw, it, {}

XY = "II XX YY XY YX xI yI xy yx xY yX Xy Yx xX Xx yY Yy XI YI xx yy".split()
GATE = {"I": (0, 0), "X": (180, 0), "Y": (180, 90), "x": (90, 0), "y": (90, 90)}
def allxy(a):
    r = a.r; q = a.q("transmon", "spin"); kw = dict(qubit=q); x = r.random()
    if x < 0.2: sel = list(range(21))
    elif x < 0.4: sel = [r.randrange(21)]; kw["element_select_idx"] = r.choice([int, np.int64])(sel[0]); a.scalar = True
    else: sel = [r.randrange(21) for _ in range(r.randint(1, 25))]; kw["element_select_idx"] = r.choice([list, tuple, np.array])(sel)
    a.n += len(sel); it = []
    for s in sel:
        g1, g2 = (GATE[c] for c in XY[s])
        it += [I(G("Reset", q)), I(G("Rxy", q, theta=g1[0], phi=g1[1])), I(G("Rxy", q, theta=g2[0], phi=g2[1])), I(G("Measure", q))]
    return kw, it, {}

def readout(a):
    r = a.r; q = a.q("transmon", "spin"); st = [r.randint(0, 1) for _ in range(r.randint(1, 8))]; a.n += len(st); kw = dict(qubit=q, prepared_states=r.choice([list, tuple, np.array])(st))
    p = opt(r, kw, "acq_protocol", r.choice(["SSBIntegrationComplex", "ThresholdedAcquisition"])) or "SSBIntegrationComplex"; it = []
    for s in st: it += [I(G("Reset", q))] + ([I(G("X", q))] if s else []) + [I(G("Measure", q, bin_mode="append", acq_protocol=p))]
    return kw, it, {}

def chevron(a):
    r = a.r; l, h = r.sample([q for q, e in a.d["q"].items() if e["typ"] == "transmon"], 2); arg, A = a.sweep(a.amp); D = a.dur(4, 100); kw = dict(lf_qubit=l, hf_qubit=h, amplitudes=arg, duration=S.ns(D))
    port = opt(r, kw, "flux_port", f"{h}:zz") or f"{h}:fl"; it = []
    for x in A:
        it += [I(G("Reset", l, h)), I(G("X", l))]; it += [I(G("X", h), C(ref=len(it) - 1, pt="start"))]
        it += [I(PLAY(port, "cl0.baseband", D, x)), I(G("Measure", l, h))]
    return kw, it, {}

def ro(a, kw, pre="ro_pulse_", acq="ro_acquisition_delay", integ="ro_integration_time"):
    kw[pre + "amp"] = a.amp(); D = a.dur(); kw[pre + "duration"] = S.ns(D); dl = a.delay(); kw[acq] = S.ns(dl); L = a.dur(); kw[integ] = S.ns(L)
    return kw[pre + "amp"], D, dl, L

def init(a, kw, default, always=False):
    if always or a.r.random() < 0.6: v = a.dur(0, 20000); kw["init_duration"] = S.ns(v); return v
    return default

def het(a):
    kw = dict(port="q0:res", clock="q0.ro", frequency=a.f()); A, D, dl, L = ro(a, kw, "pulse_", "acquisition_delay", "integration_time"); w = init(a, kw, 10000); out = opt(a.r, kw, "port_out", "q0:drive") or "q0:res"; a.n += 1
    return kw, [I(WAIT(w)), I(PLAY(out, "q0.ro", D, A)), I(ACQ("q0:res", "q0.ro", L), C(pt="start", rel=dl))], {"q0.ro": kw["frequency"]}

def freqs(a):
    """Sweeps with steps down to 1 Hz, up or down, possibly with a frequency twice."""
    r = a.r; n = r.randint(1, 12); f0 = a.f(); st = r.choice([1.0, 50.0, 1e3, 1e6, -2e5]); v = [f0 + st * k for k in range(n)]
    if r.random() < 0.2: v = [int(x) for x in v]
    if r.random() < 0.2: v.append(r.choice(v))
    a.n += len(v); return np.array(v), v

def het_nco(a):
    kw = dict(port="q0:res", clock="q0.ro"); kw["frequencies"], F = freqs(a); A, D, dl, L = ro(a, kw, "pulse_", "acquisition_delay", "integration_time"); w = init(a, kw, 10000); out = opt(a.r, kw, "port_out", "q0:drive") or "q0:res"; it = []
    for f in F: it += [I(WAIT(w)), I(FREQ("q0.ro", f)), I(PLAY(out, "q0.ro", D, A)), I(ACQ("q0:res", "q0.ro", L), C(pt="start", rel=dl))]
    return kw, it, {}

def two_tone(a, nco=False, trace=False):
    r = a.r; p = "qubit_pulse_" if trace else "spec_pulse_"; kw = {p + "amp": a.amp(), p + "port": "q0:mw", p + "clock": "q0.01"}; SD = a.dur(); kw[p + "duration"] = S.ns(SD)
    if nco: kw["spec_pulse_frequencies"], F = freqs(a)
    else: F = [a.f()]; kw[p + "frequency"] = F[0]; a.n += 1
    A, D, dl, L = ro(a, kw); pd = r.choice([0, r.randint(0, 900), -r.randint(1, SD)]); kw["ro_pulse_delay"] = S.ns(pd) if pd >= 0 else -S.ns(-pd); kw.update(ro_pulse_port="q0:res", ro_pulse_clock="q0.ro", ro_pulse_frequency=a.f())
    w = init(a, kw, 200000 if trace else 10000, always=nco); it = []
    for f in F:
        it += [I(WAIT(w))] + ([I(FREQ("q0.01", f))] if nco else []) + [I(PLAY("q0:mw", "q0.01", SD, kw[p + "amp"])), I(PLAY("q0:res", "q0.ro", D, A), C(rel=pd)), I(ACQ("q0:res", "q0.ro", L, proto="Trace" if trace else "SSBIntegrationComplex"), C(pt="start", rel=dl))]
    return kw, it, {"q0.ro": kw["ro_pulse_frequency"], **({} if nco else {"q0.01": F[0]})}

def trace(a):
    kw = dict(port="q0:res", clock="q0.ro", frequency=a.f()); A, D, dl, L = ro(a, kw, "pulse_", "acquisition_delay", "integration_time"); w = init(a, kw, 200000); pd = a.delay(); kw["pulse_delay"] = S.ns(pd); a.n += 1
    return kw, [I(WAIT(w)), I(PLAY("q0:res", "q0.ro", D, A), C(rel=pd)), I(ACQ("q0:res", "q0.ro", L, proto="Trace"), C(pt="start", rel=dl))], {"q0.ro": kw["frequency"]}

def trace_circuit(a):
    q = a.q("transmon", "spin"); a.n += 1
    return dict(qubit_name=q), [I(G("Measure", q, acq_protocol="Trace"))], {}

def long_trace(a):
    kw = dict(port="q0:res", clock="q0.ro", frequency=a.f(), pulse_amp=a.r.choice([a.amp(), complex(a.amp(), a.amp())]), num_points=a.r.randint(1, 9)); dl = a.dur(4, 400); kw["acquisition_delay"] = S.ns(dl); L = a.dur(300, 2000); kw["integration_time"] = S.ns(L); n = kw["num_points"]; a.n += n; z = complex(kw["pulse_amp"])
    it = [I(EV(0, ("offset", 0, "q0:res", "q0.ro", z.real, z.imag)))]
    for k in range(n): it.append(I(ACQ("q0:res", "q0.ro", L, bm="append"), C(ref=0, pt="start", rel=dl + k * L)))
    return kw, it + [I(EV(0, ("offset", 0, "q0:res", "q0.ro", 0, 0)), C(ref=0, pt="start", rel=dl + n * L + 4)), I(WAIT(4))], {"q0.ro": kw["frequency"]}

def rabi_pulse(a):
    kw = dict(mw_G_amp=a.amp(), mw_D_amp=a.amp(), mw_frequency=a.f(), mw_clock="q0.01", mw_port="q0:mw"); MD = a.dur(8, 400); kw["mw_pulse_duration"] = S.ns(MD); A, D, dl, L = ro(a, kw); pd = a.delay(); a.n += 1
    kw.update(ro_pulse_delay=S.ns(pd), ro_pulse_port="q0:res", ro_pulse_clock="q0.ro", ro_pulse_frequency=a.f()); w = init(a, kw, 0, True)
    return kw, [I(WAIT(w)), I(DRAG("q0:mw", "q0.01", MD, kw["mw_G_amp"], kw["mw_D_amp"])), I(PLAY("q0:res", "q0.ro", D, A), C(rel=pd)), I(ACQ("q0:res", "q0.ro", L), C(pt="start", rel=dl))], {"q0.01": kw["mw_frequency"], "q0.ro": kw["ro_pulse_frequency"]}

def esr(a):
    q = a.q("nv"); a.n += 1
    return dict(qubit=q), [I(G(c, q)) for c in ("ChargeReset", "CRCount", "Reset", "SpectroscopyOperation", "Measure", "CRCount")], {}

def esr_nco(a):
    q = a.q("nv"); arg, F = freqs(a); it = [I(G("ChargeReset", q)), I(G("CRCount", q))]
    for f in F: it += [I(FREQ(q + ".spec", f))] + [I(G(c, q)) for c in ("Reset", "SpectroscopyOperation", "Measure", "CRCount")]
    return dict(qubit=q, spec_clock=q + ".spec", spec_frequencies=arg), it, {}

def stair(a, awg=False):
    r = a.r; name = "pulse_amps" if awg else "readout_pulse_amps"; kw = {}; kw[name], A = a.sweep(a.amp); D = a.dur(); L = a.dur(); dl = a.delay(); kw.update({"pulse_duration" if awg else "readout_pulse_duration": S.ns(D), "readout_frequency": a.f(), "acquisition_delay": S.ns(dl), "integration_time": S.ns(L)})
    if awg: kw.update(mw_port="q0:mw", ro_port="q0:res", mw_clock="q0.01", ro_clock="q0.ro")
    else: kw.update(port="q0:res", clock="q0.ro")
    w = init(a, kw, 1000); ch = opt(r, kw, "acq_channel", r.choice([1, "ch"])) or 0; it = []
    for x in A: it += [I(WAIT(w)), I(PLAY("q0:mw" if awg else "q0:res", "q0.01" if awg else "q0.ro", D, x)), I(ACQ("q0:res", "q0.ro", L, ch=ch), C(pt="start", rel=dl))]
    return kw, it, {"q0.ro": kw["readout_frequency"], **({"q0.01": kw["readout_frequency"]} if awg else {})}

def multi(a):
    kw = {}; kw["pulse_amps"], A = a.sweep(a.amp); D = a.dur(8, 3000); dl = a.r.randint(0, D // 2); L = a.r.randint(1, D - dl); kw.update(pulse_duration=S.ns(D), acquisition_delay=S.ns(dl), integration_time=S.ns(L), ro_port="q0:res", ro_clock0="q0.ro", ro_clock1="q1.ro", readout_frequency0=a.f(), readout_frequency1=a.f()); w = init(a, kw, 1000); it = [I(WAIT(w))]
    ref = 0; pt = "end"
    for x, y in zip(A, A[::-1]):
        n = len(it); it += [I(PLAY("q0:res", "q0.ro", D, x), C(ref=ref, pt="end")), I(ACQ("q0:res", "q0.ro", L, ch=0), C(ref=n, pt="start", rel=dl)), I(PLAY("q0:res", "q1.ro", D, y), C(ref=ref, pt="end")), I(ACQ("q0:res", "q1.ro", L, ch=1), C(ref=n + 2, pt="start", rel=dl))]; ref = n + 2
    return kw, it, {"q0.ro": kw["readout_frequency0"], "q1.ro": kw["readout_frequency1"]}

T, SP, TR, V, TQ = "timedomain_schedules", "spectroscopy_schedules", "trace_schedules", "verification", "two_qubit_transmon_schedules"
LIB = [(T, "rabi_sched", rabi), (T, "t1_sched", t1), (T, "ramsey_sched", ramsey), (T, "echo_sched", echo), (T, "cpmg_sched", cpmg), (T, "allxy_sched", allxy), (T, "readout_calibration_sched", readout), (T, "rabi_pulse_sched", rabi_pulse),
       (SP, "heterodyne_spec_sched", het), (SP, "heterodyne_spec_sched_nco", het_nco), (SP, "two_tone_spec_sched", two_tone), (SP, "two_tone_spec_sched_nco", lambda a: two_tone(a, nco=True)), (SP, "nv_dark_esr_sched", esr), (SP, "nv_dark_esr_sched_nco", esr_nco),
       (TR, "trace_schedule", trace), (TR, "trace_schedule_circuit_layer", trace_circuit), (TR, "two_tone_trace_schedule", lambda a: two_tone(a, trace=True)), (TR, "long_time_trace", long_trace),
       (V, "acquisition_staircase_sched", stair), (V, "awg_staircase_sched", lambda a: stair(a, awg=True)), (V, "multiplexing_staircase_sched", multi), (TQ, "chevron_cz_sched", chevron)]

def fn(mod, name):
    import importlib; return getattr(importlib.import_module("quantify_scheduler.schedules." + mod), name)

def run_job(job, mon):
    r = rng_for(job["seed"], "L01", job["i"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = gd.device(r, types=["transmon", "transmon", r.choice(["spin", "transmon"]), "nv"]); qd = gd.realise(d); cfg = qd.generate_compilation_config()
        for k in range(8):
            mod, name, f = LIB[(job["i"] * 8 + k) % len(LIB)]; st = r.getstate()
            one(r, d, cfg, mod, name, f, mon)
        for _ in range(1): refuse(r, d, cfg, mon)

def values(kw): return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else copy.copy(v)) for k, v in kw.items()}
def equal(a, b): return all(type(a[k]) is type(b[k]) and np.array_equal(a[k], b[k]) for k in a)

def one(r, d, cfg, mod, name, f, mon):
    a = Args(r, d); a.scalar = False; st = r.getstate()
    kw, items, freq = f(a); end = r.getstate()
    reps = opt(r, kw, "repetitions", r.choice([1, 2, 10, 1024, 100000])) or 1; keep = values(kw); text = f"{name}({', '.join(f'{k}={v!r}' for k, v in kw.items())})"
    mon.count("calls"); mon.count("function-" + name); mon.count("points", a.n); a.scalar and mon.count("scalar")
    sched = fn(mod, name)(**kw)
    if not equal(keep, kw): raise Violation("arguments changed", text)
    again = fn(mod, name)(**kw)
    if sched.repetitions != reps: raise Violation("repetitions", f"{sched.repetitions} for {text}")
    comp = g02.compiled(sched, cfg)
    if comp.repetitions != reps: raise Violation("repetitions", f"compiled {comp.repetitions} for {text}")
    def relax(e):
        return e if e[0] != "acq" else e[:4] + (dict(e[4], acq_index=None),)
    dd = dict(d, q={q: dict(e, p=dict(e["p"])) for q, e in d["q"].items()})
    for q, e in dd["q"].items():
        for c, k in gd.CLK[e["typ"]].items():
            if f"{q}.{c}" in freq: e["p"]["clock_freqs." + k] = freq[f"{q}.{c}"]
    if name.endswith("_nco") or name.endswith("spec_sched") or mod in (TR, V) or name == "rabi_pulse_sched":      # clocks named like those of an element, without the element
        dd = dict(dd, q={q: e for q, e in dd["q"].items() if e["typ"] == "nv" or any(n_["kw"].get("__args__") == (q,) for n_ in (i["node"] for i in items))})
    judge(comp, items, dd, text, mon, f, a, st, r)
    res = g02.resources(comp)
    for c, v in freq.items():
        if c not in res or abs(res[c] - v) > 1e-3: raise Violation("clock frequency", f"{c}: {res.get(c)}, given {v}: {text}")
    c2 = g02.compiled(again, cfg)
    if [x[:4] for x in gd.observed(c2)] != [x[:4] for x in gd.observed(comp)]: raise Violation("second call differs", text)
    mon.case(text, a.n >= 2)

def judge(comp, items, dd, text, mon, f, a, st, r):
    acqs = sorted((t, i["acq_channel"], i["acq_index"]) for t, op in gd.walk(comp) for i in op.data["acquisition_info"] for t in [t + i["t0"]]) if False else None
    per = {}
    ev = sorted(((gd.N(t + i["t0"]), n, i) for n, (t, op) in enumerate(gd.walk(comp)) for i in op.data["acquisition_info"]), key=lambda x: x[:2])
    for _, _, i in ev: per.setdefault(i["acq_channel"], []).append(i)
    for ch, l in per.items():
        ix = [i["acq_index"] for i in l]; mon.count("indices", len(ix))
        if not (all(x is None for x in ix) or ix == list(range(len(ix))) or "long_time_trace" in text and set(ix) == {0}): raise Violation("acquisition indices", f"channel {ch}: {ix}: {text}")
        for i in l: i["acq_index"] = None
    top = S.SCHED(items, "top")
    try: g02.compare(comp, top, dd, mon)
    except Violation as e:
        if f is cpmg:          # the train may also start earlier
            s2 = r.getstate()
            for sh in range(4):
                r.setstate(st); b = Args(r, a.d); b.scalar = False
                _, it2, _ = cpmg(b, shift=sh); r.setstate(s2)
                try: g02.compare(comp, S.SCHED(it2, "top"), dd, type(mon)()); return
                except Violation: pass
        raise Violation(e.kind, f"{text}\n{e.detail}")

def refuse(r, d, cfg, mon):
    q = next(x for x, e in d["q"].items() if e["typ"] == "transmon"); t = np.array([1e-6, 2e-6])
    mod, name, kw, exc = r.choice([
        (T, "rabi_sched", dict(pulse_amp=r.choice([list, np.array])([.1, .2, .3]), pulse_duration=r.choice([list, np.array])([1e-8, 2e-8]), frequency=5e9, qubit=q), ValueError),
        (T, "cpmg_sched", dict(n_gates=r.choice([2, 4]), times=t, qubit=q, variant=r.choice(["Z", "YX", "x", ""])), ValueError),
        (T, "cpmg_sched", dict(n_gates=r.choice([3, 5, 6, 7, 12, 0, -2]), times=t, qubit=q, variant=r.choice(["X", "Y", "XY"])), ValueError),
        (T, "cpmg_sched", dict(n_gates=1, times=t, qubit=q, variant="XY"), ValueError),
        (T, "allxy_sched", dict(qubit=q, element_select_idx=r.choice([21, 22, -1, 100, [0, 21], [3, -2], np.array([1, 25])])), ValueError),
        (T, "readout_calibration_sched", dict(qubit=q, prepared_states=r.choice([[3], [0, -1], [0, 1, 7]])), ValueError),
        (T, "readout_calibration_sched", dict(qubit=q, prepared_states=[0, 2]), NotImplementedError)])
    text = f"{name}({kw})"
    try: fn(mod, name)(**kw)
    except exc: mon.count("refused")
    except Exception as e: raise Violation("refused in another way", f"{type(e).__name__}: {e}: {text}")
    else: raise Violation("accepted", text)
