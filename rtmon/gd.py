"""Devices of every element type as plain descriptions, and an independent table of what each gate means on them.

Element names, ports, clocks and parameters come from the documentation of the device elements; times are integer ns.
"""
from __future__ import annotations
import cmath, math
import numpy as np
from rtmon import spec as S, wfref

TYPES = ["transmon", "spin", "nv", "sensor"]
BB = "cl0.baseband"
SSBLIKE = ["SSBIntegrationComplex", "ThresholdedAcquisition", "NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition", "Trace", "LongTimeTrace"]

def element(r, name, typ):
    """{dotted parameter: value} for one element; durations are kept in ns under their parameter name."""
    p = {}
    def port(k, d):
        if r.random() < 0.4: p[k] = f"{name}:{r.choice(['a', 'b', 'line', 'x'])}{k[-2:]}"
        return p.get(k, d)
    if typ == "transmon": port("ports.microwave", 0); port("ports.flux", 0); port("ports.readout", 0)
    elif typ == "spin": port("ports.microwave", 0); port("ports.gate", 0); port("ports.readout", 0)
    elif typ == "sensor": port("ports.gate", 0); port("ports.readout", 0)
    else: port("ports.microwave", 0); port("ports.optical_control", 0); port("ports.optical_readout", 0)
    a = lambda lo=0.05, hi=0.9: round(r.uniform(lo, hi), 4)
    f = lambda: round(r.uniform(1e9, 9e9), -3)
    if typ in ("transmon", "spin", "nv"):
        p["rxy.amp180"] = a(); p["rxy.duration"] = r.randint(8, 200)
        if typ == "transmon": p["rxy.motzoi"] = round(r.uniform(-.5, .5), 4)
        if typ == "nv": p["rxy.skewness"] = r.choice([0, round(r.uniform(-1, 1), 3)]); p["rxy.pulse_shape"] = r.choice(["SkewedHermitePulse", "GaussPulse"])
        p["reset.duration"] = r.randint(100, 5000)
    if typ in ("transmon", "spin", "sensor"):
        p["measure.pulse_amp"] = a(); p["measure.pulse_duration"] = r.randint(20, 1500); p["measure.acq_delay"] = r.choice([0, r.randint(1, 400)]); p["measure.integration_time"] = r.randint(50, 2000)
        p["measure.acq_channel"] = r.choice([0, 1, 7, f"ch_{name}", ("t", name)]); p["measure.reset_clock_phase"] = r.random() < 0.6
        n = r.randint(3, 12); p["measure.acq_weights_a"] = [round(r.uniform(-1, 1), 3) for _ in range(n)]; p["measure.acq_weights_b"] = [round(r.uniform(-1, 1), 3) for _ in range(n)]
        p["measure.acq_weights_sampling_rate"] = r.choice([1e9, 1e8])
        p["measure.acq_rotation"] = round(r.uniform(0, 359), 2); p["measure.acq_threshold"] = round(r.uniform(-1, 1), 3); p["measure.num_points"] = r.randint(1, 4)
        if typ != "transmon": p["measure.gate_pulse_amp"] = round(r.uniform(-.9, .9), 3)
        p["clock_freqs.readout"] = f()
        for k in ("rxy", "measure"):
            if k == "rxy" and typ == "sensor": continue
            if r.random() < 0.3: p[k + ".reference_magnitude." + r.choice(["V", "dBm", "A"])] = round(r.uniform(-3, 3), 3)
    if typ == "transmon": p["clock_freqs.f01"] = f(); p["clock_freqs.f12"] = f()
    if typ == "spin": p["clock_freqs.f_larmor"] = f()
    if typ == "nv":
        for k in ("f01", "spec", "ge0", "ge1", "ionization"): p["clock_freqs." + k] = f()
        p["spectroscopy_operation.amplitude"] = a(); p["spectroscopy_operation.duration"] = r.randint(50, 2000); p["spectroscopy_operation.pulse_shape"] = r.choice(["SquarePulse", "GaussPulse", "SkewedHermitePulse"])
        p["reset.amplitude"] = a(); p["charge_reset.amplitude"] = a(); p["charge_reset.duration"] = r.randint(100, 3000)
        p["measure.pulse_amplitude"] = a(); p["measure.pulse_duration"] = r.randint(50, 2000); p["measure.acq_duration"] = r.randint(50, 2000); p["measure.acq_delay"] = r.choice([0, r.randint(-300, 300)]); p["measure.acq_channel"] = r.choice([0, 3, "nv"])
        for k in ("readout", "spinpump"): p[f"cr_count.{k}_pulse_amplitude"] = a(); p[f"cr_count.{k}_pulse_duration"] = r.randint(50, 2000)
        p["cr_count.acq_duration"] = r.randint(50, 2000); p["cr_count.acq_delay"] = r.choice([0, r.randint(-300, 300)]); p["cr_count.acq_channel"] = r.choice([0, 5, "cr"])
    return dict(typ=typ, p=p)

DUR = {"rxy.duration", "reset.duration", "measure.pulse_duration", "measure.acq_delay", "measure.integration_time", "spectroscopy_operation.duration", "charge_reset.duration", "measure.acq_duration",
       "cr_count.readout_pulse_duration", "cr_count.spinpump_pulse_duration", "cr_count.acq_duration", "cr_count.acq_delay", "cz.square_duration"}
NAMES = ["q0", "q1", "q2", "q3", "Alice", "qb10", "q10", "s7"]

def device(r, types=None, n=None):
    d = dict(q={}, e={})
    n = n or r.randint(2, 4); types = types or [r.choice(["transmon", "transmon", "spin", "spin", "nv", "sensor"]) for _ in range(n)]
    for nm, t in zip(r.sample(NAMES, len(types)), types): d["q"][nm] = element(r, nm, t)
    pairs = [(a, b) for a in d["q"] for b in d["q"] if a != b and d["q"][a]["typ"] == d["q"][b]["typ"] and d["q"][a]["typ"] in ("transmon", "spin")]
    r.shuffle(pairs)
    for a, b in pairs:
        if len(d["e"]) < 4 and not any({a, b} == set(k) for k in d["e"]) and r.random() < 0.9: d["e"][a, b] = edge(r, d, a, b)
    return d

def edge(r, d, a, b):
    p = {"cz.square_amp": round(r.uniform(0.05, 0.9), 4), "cz.square_duration": r.randint(8, 120), f"cz.{a}_phase_correction": round(r.uniform(-400, 400), 3), f"cz.{b}_phase_correction": round(r.uniform(-400, 400), 3)}
    if d["q"][a]["typ"] == "spin" and r.random() < 0.4: p["ports.gate"] = f"{a}{b}:barrier"
    return p

def put(obj, path, v):
    if path in DUR: v = S.ns(v)
    if path.startswith("measure.acq_weights_") and isinstance(v, list): v = np.array(v)
    *sub, leaf = path.split(".")
    for s in sub: obj = obj.submodules[s]
    getattr(obj, leaf)(v) if hasattr(obj, leaf) else obj.parameters[leaf](v)

def classes():
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
    return dict(transmon=BasicTransmonElement, nv=BasicElectronicNVElement, spin=BasicSpinElement, sensor=ChargeSensor)

def realise(d, name="qd", qd=None):
    """Create (or bring up to date) the quantum device."""
    from quantify_scheduler import QuantumDevice
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    if qd is None:
        qd = QuantumDevice(name)
        for q, e in d["q"].items(): qd.add_element(classes()[e["typ"]](q))
        for a, b in d["e"]: qd.add_edge((CompositeSquareEdge if d["q"][a]["typ"] == "transmon" else SpinEdge)(a, b))
    for q, e in d["q"].items():
        for k, v in e["p"].items(): put(qd.get_element(q), k, v)
    for (a, b), p in d["e"].items():
        for k, v in p.items(): put(qd.get_edge(f"{a}_{b}"), k, v)
    return qd

PORT = {"ports.microwave": "mw", "ports.flux": "fl", "ports.readout": "res", "ports.gate": "gt", "ports.optical_control": "optical_control", "ports.optical_readout": "optical_readout"}
def port(d, q, k): return d["q"][q]["p"].get(k, f"{q}:{PORT[k]}")
CLK = {"transmon": {"01": "f01", "12": "f12", "ro": "readout"}, "spin": {"f_larmor": "f_larmor", "ro": "readout"}, "sensor": {"ro": "readout"}, "nv": {k: k for k in ("f01", "spec", "ge0", "ge1", "ionization")}}
def clocks(d): return {f"{q}.{c}": e["p"]["clock_freqs." + k] for q, e in d["q"].items() for c, k in CLK[e["typ"]].items()}
def refmag(d, q, k):
    for key, v in d["q"][q]["p"].items():
        if key.startswith(k + ".reference_magnitude."): return (v, key.split(".")[-1])
    return None

ROT = {"X": (180, 0), "X90": (90, 0), "Y": (180, 90), "Y90": (90, 90)}
PHASE = {"Z": 180, "Z90": 90, "S": 90, "SDagger": -90, "T": 45, "TDagger": -45}
def angles(n):
    c = n["c"]
    if c in ROT: return ROT[c]
    kw = n["kw"]
    th = kw["theta"] % 360
    return (th - 360 if th > 180 else th, kw["phi"] % 360)

class Reject(Exception): pass

def meaning(n, d):
    """(events, duration, shift of the next operation) of a gate node, from the device description. Times in ns."""
    kw = dict(n["kw"]); c = n["c"]; qs = kw.get("__args__") or (kw["qubit"],)
    ov = dict(n.get("ov") or {})
    for q in qs:
        if q not in d["q"]: raise Reject(q)
    if c == "CZ": return cz(qs, d, ov)
    evs, durs, shifts = [], [], []
    for i, q in enumerate(qs):
        e, D, s = single(n, c, q, i, d, ov)
        evs += e; durs.append(D); shifts.append(s)
    return evs, max(durs), min(shifts)

def cz(qs, d, ov):
    a, b = qs
    if d["q"][a]["typ"] not in ("transmon", "spin"): raise Reject("edge")
    es = [k for k in ((a, b),) if k in d["e"]] or [k for k in ((b, a),) if k in d["e"]]
    if not es: raise Reject("edge")
    a, b = es[0]; p = d["e"][a, b]; typ = d["q"][a]["typ"]
    pt = port(d, a, "ports.flux") if typ == "transmon" else p.get("ports.gate", f"{a}_{b}:gt")
    cl = ".01" if typ == "transmon" else ".f_larmor"
    D = ov.get("square_duration", p["cz.square_duration"])
    return [("play", 0, ov.get("square_port", pt), BB, None, "SquarePulse", dict(amp=ov.get("square_amp", p["cz.square_amp"]), duration=S.ns(D))),
            ("phase", 0, a + cl, ov.get("virt_z_parent_qubit_phase", p[f"cz.{a}_phase_correction"])), ("phase", 0, b + cl, ov.get("virt_z_child_qubit_phase", p[f"cz.{b}_phase_correction"]))], D, 0

def single(n, c, q, i, d, ov):
    e = d["q"][q]; p = e["p"]; typ = e["typ"]; kw = n["kw"]
    g = lambda name, key: ov.get(name, p[key])
    drive = q + {"transmon": ".01", "spin": ".f_larmor", "nv": ".spec"}.get(typ, ".none")
    if c in ROT or c == "Rxy":
        if typ == "sensor": raise Reject(c)
        th, ph = angles(n)
        return rxy(d, q, typ, p, th, ph, ov, drive)
    if c in PHASE or c == "Rz":
        if typ not in ("transmon", "spin"): raise Reject(c)
        return [("phase", 0, ov.get("clock", drive), ov.get("theta", PHASE.get(c, kw.get("theta"))))], 0, 0
    if c == "H":
        if typ not in ("transmon", "spin"): raise Reject(c)
        e1, D, _ = rxy(d, q, typ, p, 90, 90, ov, drive)
        return [("phase", 0, drive, 180)] + e1, D, 0
    if c == "Reset":
        if typ == "sensor": raise Reject(c)
        D = g("duration", "reset.duration")
        if typ == "nv": return [("play", 0, port(d, q, "ports.optical_control"), q + ".ge1", None, "SquarePulse", dict(amp=g("amp", "reset.amplitude"), duration=S.ns(D)))], D, 0
        return [], D, 0
    if c == "SpectroscopyOperation":
        if typ != "nv": raise Reject(c)
        D = p["spectroscopy_operation.duration"]; a = p["spectroscopy_operation.amplitude"]; k = p["spectroscopy_operation.pulse_shape"]
        w = {"SquarePulse": dict(amp=a), "GaussPulse": dict(G_amp=a, phase=0), "SkewedHermitePulse": dict(amplitude=a, skewness=0, phase=0)}[k]
        return [("play", 0, port(d, q, "ports.microwave"), q + ".spec", None, k, dict(w, duration=S.ns(D)))], D, 0
    if c == "ChargeReset":
        if typ != "nv": raise Reject(c)
        D = p["charge_reset.duration"]
        return [("play", 0, port(d, q, "ports.optical_control"), q + ".ionization", None, "SquarePulse", dict(amp=p["charge_reset.amplitude"], duration=S.ns(D)))], D, 0
    if c in ("Measure", "CRCount"):
        if typ == "nv": return optical(n, c, q, i, d, ov, p)
        if c == "CRCount": raise Reject(c)
        return dispersive(n, q, i, d, ov, p, typ)
    raise Reject(c)

def rxy(d, q, typ, p, th, ph, ov, drive):
    th, ph = ov.get("theta", th), ov.get("phi", ph)
    D = ov.get("duration", p["rxy.duration"]); A = ov.get("amp180", p["rxy.amp180"]) * th / 180
    pt = ov.get("port", port(d, q, "ports.microwave")); cl = ov.get("clock", drive)
    if typ == "transmon": k, w = "DRAGPulse", dict(G_amp=A, D_amp=ov.get("motzoi", p["rxy.motzoi"]), phase=ph)
    elif typ == "spin" or ov.get("pulse_shape", p.get("rxy.pulse_shape")) == "GaussPulse": k, w = "GaussPulse", dict(G_amp=A, phase=ph)
    else: k, w = "SkewedHermitePulse", dict(amplitude=A, skewness=ov.get("skewness", p["rxy.skewness"]), phase=ph)
    return [("play", 0, pt, cl, None if typ == "nv" else refmag(d, q, "rxy"), k, dict(w, duration=S.ns(D)))], D, 0

def idx(v, i): return v[i] if isinstance(v, (tuple, list)) else v
def common(kw, i, n):
    """acquisition index, coordinates and channel given with the operation; per element for lists"""
    return dict(acq_index=idx(kw.get("acq_index"), i) if n > 1 or isinstance(kw.get("acq_index"), (tuple, list)) else kw.get("acq_index"), coords=kw.get("coords"))

def dispersive(n, q, i, d, ov, p, typ):
    kw = n["kw"]; g = lambda name, key: ov.get(name, p[key])
    ro = port(d, q, "ports.readout"); cl = q + ".ro"
    D, L, dl = g("pulse_duration", "measure.pulse_duration"), g("acq_duration", "measure.integration_time"), g("acq_delay", "measure.acq_delay")
    amp = g("pulse_amp", "measure.pulse_amp"); proto = kw.get("acq_protocol") or "SSBIntegrationComplex"
    ch = kw.get("acq_channel"); ch = ov.get("acq_channel", p["measure.acq_channel"]) if ch is None else ch
    rm = refmag(d, q, "measure"); bm = kw.get("bin_mode") or "average"
    a = dict(common(kw, i, len(kw["__args__"])), channel=ch, bin_mode=str(bm), protocol=proto)
    ev = []
    gate = None if typ == "transmon" else g("gate_pulse_amp", "measure.gate_pulse_amp"); gp = None if typ == "transmon" else port(d, q, "ports.gate")
    if proto == "LongTimeTrace":
        if bm != "append": raise Reject("bin mode")
        N = g("num_points", "measure.num_points"); end = dl + N * L
        ev.append(("offset", 0, ro, cl, amp, 0))
        if gp: ev.append(("play", 0, gp, BB, None, "SquarePulse", dict(amp=gate, duration=S.ns(N * L))))
        for k in range(N):
            ev.append(("reset", dl + k * L, cl)); ev.append(("acq", dl + k * L, ro, cl, dict(a, protocol="SSBIntegrationComplex", duration=L)))
        ev.append(("offset", end, ro, cl, 0, 0))
        tot = end + 4
    else:
        if g("reset_clock_phase", "measure.reset_clock_phase"): ev.append(("reset", 0, cl))
        ev.append(("play", 0, ro, cl, rm, "SquarePulse", dict(amp=amp, duration=S.ns(D))))
        if gp: ev.append(("play", 0, gp, BB, rm, "SquarePulse", dict(amp=gate, duration=S.ns(D))))
        if proto in ("NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"):
            wa, wb, sr = g("acq_weights_a", "measure.acq_weights_a"), g("acq_weights_b", "measure.acq_weights_b"), g("acq_weights_sampling_rate", "measure.acq_weights_sampling_rate")
            L = round(len(wa) / sr * 1e9); a.update(wa=wa, wb=wb, sr=sr)
        if proto in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition"):
            a.update(label=kw.get("feedback_trigger_label"), threshold=g("acq_threshold", "measure.acq_threshold"))
            if proto == "ThresholdedAcquisition": a.update(rotation=g("acq_rotation", "measure.acq_rotation"))
        if proto == "Trace": a["bin_mode"] = "average"
        if proto not in SSBLIKE: raise Reject(proto)
        ev.append(("acq", dl, ro, cl, dict(a, duration=L)))
        tot = max(D, dl + L)
    if ov.get("freq") is not None:
        ev = [("freq", 0, cl, ov["freq"])] + ev + [("freq", tot, cl, None)]
    return ev, tot, -dl if kw.get("apply_acquisition_delay") is False else 0

def optical(n, c, q, i, d, ov, p):
    kw = n["kw"]; k = "measure" if c == "Measure" else "cr_count"
    g = lambda name, key: ov.get(name, p[key])
    dl = g("acq_delay", k + ".acq_delay"); L = g("acq_duration", k + ".acq_duration")
    tp, ta = max(0, -dl), max(0, dl)
    proto = kw.get("acq_protocol") or "TriggerCount"; bm = kw.get("bin_mode") or "append"
    ch = kw.get("acq_channel"); ch = ov.get("acq_channel", p[k + ".acq_channel"]) if ch is None else ch
    pl = [(p["measure.pulse_amplitude"], p["measure.pulse_duration"], q + ".ge0")] if c == "Measure" else [(p["cr_count.readout_pulse_amplitude"], p["cr_count.readout_pulse_duration"], q + ".ge0"), (p["cr_count.spinpump_pulse_amplitude"], p["cr_count.spinpump_pulse_duration"], q + ".ge1")]
    ev = [("play", tp, port(d, q, "ports.optical_control"), cl, None, "SquarePulse", dict(amp=a, duration=S.ns(D))) for a, D, cl in pl]
    if proto not in ("TriggerCount", "Trace", "Timetag", "TimetagTrace"): raise Reject(proto)
    a = dict(common(kw, i, len(kw["__args__"])), channel=ch, bin_mode=str(bm), protocol=proto, duration=L)
    ev.append(("acq", ta, port(d, q, "ports.optical_readout"), q + ".ge0", a))
    return ev, max([tp + D for _, D, _ in pl] + [ta + L]), 0

# ------------------------------------------------------------------ what a compiled schedule contains
def walk(op, t=0.0):
    """(time s, operation) of every leaf of a compiled schedule, loops expanded."""
    from quantify_scheduler.schedules.schedule import ScheduleBase
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    if isinstance(op, ScheduleBase):
        for s in op.schedulables.values(): yield from walk(op.operations[s["operation_id"]], t + s["abs_time"])
    elif isinstance(op, LoopOperation):
        for k in range(op.data["control_flow_info"]["repetitions"]): yield from walk(op.body, t + k * op.body.duration)
    elif isinstance(op, ConditionalOperation): yield from walk(op.body, t)
    else: yield t, op

def N(x):
    r = round(x * 1e9)
    if abs(x * 1e9 - r) > 1e-2: raise AssertionError(f"time {x} off the ns grid")
    return int(r)

def observed(comp):
    from quantify_scheduler.helpers.waveforms import get_waveform
    out = []
    for t, op in walk(comp):
        for i in op.data["pulse_info"]:
            tt = N(t + i["t0"])
            if i.get("wf_func"):
                rm = i.get("reference_magnitude")
                out.append(("play", tt, i["port"], i["clock"], None if rm is None else (rm.value, rm.unit), N(i["duration"]), np.asarray(get_waveform(i, 1e9), complex)))
            elif "offset_path_I" in i: out.append(("offset", tt, i["port"], i["clock"], i["offset_path_I"], i["offset_path_Q"]))
            elif "phase_shift" in i: out.append(("phase", tt, i["clock"], i["phase_shift"]))
            elif i.get("reset_clock_phase"): out.append(("reset", tt, i["clock"]))
            elif "clock_freq_new" in i: out.append(("freq", tt, i["clock"], i["clock_freq_new"]))
            elif i["port"] is None and len(i) <= 5: pass
            else: out.append(("other", tt, repr(i)))
        for i in op.data["acquisition_info"]: out.append(("acq", N(t + i["t0"]), i["port"], i["clock"], i))
    return out
