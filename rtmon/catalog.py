"""Every user-facing operation class with generators for valid and for changed parameter values."""
from __future__ import annotations
import copy
import numpy as np

def ns(n): return float(f"{n}e-9")

# kind -> (random value, a different value)
def val(kind, r):
    k = kind
    if k == "amp": return r.choice([round(r.uniform(-1, 1), 3), 0.5, -1, 1, -0.25])
    if k == "camp": return r.choice([round(r.uniform(-1, 1), 3), 0.5, -1, complex(round(r.uniform(-.7, .7), 2), round(r.uniform(-.7, .7), 2)), -1j])
    if k == "dur": return ns(4 * r.randint(1, 200))
    if k == "ldur": return ns(4 * r.randint(30, 200))
    if k == "tiny": return ns(r.randint(0, 3))
    if k == "angle": return r.choice([float(r.randint(-170, 170)), -1, 1, 0, 90, round(r.uniform(-180, 180), 5)])
    if k == "phase": return r.choice([float(r.randint(0, 350)), 1, 0, 90, round(r.uniform(0, 350), 5)])
    if k == "port": return r.choice(["q0:mw", "q1:mw", "q0:res", "q0:fl"])
    if k == "clock": return r.choice(["q0.01", "q0.ro", "q1.01", "q0.12"])
    if k == "t0": return r.choice([0, ns(4 * r.randint(1, 20))])
    if k == "chan": return r.choice([0, 1, 2, "ch", ("a", 1)])
    if k == "coords": return r.choice([None, {"x": r.randint(-3, 3)}, {"x": 0.1, "y": -2}, {"freq": 5e9}])
    if k == "acq_index": return r.choice([None, 0, 1, 2])
    if k == "bin_mode": return r.choice(["append", "average"])
    if k == "freq": return r.choice([float(r.randint(-200, 200)) * 1e6, 5e9, 4.123e9])
    if k == "freqopt": return r.choice([None, 5e9, 4.9e9])
    if k == "steps": return r.randint(2, 9)
    if k == "off": return r.choice([0, 0.1, -0.2, round(r.uniform(-1, 1), 3)])
    if k == "sigma": return r.choice([ns(5), ns(9), ns(13)])
    if k == "samples": return [round(r.uniform(-1, 1), 2) for _ in range(r.randint(3, 6))]
    if k == "tsamples3": return np.linspace(0, r.choice([40e-9, 80e-9, 41e-9]), 5).tolist()
    if k == "samples5": return [round(r.uniform(-1, 1), 2) for _ in range(5)]
    if k in ("wsamples", "cwsamples"):
        n = 5 if r.random() < 0.7 else r.choice([1100, 2000])
        w = np.zeros(n); w[n // 4:n // 4 + 3] = [round(r.uniform(-1, 1), 2) for _ in range(3)][:len(w[n // 4:n // 4 + 3])]
        return w.tolist() if k == "wsamples" else (w * complex(1, round(r.uniform(.1, .9), 2))).tolist()
    if k == "csamples5": return [complex(round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2)) for _ in range(5)]
    if k == "interp": return r.choice(["linear", "cubic", "nearest"])
    if k == "rate": return r.choice([1e9, 5e8])
    if k == "label": return r.choice([None, "q0", "q1"])
    if k == "slabel": return r.choice(["q0", "q1", "q2"])
    if k == "int": return r.randint(1, 9)
    if k == "qubit": return r.choice(["q0", "q1", "q2"])
    if k == "qubits": return tuple(r.sample(["q0", "q1", "q2"], r.randint(1, 3)))
    if k == "rm": return None
    if k == "bool": return r.random() < .5
    if k == "wfdict":
        return {"port": "q0:res", "clock": "q0.ro", "t0": 0, "duration": 1e-7, "wf_func": "quantify_scheduler.waveforms.square", "amp": r.choice([1, 0.5, 1j])}
    if k == "proto": return r.choice([None, "SSBIntegrationComplex", "Trace", "ThresholdedAcquisition"])
    if k == "name": return r.choice(["a", "b", "c"])
    if k == "prog": return r.choice(["wait 100", "set_mrk 3\nwait 100"])
    if k == "timesource": return r.choice(["first", "last", "second"])
    if k == "timeref": return r.choice(["start", "end", "first"])
    if k == "cond": return r.choice(["ge", "lt"]) if False else "greater_equal_threshold"
    if k == "body": return r.choice([("X", "q0"), ("X90", "q0"), ("X", "q1"), ("Sq", 0.1), ("Sq", 0.2), ("Sched", 1), ("Sched", 2)])
    if k == "ovr": return r.choice([{}, {"rxy_duration": 4e-8}, {"amp180": 0.3}])
    if k == "mamp": return {"q0:fl": r.choice([0.1, 0.2, 0.5])}
    raise KeyError(k)

def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b

NUM = {"amp", "camp", "angle", "phase", "off", "freq", "int"}
def other(kind, r, v):
    """A value of the kind that is certainly different from v; often a close or related one."""
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude
    if kind == "rm":
        return ReferenceMagnitude(r.choice([0.1, 0.5]), r.choice(["V", "dBm", "A"])) if v is None else None
    for _ in range(200):
        x = r.random(); w = None
        if kind in NUM and isinstance(v, (int, float, complex)) and x < 0.5:
            w = r.choice([-v, v + (1e-4 if kind in ("angle", "phase") else 1e-9) * (abs(v) or 1), v + 1, v - 1, v * 2]) if kind not in ("int",) else v + r.choice([1, 2])
            if v in (-1, -2) and r.random() < .5: w = -3 - v
            if kind == "camp" and r.random() < .3: w = complex(v).conjugate() if complex(v).imag else complex(v) * 1j
        elif kind == "camp" and x < .6: w = v * 1j
        elif kind in ("samples5", "csamples5", "wsamples", "cwsamples") and x < .7:
            w = list(v)
            if r.random() < .5: r.shuffle(w)
            else: w[r.randrange(len(w))] += 1e-6
        elif kind == "coords" and isinstance(v, dict) and x < .6:
            w = copy.deepcopy(v); k = r.choice(list(w)); w[k] = r.choice([-w[k], w[k] + 1, {"in": w[k]}.get("in") * 3 + 1])
        elif kind == "qubits" and x < .5: w = tuple(r.sample(v, len(v)))
        elif kind in ("dur", "ldur", "t0", "sigma") and x < .5: w = v + r.choice([1e-9, 4e-9, 1e-12])
        else: w = val(kind, r)
        if w is not None or v is not None:
            if not same(w, v): return w
    raise RuntimeError(kind)

A = dict(acq_channel="chan", coords="coords", acq_index="acq_index", bin_mode="bin_mode", t0="t0")
P = dict(port="port", clock="clock", reference_magnitude="rm", t0="t0")
CAT = {
    "ShiftClockPhase": dict(phase_shift="angle", clock="clock", t0="t0"),
    "ResetClockPhase": dict(clock="clock", t0="t0"),
    "SetClockFrequency": dict(clock="clock", clock_freq_new="freqopt", t0="t0"),
    "VoltageOffset": dict(offset_path_I="off", offset_path_Q="off", port="port", clock="clock", t0="t0", reference_magnitude="rm"),
    "IdlePulse": dict(duration="dur"),
    "RampPulse": dict(amp="amp", duration="dur", offset="off", **P),
    "StaircasePulse": dict(start_amp="amp", final_amp="amp", num_steps="steps", duration="dur", **P),
    "MarkerPulse": dict(duration="dur", port="port", t0="t0", fine_start_delay="tiny", fine_end_delay="tiny"),
    "SquarePulse": dict(amp="camp", duration="dur", **P),
    "SuddenNetZeroPulse": dict(amp_A="amp", amp_B="amp", net_zero_A_scale="amp", t_pulse="dur", t_phi="dur", t_integral_correction="dur", **P),
    "SoftSquarePulse": dict(amp="amp", duration="dur", **P),
    "ChirpPulse": dict(amp="amp", duration="dur", start_freq="freq", end_freq="freq", **P),
    "DRAGPulse": dict(G_amp="amp", D_amp="amp", phase="phase", duration="dur", sigma="sigma", **P),
    "GaussPulse": dict(G_amp="amp", phase="phase", duration="dur", sigma="sigma", **P),
    "WindowOperation": dict(window_name="name", duration="dur", t0="t0"),
    "NumericalPulse": dict(samples="samples5", t_samples="tsamples3", interpolation="interp", **P),
    "SkewedHermitePulse": dict(duration="dur", amplitude="amp", skewness="amp", phase="phase", **P),
    "Timestamp": dict(port="port", t0="t0", clock="clock"),
    "Trace": dict(duration="dur", port="port", clock="clock", **A),
    "WeightedIntegratedSeparated": dict(waveform_a="wfdict", waveform_b="wfdict", port="port", clock="clock", duration="dur", **A),
    "SSBIntegrationComplex": dict(port="port", clock="clock", duration="dur", **A),
    "ThresholdedAcquisition": dict(port="port", clock="clock", duration="dur", feedback_trigger_label="label", acq_rotation="phase", acq_threshold="amp", **A),
    "NumericalSeparatedWeightedIntegration": dict(port="port", clock="clock", weights_a="wsamples", weights_b="wsamples", weights_sampling_rate="rate", interpolation="interp", **A),
    "NumericalWeightedIntegration": dict(port="port", clock="clock", weights_a="cwsamples", weights_b="cwsamples", weights_sampling_rate="rate", interpolation="interp", **A),
    "WeightedThresholdedAcquisition": dict(port="port", clock="clock", weights_a="wsamples", weights_b="wsamples", weights_sampling_rate="rate", interpolation="interp", feedback_trigger_label="label", acq_threshold="amp", **A),
    "TriggerCount": dict(port="port", clock="clock", duration="dur", fine_start_delay="tiny", fine_end_delay="tiny", **A),
    "TimetagTrace": dict(duration="dur", port="port", clock="clock", time_ref="timeref", fine_start_delay="tiny", fine_end_delay="tiny", **A),
    "Timetag": dict(duration="dur", port="port", clock="clock", time_source="timesource", time_ref="timeref", fine_start_delay="tiny", fine_end_delay="tiny", **A),
    "ThresholdedTriggerCount": dict(port="port", clock="clock", duration="dur", threshold="int", feedback_trigger_label="label", **{k: v for k, v in A.items() if k != "bin_mode"}),
    "DualThresholdedTriggerCount": dict(port="port", clock="clock", duration="dur", threshold_low="int", threshold_high="int", label_low="label", label_mid="label", label_high="label", label_invalid="label", **{k: v for k, v in A.items() if k != "bin_mode"}),
    "Rxy": dict(theta="angle", phi="angle", qubit="qubit", __over__="ovr"), "Rz": dict(theta="angle", qubit="qubit"),
    "X": dict(qubit="qubit", __over__="ovr"), "X90": dict(qubit="qubit"), "Y": dict(qubit="qubit"), "Y90": dict(qubit="qubit"), "Z": dict(qubit="qubit"), "Z90": dict(qubit="qubit"),
    "S": dict(qubit="qubit"), "SDagger": dict(qubit="qubit"), "T": dict(qubit="qubit"), "TDagger": dict(qubit="qubit"),
    "H": dict(__args__="qubits"), "Reset": dict(__args__="qubits"),
    "Measure": dict(__args__="qubits", acq_channel="chan", coords="coords", acq_index="acq_index", acq_protocol="proto", bin_mode="bin_mode", feedback_trigger_label="label", apply_acquisition_delay="bool", __over__="ovr"),
    "CNOT": dict(__pair__="pair"), "CZ": dict(__pair__="pair", __over__="ovr"),
    "LoopOperation": dict(body="body", repetitions="int", t0="t0"),
    "ConditionalOperation": dict(body="body", qubit_name="slabel", t0="t0", hardware_buffer_time="t0"),
    "ChargeReset": dict(__args__="qubits"), "CRCount": dict(__args__="qubits", acq_channel="chan"), "SpinInit": dict(__pair__="pair"),
    "SpectroscopyOperation": dict(qubit="qubit", __over__="ovr"),
    "PulseCompensation": dict(body="body", __comp__="comp"),
    "RFSwitchToggle": dict(duration="dur", port="port", clock="clock"),
    "LatchReset": dict(__pc__="pc", t0="t0"),
    "SimpleNumericalPulse": dict(samples="samples5", **P),
    "InlineQ1ASM": dict(program="prog", duration="dur", port="port", clock="clock", safe_labels="bool"),
}
PAIRS = [("q0", "q1"), ("q1", "q0"), ("q0", "q2"), ("q2", "q1")]
COMPS = [dict(qubits="q0"), dict(qubits=["q0", "q1"]), dict(max_compensation_amp={"q0:fl": 0.1}, time_grid=4e-9, sampling_rate=1e9),
         dict(max_compensation_amp={"q0:fl": 0.2}, time_grid=4e-9, sampling_rate=1e9), dict(max_compensation_amp={"q0:fl": 0.1}, time_grid=8e-9, sampling_rate=1e9),
         dict(max_compensation_amp={"q1:fl": 0.1}, time_grid=4e-9, sampling_rate=1e9), dict(max_compensation_amp={"q0:fl": 0.1}, time_grid=4e-9, sampling_rate=2e9)]
PCS = [("q0:mw", "q0.01"), ("q0:mw", "q0.12"), ("q1:mw", "q0.01")]

def cval(kind, r):
    return {"pair": lambda: r.choice(PAIRS), "comp": lambda: copy.deepcopy(r.choice(COMPS)), "pc": lambda: r.choice(PCS)}.get(kind, lambda: val(kind, r))()
def cother(kind, r, v):
    if kind in ("pair", "comp", "pc"):
        while True:
            w = cval(kind, r)
            if w != v: return w
    return other(kind, r, v)

def random_kwargs(cls, r):
    kw = {p: cval(k, r) for p, k in CAT[cls].items()}
    return fix(cls, kw)

def fix(cls, kw):
    """Keep parameter combinations inside what the classes document as valid."""
    if cls in ("Trace",): kw["bin_mode"] = "average" if kw.get("bin_mode") not in ("average", "append") else kw["bin_mode"]
    if cls == "Measure" and len(kw["__args__"]) > 1: kw["acq_index"] = None; kw["acq_channel"] = None
    if cls == "Measure" and kw["acq_protocol"] == "Trace": kw["bin_mode"] = "average"
    if "weights_a" in kw:
        n = max(len(kw["weights_a"]), len(kw["weights_b"]))
        for k in ("weights_a", "weights_b"): kw[k] = list(kw[k]) + [0.0] * (n - len(kw[k]))
    return kw

def classes():
    import quantify_scheduler.operations as o
    from quantify_scheduler.operations import gate_library, spin_library, nv_native_library, shared_native_library
    from quantify_scheduler.backends.qblox.operations import pulse_library as qp, inline_q1asm, rf_switch_toggle
    d = {}
    for m in (o, o.pulse_library, o.acquisition_library, o.control_flow_library, gate_library, spin_library, nv_native_library, shared_native_library, o.pulse_compensation_library, qp, inline_q1asm, rf_switch_toggle):
        for k, v in vars(m).items():
            if isinstance(v, type): d.setdefault(k, v)
    return d
_C = None
def make(cls, kw):
    global _C
    if _C is None: _C = classes()
    kw = copy.deepcopy(kw)
    args = kw.pop("__args__", ()) or kw.pop("__pair__", ())
    kw.pop("__pair__", None)
    pc = kw.pop("__pc__", None)
    if pc: kw["portclock"] = pc
    kw.update(kw.pop("__over__", {})); kw.update(kw.pop("__comp__", {}))
    if "body" in kw:
        t, x = kw["body"]
        if t == "Sched":
            from quantify_scheduler import Schedule
            s = Schedule("body"); s.add(_C["X90"]("q0"), label="a")
            s.add(_C["SquarePulse"](0.1 * x, 1e-7, "q0:mw", "q0.01"), label="b", rel_time=1e-8 * x); kw["body"] = s
        elif t == "Sq": kw["body"] = _C["SquarePulse"](x, 1e-7, "q0:mw", "q0.01")
        else: kw["body"] = _C[t](x)
    return _C[cls](*args, **kw)
