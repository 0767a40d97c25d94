"""A small hardware back end for gettable histories: its programs name the schedule they were made from, its components return data that depends on the program and on the run."""
import hashlib
from typing import Literal
from pydantic import Field
from quantify_scheduler.backends.types.common import Connectivity, HardwareCompilationConfig, HardwareDescription, HardwareOptions
from quantify_scheduler.backends.graph_compilation import SimpleNodeConfig

FAIL = []          # exceptions to raise at the next compilation

def instrument_of(port): return {"q0": "dev0", "q1": "dev1"}.get(str(port).split(":")[0], "dev2")

def timeline(schedule, start=0.0):
    out = []
    for s in schedule.schedulables.values():
        op = schedule.operations[s["operation_id"]]
        if hasattr(op, "schedulables"):
            out += timeline(op, start + s["abs_time"])
            continue
        for kind in ("pulse_info", "acquisition_info"):
            for k, i in enumerate(op.data[kind]):
                if kind == "pulse_info" and not i.get("wf_func"): continue
                out.append((round((start + s["abs_time"] + i["t0"]) * 1e9, 3), kind, k, instrument_of(i.get("port")), {a: (str(b) if a in ("protocol", "bin_mode") else b) for a, b in sorted(i.items()) if a not in ("waveforms",)}, dict(i)))
    return sorted(out, key=lambda x: (x[0], x[1], x[2], x[3], repr(x[4])))

def compile_fake(schedule, config):
    if FAIL: raise FAIL.pop()
    programs = {}
    past = hashlib.sha1(repr(schedule.repetitions).encode())
    for t, kind, k, dev, text, info in timeline(schedule):
        past.update(repr((t, kind, text)).encode())
        p = programs.setdefault(dev, {"repetitions": schedule.repetitions, "acq": [], "token": ""})
        p["token"] = past.hexdigest()
        if kind == "acquisition_info":
            n = sum(1 for a in p["acq"] if a["ch"] == info["acq_channel"])
            p["acq"].append(dict(ch=info["acq_channel"], index=n, protocol=str(info["protocol"]), bin_mode=str(getattr(info["bin_mode"], "value", info["bin_mode"])), token=past.hexdigest()))
    schedule["compiled_instructions"] = programs
    return schedule

class FakeDescription(HardwareDescription):
    instrument_type: Literal["Fake"] = "Fake"

class FakeConfig(HardwareCompilationConfig):
    config_type: type = Field(default="rtmon.fakehw.FakeConfig", validate_default=True)
    hardware_description: dict[str, FakeDescription]
    hardware_options: HardwareOptions
    compilation_passes: list[SimpleNodeConfig] = [SimpleNodeConfig(name="fake", compilation_func=compile_fake)]

def config(note="x"):
    return {"config_type": "rtmon.fakehw.FakeConfig", "hardware_description": {f"dev{k}": {"instrument_type": "Fake"} for k in range(3)}, "hardware_options": {},
            "connectivity": {"graph": [(f"dev{k}.out", f"q{k}:res") for k in range(3)]}}

def data(program, run, trace_len=11):
    """The dataset a component returns for a program in its run number `run`."""
    import numpy as np, xarray as xr
    chans = {}
    for a in program["acq"]: chans.setdefault(a["ch"], []).append(a)
    out = {}
    for ch, acqs in chans.items():
        n = len(acqs); d = f"acq_index_{ch}"; reps = program["repetitions"]; p = acqs[0]["protocol"]; append = acqs[0]["bin_mode"] == "append"
        def rnd(*extra): return np.random.RandomState([int(acqs_token[:8], 16), run % 2**31, *extra])
        if p == "Trace": v = np.zeros((n, trace_len), complex)
        elif append: v = np.zeros((reps, n), complex)
        else: v = np.zeros(n, complex)
        for k, a in enumerate(acqs):
            acqs_token = a["token"]; g = rnd(k)
            col = lambda m: g.normal(size=m) + 1j * g.normal(size=m)
            if p == "Trace": v[k] = col(trace_len)
            elif append: v[:, k] = col(reps)
            else: v[k] = col(1)[0]
        if p == "TriggerCount": v = np.abs(v.real * 100).astype(int)
        if p == "ThresholdedAcquisition": v = (v.real > 0).astype(int) if append else np.abs(np.tanh(v.real))
        dims = [d, f"trace_index_{ch}"] if p == "Trace" else ["repetition", d] if append else [d]
        out[ch] = xr.DataArray(v, dims=dims, coords={d: np.arange(n)}, attrs={"acq_protocol": p})
    return xr.Dataset(out)
