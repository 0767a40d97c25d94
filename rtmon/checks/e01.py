"""E01: measurements run the schedule for the current parameters."""
import copy, os, shutil, tempfile, warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import dev
from rtmon.checks.i01 import Fault

LEVEL = "exploration"
RULE = ("A case is one history of parameter changes, device changes, evaluations and injected failures on schedule gettables whose hardware components log every call and return data made from the program they last started and the number "
        "of the run. Every evaluation's schedule-function arguments, prepared programs, call order and returned values are compared with a reference; further cases are whole measurement-control runs. "
        "Non-trivial: at least two evaluations with different parameters; distinct by history content.")
ASSUMPTIONS = ["with re-initialisation switched off, no other schedule is prepared on the same coordinator between two evaluations", "acquisition channels of one schedule are all numbers or all names", "the hardware is a recording stand-in; real drivers are covered by A01, Q08 and I02"]
MINIMUM = {"histories": 120, "evaluations-ok": 500, "faults": 300, "faults-reported": 260, "reused": 240, "compile-only": 150, "values": 300000, "mc-runs": 24, "mc-points": 500, "device-changes": 150, "profiled": 90}
JOB_LIMIT_S = 240

def jobs(tier, seed):
    n = 24 if tier == "quick" else 500
    out = []
    for i in range(n): out += [dict(kind="history", i=i, seed=seed), dict(kind="mc", i=i, seed=seed)]
    return out

def cleanup_job(): dev.close_all()

def device(r, log):
    from qcodes.instrument import Instrument
    from quantify_scheduler.device_under_test.quantum_device import QuantumDevice
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase
    from rtmon import fakehw
    class Comp(InstrumentCoordinatorComponentBase):
        is_running = False
        def _call(self, what, *a):
            log.append((what, self.instrument.name) + a)
            e = self.faults.pop(what, None)
            if e is not None: raise e
        def prepare(self, program): self.program = None; self._call("prepare", copy.deepcopy(program)); self.program = program
        def start(self): self.running = None; self._call("start"); self.runs += 1; self.running = self.program
        def stop(self): self._call("stop")
        def wait_done(self, timeout_sec=10): self._call("wait", timeout_sec)
        def retrieve_acquisition(self): self._call("retrieve"); return fakehw.data(self.running, self.runs)
        def get_hardware_log(self, compiled_schedule): return None
    qd = QuantumDevice("device"); ic = InstrumentCoordinator("ic", add_default_generic_icc=r.random() < 0.5)
    comps = []
    for k in r.sample(range(3), 3):
        c = Comp(Instrument(f"dev{k}")); c.faults = {}; c.runs = r.randrange(1000); c.program = c.running = None
        ic.add_component(c); comps.append(c)
    for k in range(3):
        q = BasicTransmonElement(f"q{k}")
        q.rxy.amp180(0.1 + 0.1 * k); q.clock_freqs.f01(5e9); q.clock_freqs.readout(7e9 + k * 1e8); q.measure.acq_delay(100e-9); q.measure.pulse_duration(300e-9); q.measure.acq_channel(k)
        qd.add_element(q)
    qd.hardware_config(fakehw.config()); qd.instr_instrument_coordinator(ic.name)
    return qd, ic, comps

def schedule_function(r, seen, names):
    """A schedule function of random shape, whose content depends on every argument; logs its arguments."""
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.gate_library import Measure, Rxy, Reset
    from quantify_scheduler.operations.pulse_library import IdlePulse, SquarePulse
    from quantify_scheduler.enums import BinMode
    shape = []
    labels = r.random() < 0.3
    for q in sorted(r.sample(range(3), r.choice([1, 1, 2, 3]))):
        proto = r.choice(["SSBIntegrationComplex"] * 3 + ["Trace", "ThresholdedAcquisition"])
        shape.append((q, f"{'abc'[q]}" if labels else q * r.choice([1, 3]), proto, "average" if proto == "Trace" or r.random() < 0.6 else "append"))
    def fn(repetitions=1, **kw):
        seen.append((dict(kw), repetitions))
        s = Schedule("exp", repetitions=repetitions)
        flat = []
        for k in sorted(kw): flat += [float(x) for x in np.ravel(np.asarray(kw[k], dtype=float))] if not isinstance(kw[k], (str, dict)) else [float(len(str(kw[k])))]
        per = max(len(np.ravel(v)) if not isinstance(v, (str, dict)) else 1 for v in kw.values()) if kw else 1
        s.add(Reset("q0", "q1", "q2"))
        for n in range(fn.points or per):
            for q, ch, proto, mode in shape:
                x = flat[n % len(flat)] if flat else 0.0
                s.add(Rxy(theta=x * 57.0 % 360, phi=len(flat) * 3.0, qubit=f"q{q}")); s.add(IdlePulse(4e-9 * (1 + int(abs(x) * 1e3) % 50)))
                for y in flat[:5]: s.add(Rxy(theta=y * 11.0 % 360, phi=y * 7.0 % 360, qubit=f"q{q}"))
                s.add(Measure(f"q{q}", acq_channel=ch, acq_protocol=proto, bin_mode=BinMode(mode)))
        return s
    fn.shape = shape; fn.points = None
    return fn

def expected_result(programs, comps, real_imag, batched, return_xarray, runs):
    """What get() returns for the programs as they run; or an exception class."""
    from rtmon import fakehw
    arrays = {}
    for name, p in programs.items():
        for ch, a in fakehw.data(p, runs[name]).items(): arrays[ch] = a
    if not arrays: return RuntimeError
    if return_xarray: return arrays
    out = []
    for ch in sorted(arrays):
        a = arrays[ch]; v = a.values.reshape(-1); p = a.attrs["acq_protocol"]
        if p == "Trace" and a.shape[0] != 1: return ValueError
        if not batched and len(v) != 1: return ValueError
        if p == "TriggerCount" or p == "ThresholdedAcquisition": out.append(v.real); continue
        out += [v.real, v.imag] if real_imag else [np.abs(v), np.degrees(np.arctan2(v.imag, v.real))]
    return out

def same_result(got, want, mon):
    if isinstance(want, dict):
        if set(got.data_vars) != set(want): raise Violation("wrong-data", f"channels {list(got)} instead of {list(want)}")
        for ch in want:
            if not np.array_equal(got[ch].values, want[ch].values) or got[ch].attrs.get("acq_protocol") != want[ch].attrs["acq_protocol"]: raise Violation("wrong-data", f"channel {ch}: {got[ch].values} instead of {want[ch].values}")
            mon.count("values", got[ch].size)
        return
    if not isinstance(got, tuple) or len(got) != len(want): raise Violation("wrong-data", f"{len(got)} quantities instead of {len(want)}")
    for k, (a, b) in enumerate(zip(got, want)):
        if np.shape(a) != np.shape(b) or not np.allclose(a, b, rtol=1e-12, atol=1e-12): raise Violation("wrong-data", f"quantity {k}: {a} instead of {b}")
        mon.count("values", len(a))

def history(r, mon):
    from qcodes import ManualParameter, Parameter
    from quantify_scheduler.gettables import ScheduleGettable
    from quantify_scheduler.gettables_profiled import ProfiledScheduleGettable
    from rtmon import fakehw
    log, seen, history = [], [], []
    del fakehw.FAIL[:]
    qd, ic, comps = device(r, log)
    by = {c.instrument.name: c for c in comps}
    profiled = r.random() < 0.2
    always = r.random() < 0.6; one = not always or profiled
    gs = []
    counters = {"n": 0.0}
    pfault = []
    def reader():
        if pfault: raise pfault.pop()
        return counters["n"]
    pars = [ManualParameter(f"p{k}", initial_value=r.random()) for k in range(3)] + [Parameter("live", get_cmd=reader)]
    for k in range(1 if one else r.choice([1, 2, 3])):
        f = schedule_function(r, seen, None)
        kw = {}
        for n in r.sample(["alpha", "beta", "gamma", "delta"], r.randrange(1, 5)): kw[n] = r.choice([r.choice(pars), r.choice(pars), r.random(), 3, np.array([r.random(), r.random()]), [0.1, 0.2, r.random()], "text", {"x": 1}])
        f.points = r.choice([None, 1, 1, 2])
        opts = dict(real_imag=r.random() < 0.6, batched=r.random() < 0.6, always_initialize=always, return_xarray=r.random() < 0.25, num_channels=len(f.shape))
        if r.random() < 0.3: opts["data_labels"] = [f"l{i}" for i in range(2 * len(f.shape))]
        g = (ProfiledScheduleGettable if profiled else ScheduleGettable)(quantum_device=qd, schedule_function=f, schedule_kwargs=kw, **opts)
        if len(g.name) != 2 * len(f.shape) or len(g.unit) != len(g.name) or len(g.label) != len(g.name) or g.label != opts.get("data_labels", g.label) or len(set(g.label)) != len(g.label): raise Violation("labels", f"names {g.name}, units {g.unit}, labels {g.label} for {opts}")
        gs.append([g, f, kw, opts, None])        # last: programs prepared by this gettable
    def values(kw): return {k: (counters["n"] if v is pars[3] else v.cache.get() if isinstance(v, Parameter) else v) for k, v in kw.items()}
    def reference(f, kwv):
        """Programs that the schedule for these arguments must have, from the device as it is now."""
        from quantify_scheduler.backends import SerialCompiler
        n = len(seen)
        s = f(**copy.deepcopy(kwv), repetitions=qd.cfg_sched_repetitions()); del seen[n:]
        held, fakehw.FAIL[:] = list(fakehw.FAIL), []
        out = SerialCompiler("reference").compile(s, qd.generate_compilation_config()).compiled_instructions
        fakehw.FAIL[:] = held
        return copy.deepcopy(dict(out))
    def text(v): return repr({k: (x.tolist() if isinstance(x, np.ndarray) else x) for k, x in v.items()})
    def bad(kind, what): raise Violation(kind, f"{what}; calls {[x[:2] for x in log]}; history {history}")
    evaluated = set()
    prep_order = lambda programs: sorted(programs)
    loaded = None     # gettable index whose programs are in the coordinator
    for step in range(r.randrange(8, 22)):
        gi = r.randrange(len(gs)); g, f, kw, opts, prepared = gs[gi]
        op = r.choice(["param", "param", "device", "get", "get", "get", "get", "fault", "fault", "compile", "initialize"])
        history.append(op); del log[:]; del seen[:]
        counters["n"] += 1.0
        if op == "param":
            p = r.choice(pars[:3]); p(r.choice([r.random(), 0.0, float(r.randrange(5))]) if r.random() < 0.9 else None)
            if p() is None: history.append("none")
            continue
        if op == "device":
            mon.count("device-changes")
            q = qd.get_element(f"q{r.randrange(3)}"); w = r.randrange(5)
            if w == 0: q.rxy.amp180(r.random())
            elif w == 1: qd.cfg_sched_repetitions(r.choice([1, 2, 3, 7]))
            elif w == 2: q.measure.pulse_amp(r.random())
            elif w == 3: q.clock_freqs.readout(7e9 + r.random() * 1e8)
            else: q.measure.integration_time(r.choice([300e-9, 1e-6, 400e-9]))
            continue
        none = any(isinstance(v, Parameter) and v is not pars[3] and v() is None for v in kw.values())
        if op == "compile":
            if none: continue
            kwv = values(kw)
            want = reference(f, kwv); x = g.compile(); mon.count("compile-only")
            if x is None or dict(x.compiled_instructions) != want: bad("compile", f"compile() gave {x}, expected programs {want}")
            if g.compiled_schedule is not x or log: bad("compile", "compile() left another compiled schedule or used the instruments")
            if len(seen) != 1 or text(seen[0][0]) != text(kwv) or seen[0][1] != qd.cfg_sched_repetitions(): bad("arguments", f"schedule function called with {seen} instead of {kwv}")
            continue
        init = op == "initialize" or not g.is_initialized or opts["always_initialize"]
        if bool(g.is_initialized) != (prepared is not None): bad("state", f"is_initialized is {g.is_initialized} although {'prepared' if prepared is not None else 'not prepared'}")
        if init:
            kwv = values(kw); want = None if none else reference(f, kwv)
        else:
            want = prepared
            if loaded != gi: continue
        fault = None
        if op == "fault":
            places = ["stop", "stop-soft", "start", "wait", "retrieve", "final-stop"] + (["param", "function", "compile", "prepare"] if init else [])
            used = [n for n in by if want and n in want]
            place = r.choice(places); fault = r.choice([Fault("x"), RuntimeError("x"), ValueError("x"), KeyError("x")])
            c = by[r.choice(used)] if used else None
            if c is None: continue
            if place == "stop": c.faults["stop"] = fault
            elif place == "stop-soft": c.faults["stop"] = AttributeError("x")
            elif place == "param":
                if pars[3] not in [v for v in kw.values() if isinstance(v, Parameter)]: continue
                pfault.append(fault)
            elif place == "compile": fakehw.FAIL.append(fault)
            elif place in ("start", "wait", "retrieve", "prepare"): c.faults[place] = fault
            elif place == "function" or place == "final-stop": pass
            mon.count("faults"); history.append(place)
            if place == "function":
                def broken(*a, **k): raise fault
                g.schedule_function = broken
            if place == "final-stop":
                count = []
                def stop(self=c, orig=c.stop):
                    count.append(1)
                    if len(count) == 2: log.append(("stop", self.instrument.name)); raise fault
                    orig()
                c.stop = stop
        runs = {n: by[n].runs + 1 for n in by}; started_before = {n: by[n].runs for n in by}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try: res, exc = (g.initialize() if op == "initialize" else g.get()), None
            except Exception as e: res, exc = None, e
        if op == "fault":
            g.schedule_function = f
            if place == "final-stop": del c.stop
        left = [n for n in by if by[n].faults] + fakehw.FAIL + pfault
        for n in by: by[n].faults.clear()
        del fakehw.FAIL[:]; del pfault[:]
        stops = [k for k, x in enumerate(log) if x[0] == "stop"]; prep = [x for x in log if x[0] == "prepare"]; starts = [x for x in log if x[0] == "start"]
        if op != "initialize" and not none and not (op == "fault" and place in ("stop",)):
            if [x[0] for x in log[:3]] != ["stop"] * 3 or len({x[1] for x in log[:3]}) != 3: bad("not-stopped-before", f"the instruments were not all stopped before the run, outcome {exc!r}")
        if none and init:
            if exc is None or prep or starts: bad("missing-parameter", f"a parameter without value was accepted, outcome {exc!r}")
            gs[gi][4] = None if not left else gs[gi][4]; loaded = None if exc else loaded
            gs[gi][4] = None
            continue
        if op == "fault" and place != "stop-soft":
            if left: bad("harness", f"the fault at {place} was not reached: {left}")
            if exc is not fault: bad("failure-hidden", f"a failure at {place} gave {exc!r}")
            mon.count("faults-reported")
            if starts and place in ("param", "function", "compile", "prepare", "stop"): bad("started-after-failure", f"failure at {place}")
            if place in ("param", "function", "compile", "prepare"): gs[gi][4] = None; loaded = None
            elif place == "stop": pass
            elif init: gs[gi][4] = want; loaded = gi
            continue
        if init:
            if text(seen[0][0]) != text(kwv) or len(seen) != 1 or seen[0][1] != qd.cfg_sched_repetitions(): bad("arguments", f"schedule function called with {seen} instead of {kwv} with {qd.cfg_sched_repetitions()} repetitions")
            if exc is None or op != "initialize":
                if {x[1]: x[2] for x in prep} != want or len(prep) != len(want): bad("wrong-program", f"prepared {prep}, expected {want}")
            gs[gi][4] = want; loaded = gi
            if list(kw) != list(g.schedule_kwargs) or any(g.schedule_kwargs[k] is not kw[k] for k in kw): bad("arguments-changed", f"{g.schedule_kwargs}")
        else:
            mon.count("reused")
            if prep or seen: bad("reinitialised", "an initialised gettable was prepared again although re-initialisation is off")
        if op == "initialize":
            if exc is not None: bad("failed", f"initialize: {exc!r}")
            if starts: bad("started", "initialize started the instruments")
            continue
        result = expected_result(want, by, opts["real_imag"], opts["batched"], opts["return_xarray"], runs)
        if sorted(x[1] for x in starts) != sorted(want): bad("wrong-start", f"started {starts}, expected {sorted(want)}")
        kinds = [x[0] for x in log]
        if "start" in kinds and "prepare" in kinds and max(k for k, x in enumerate(kinds) if x == "prepare") > kinds.index("start"): bad("order", "prepared after start")
        if [x[0] for x in log[-3:]] != ["stop"] * 3 or len({x[1] for x in log[-3:]}) != 3: bad("not-stopped-after", f"the instruments were not all stopped after the run, outcome {exc!r}")
        if kinds.count("stop") != 6: bad("order", "stop calls")
        if {x[1] for x in log if x[0] == "retrieve"} != set(want): bad("wrong-read", f"expected reads of {sorted(want)}")
        if isinstance(result, type):
            if not isinstance(exc, result): bad("outcome", f"expected {result.__name__} for {opts}, got {exc!r} {res!r}")
            continue
        if exc is not None: bad("failed", f"{exc!r}")
        same_result(res, result, mon)
        mon.count("evaluations-ok"); evaluated.add(repr(want))
        if profiled: mon.count("profiled")
    if profiled:
        pic = g.profiled_instr_coordinator
        g.close()
        if qd.instr_instrument_coordinator() != ic.name: raise Violation("profiled-close", "the coordinator was not restored")
    mon.count("histories"); mon.case(tuple(history), len(evaluated) > 1)

def control(r, mon):
    """Whole runs of the measurement control."""
    from qcodes import ManualParameter
    from quantify_core.measurement.control import MeasurementControl
    import quantify_core.data.handling as dh
    from quantify_scheduler.gettables import ScheduleGettable
    from rtmon import fakehw
    log, seen = [], []
    del fakehw.FAIL[:]
    qd, ic, comps = device(r, log); by = {c.instrument.name: c for c in comps}
    qd.cfg_sched_repetitions(r.choice([1, 3]))
    tmp = tempfile.mkdtemp(prefix="e01-")
    try:
        old = dh._datadir if hasattr(dh, "_datadir") else None
        dh.set_datadir(tmp)
        mc = MeasurementControl("mc"); mc.verbose(False)
        batched = r.random() < 0.5
        f = schedule_function(r, seen, None)
        f.shape[:] = [(q, ch, "SSBIntegrationComplex", "average") for q, ch, _, _ in f.shape]
        x = ManualParameter("x", label="x", unit="s"); y = ManualParameter("y", label="y", unit="V"); x.batched = batched; y.batched = batched
        two = r.random() < 0.5
        kw = {"x": x, "fixed": r.random()}
        if two: kw["y"] = y
        if not batched: f.points = 1
        size = r.choice([3, 4, 100]); x.batch_size = y.batch_size = size
        g = ScheduleGettable(quantum_device=qd, schedule_function=f, schedule_kwargs=kw, num_channels=len(f.shape), batched=batched, real_imag=r.random() < 0.6, max_batch_size=r.choice([2, 5, 1024]))
        if batched:
            def fn(repetitions, **k):
                f.points = len(k["x"]); return f(repetitions=repetitions, **k)
            g.schedule_function = fn
        xs = np.array([r.random() for _ in range(r.randrange(2, 9))]); ys = np.array([r.random() for _ in range(r.randrange(1, 4))])
        if two: mc.settables([x, y]); mc.setpoints_grid([xs, ys])
        else: mc.settables(x); mc.setpoints(xs)
        mc.gettables(g)
        start = {n: by[n].runs for n in by}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ds = mc.run("e01")
        mon.count("mc-runs")
        # every prepared program in order, as logged
        pts = list(zip(ds["x0"].values, ds["x1"].values)) if two else [(v,) for v in ds["x0"].values]
        from quantify_scheduler.backends import SerialCompiler
        calls = list(seen); pos = 0; cols = None; n = 0
        runs = dict(start)
        for k, reps in calls:
            m = len(np.ravel(k["x"]))
            want = [p[0] for p in pts[pos:pos + m]]
            if list(np.ravel(k["x"])) != want or (two and list(np.ravel(k["y"])) != [p[1] for p in pts[pos:pos + m]]): raise Violation("arguments", f"points {pos}..{pos + m}: {k} instead of {pts[pos:pos + m]}")
            if batched: f.points = m
            s = f(repetitions=reps, **k)
            prog = SerialCompiler("reference").compile(s, qd.generate_compilation_config()).compiled_instructions
            for name in prog: runs[name] += 1
            res = expected_result(prog, by, g.real_imag, batched, False, runs)
            cols = [[] for _ in res] if cols is None else cols
            for c, v in zip(cols, res): c += list(v)
            pos += m; n += 1
        if pos != len(pts): raise Violation("points-missing", f"{pos} points were measured of {len(pts)}")
        for k, c in enumerate(cols):
            mon.count("mc-points", len(c)); mon.count("values", len(c))
            if not np.allclose(ds[f"y{k}"].values, c, rtol=1e-12, atol=1e-12): raise Violation("wrong-data", f"y{k}: {ds[f'y{k}'].values} instead of {c} (batched {batched})")
        if f"y{len(cols)}" in ds: raise Violation("wrong-data", f"more quantities than {len(cols)}")
        mon.case(repr((xs, ys, batched, f.shape)), len(pts) > 1)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run_job(job, mon):
    for k in range(10 if job["kind"] == "history" else 2):
        (history if job["kind"] == "history" else control)(rng_for("e01", job["kind"], job["i"], k, job["seed"]), mon); dev.close_all()
