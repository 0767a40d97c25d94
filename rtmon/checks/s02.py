"""S02: compilation leaves its inputs as they were and gives the same instructions every time."""
import copy, hashlib, json, os, subprocess, sys
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, qacq, qtm, gl, canon
from rtmon.checks import a01

LEVEL = "exploration"
RULE = ("A case is a history of compilations: two schedules (pulse level with acquisitions, clock operations and shared objects; gate level with measurements, conditionals, overrides; compensation, crosstalk, "
        "distortion and RF-switch options) with one configuration each, compiled repeatedly in random order with one or several compiler objects; before and after every compilation all objects the user made and the "
        "configuration are fingerprinted, and results of equal schedules (same object, rebuilt, rebuilt without sharing objects, in another process) are compared. Non-trivial: at least three compilations succeeded.")
ASSUMPTIONS = ["two programs are equivalent when their text is equal up to comments or when their executions give the same events"]
MINIMUM = {"compilations": 900, "fingerprints": 1500, "refused": 5, "shared-vs-separate": 100, "rebuilt": 150, "gate-level": 60, "pulse-level": 60, "qtm": 10, "compensation": 10, "corrections": 30, "devices": 30, "mock": 20, "other-process": 20}
JOB_LIMIT_S = 200

def jobs(tier, seed):
    n = 260 if tier == "quick" else 12000
    k = ["pulse", "gate", "pulse", "gate", "mock", "device", "corr"]
    return [dict(i=i, seed=seed, kind="process") for i in range(4 if tier == "quick" else 40)] + [dict(i=i, seed=seed, kind=k[i % len(k)]) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

class Case:
    """A schedule description with the configuration it is compiled with."""
    def __init__(self, top, cfg, comp, build=None):
        self.top, self.cfg, self.compare, self.first = top, cfg, comp, None
        self.build = build or (lambda sep: S.build(top, {"__all__": []}, copyshare=sep))

def hw_same(a, b): return canon.same_hardware(a, b)
def table_same(a, b): return canon.diff(tuple(canon.table(a)), tuple(canon.table(b)))
def mock_same(a, b): return canon.diff(canon.plain(a.compiled_instructions), canon.plain(b.compiled_instructions)) or table_same(a, b)

def options(r, rig, mon):
    """Corrections and other options on top of a rig."""
    pcs = [c for c in rig["chans"]]
    o = rig["opts"]
    if r.random() < 0.5:
        real = [c for c in pcs if not c.cplx]
        c = r.choice(pcs)
        o["distortion_corrections"] = {c.pc: {"filter_func": "scipy.signal.lfilter", "input_var_name": "x", "kwargs": {"b": [1.0, 0.25, 0.1], "a": [1.0]}, "clipping_values": [-1, 1]}}
    if r.random() < 0.4:
        o["latency_corrections"] = {c.pc: S.ns(r.randint(0, 100)) for c in pcs if r.random() < 0.6}
    same = [c for c in pcs if c.clock == qb.CLN]
    if len(same) > 1 and r.random() < 0.7:
        o["crosstalk"] = {a.pc: {b.pc: round(r.uniform(-0.2, 0.2), 3) for b in same if b is not a} for a in same}
    mon.count("corrections", bool(set(o) & {"distortion_corrections", "crosstalk"}))

def make(r, kind, mon):
    """Two cases of one kind."""
    if kind in ("pulse", "corr"):
        out = []
        for _ in range(2):
            x = r.random()
            if kind == "pulse" and x < 0.2: rig, plan, g, top = qtm.make(r); mon.count("qtm")
            elif kind == "pulse" and x < 0.5: _, rig, plan, top = a01.make(dict(seed=r.randrange(10**6), i=r.randrange(10**6)), "S02")
            else:
                rig = qb.make_rig(r, lo_ok=kind == "pulse")
                feat = {"pulses", "share"} | {f for f in ("loops", "nested", "long", "offsets", "clk") if r.random() < 0.5}
                g = qb.Gen(r, rig, feat, total=r.choice([600, 3000, 6000]))
                if kind == "corr": options(r, rig, mon); g.feat -= {"offsets", "long", "clk"}
                top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.randint(1, 3))
            out.append(Case(top, qb.config(rig), hw_same)); mon.count("pulse-level")
        return out
    d = gl.device(r, hw=kind == "gate")
    if kind == "mock": return mock(r, mon)
    feat = {f for f in ("loops", "nested", "conds", "share", "override", "parallel", "measure") if r.random() < 0.65}
    qd = gl.realise(d)
    if kind == "gate" and r.random() < 0.3: auto_rf(r, qd, d)
    cfg = qd.generate_compilation_config()
    out = []
    for _ in range(2):
        g = gl.Circuit(r, d, feat, safe=kind == "gate")
        top = g.top(r.randint(3, 10), r.randint(0, 2), r.randint(1, 3))
        out.append(Case(top, cfg, hw_same if kind == "gate" else table_same)); mon.count("gate-level" if kind == "gate" else "devices")
    if kind == "device" and r.random() < 0.5: out.append(compensation(r, d, cfg, mon))
    return out

def auto_rf(r, qd, d):
    hw = copy.deepcopy(d["hw"])
    hw["compiler_options"] = {"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": S.ns(r.choice([4, 20, 40]))}
    for m in hw["hardware_description"]["cluster0"]["modules"].values():
        if m["instrument_type"].endswith("_RF"): m["rf_output_on"] = False
    qd.hardware_config(hw)

def compensation(r, d, cfg, mon):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
    mon.count("compensation")
    pulses = [(q, round(r.uniform(-0.3, 0.3), 3), 4 * r.randint(2, 40)) for q in (r.choice(list(d["q"])) for _ in range(r.randint(1, 5)))]
    maxa = {f"{q}:fl": 0.5 for q in d["q"]}
    one = r.random() < 0.5
    def build(sep):
        from quantify_scheduler.operations.pulse_library import SquarePulse
        objs = {}
        def comp():
            body = Schedule("body")
            for q, a, n in pulses: body.add(SquarePulse(amp=a, duration=S.ns(n), port=f"{q}:fl", clock="cl0.baseband"))
            return PulseCompensation(body, max_compensation_amp=dict(maxa), time_grid=4e-9, sampling_rate=1e9)
        s = Schedule("comp"); a = comp(); s.add(a); s.add(a if one and not sep else comp())
        return s
    return Case(None, cfg, table_same, build)

def mock(r, mon):
    """A readout-only device on the mock backend."""
    from quantify_scheduler import QuantumDevice, Schedule
    from quantify_scheduler.backends.mock.mock_rom import hardware_compile
    d = gl.device(r, 1, hw=False); mon.count("mock")
    qd = gl.realise(d)
    qd.hardware_config({"config_type": "quantify_scheduler.backends.mock.mock_rom.MockROMHardwareCompilationConfig",
          "hardware_description": {"mock_rom": {"instrument_type": "Mock readout module", "sampling_rate": 1500000000.0}},
          "hardware_options": {"latency_corrections": {"q0:res-q0.ro": S.ns(r.randint(0, 40))}, "modulation_frequencies": {"q0:res-q0.ro": {"interm_freq": r.choice([0, 50e6, 1e6])}}, "gain": {"q0:res-q0.ro": r.choice([1, 2])}},
          "connectivity": {"graph": [("q0:res", "mock_rom.input_output")]}})
    cfg = qd.generate_compilation_config()
    out = []
    for _ in range(2):
        items, pc, trace, sid = [], dict(port="q0:res", clock="q0.ro"), r.random() < 0.5, 0
        for k in range(r.randint(1, 6)):
            n = 4 * r.randint(2, 40)
            if r.random() < 0.6: op = S.OP("SquarePulse", n, amp=round(r.uniform(-0.5, 0.5), 2), duration=S.ns(n), **pc)
            elif trace: op = S.OP("Trace", n, duration=S.ns(n), acq_channel=k, **pc)
            else: op = S.OP("SSBIntegrationComplex", n, duration=S.ns(n), acq_channel=r.choice(["a", 0]), bin_mode="average", **pc)
            items.append(S.ITEM(op, S.CON(rel=4 * r.randint(0, 9))))
            if "amp" in op["kw"] and r.random() < 0.4:
                op["sid"] = 100 + k
                items.append(S.ITEM(copy.deepcopy(op), S.CON(rel=4)))
        out.append(Case(dict(S.SCHED(items, "m"), reps=r.randint(1, 5)), cfg, mock_same, None))
    return out

def attempt(comp, sched, cfg):
    try: return comp.compile(sched, cfg), None
    except Exception as e:
        if os.environ.get("RTMON_WHY"): print("WHY", type(e).__name__, str(e)[:300].replace("\n", " "), flush=True)
        return None, type(e).__name__

def run_job(job, mon):
    if job["kind"] == "process": return process(job, mon)
    from quantify_scheduler.backends import SerialCompiler
    r = rng_for("S02", job["seed"], job["i"], job["kind"])
    cases = make(r, job["kind"], mon)
    compilers = [SerialCompiler("c"), SerialCompiler("d")]
    held = []      # (case, schedule, fingerprint)
    ok = 0; text = []
    for step in range(r.randint(4, 7)):
        x = r.random(); case = r.choice(cases)
        if held and x < 0.4: case, sched, how = *r.choice(held), "again"
        else:
            how = "separate" if x > 0.75 else "rebuilt"
            sched = case.build(how == "separate"); held.append((case, sched))
        before = [(s, canon.plain(s)) for _, s in held]
        cfgs = [(c.cfg, canon.plain(c.cfg)) for c in cases]
        text.append((how, cases.index(case)))
        res, err = attempt(r.choice(compilers), sched, case.cfg)
        mon.count("compilations")
        for s, f in before:
            mon.count("fingerprints")
            d = canon.diff(f, canon.plain(s))
            if d: raise Violation("schedule-changed", f"after step {step} of {text}: {d}\n{case.top and S.describe(case.top)[:1200]}")
        for c, f in cfgs:
            d = canon.diff(f, canon.plain(c))
            if d: raise Violation("configuration-changed", f"after step {step} of {text}: {d}")
        if err: mon.count("refused"); mon.count("refused-" + job["kind"] + "-" + err)
        else: ok += 1
        if case.first is None: case.first = (res, err, how); continue
        first, ferr, fhow = case.first
        if ferr != err: raise Violation("differs", f"{how} after {fhow}: {err} / {ferr}; history {text}\n{case.top and S.describe(case.top)[:1200]}")
        if err: continue
        d = case.compare(first, res)
        if d: raise Violation("differs", f"{how} after {fhow}: {d}; history {text}\n{case.top and S.describe(case.top)[:1200]}")
        mon.count("shared-vs-separate" if (how == "separate") != (fhow == "separate") else how)
    mon.case((job["kind"], [c.top and S.describe(c.top) for c in cases], text), ok >= 3)

def digests(seed, i, n=12):
    """Digest of what the hardware is told, for a fixed set of schedules."""
    import warnings; warnings.simplefilter("ignore")
    from rtmon.core import Monitor
    out = []
    for k in range(n):
        r = rng_for("S02p", seed, i, k)
        case = make(r, ["pulse", "gate"][k % 2], Monitor())[0]
        try: c = qb.compile_schedule(case.build(False), case.cfg)
        except Exception as e: out.append(type(e).__name__); cleanup_job(); continue
        ev = sorted((slot, st.channel_name, repr(canon.events(st))) for (slot, _), st in canon.seqs(c).items())
        out.append(hashlib.sha1(repr((ev, sorted(repr(canon.plain(canon.settings(st))) for st in canon.seqs(c).values()))).encode()).hexdigest()[:12])
        cleanup_job()
    return out

def process(job, mon):
    """The same in processes with other string hashes."""
    res = []
    for h in ("1", "77"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-c", f"import logging; logging.disable(50)\nfrom rtmon.checks import s02\nimport json\nprint('DIGESTS', json.dumps(s02.digests({job['seed']}, {job['i']})))"], capture_output=True, text=True, env=env, timeout=180)
        line = [l for l in p.stdout.splitlines() if l.startswith("DIGESTS")]
        if not line: raise RuntimeError(p.stderr[-1500:])
        res.append(json.loads(line[0][8:]))
    for k, (a, b) in enumerate(zip(*res)):
        mon.count("other-process"); mon.case((job["seed"], job["i"], k, a), True)
        if a != b: raise Violation("differs", f"schedule {k} compiled in two processes: {a} / {b}")
