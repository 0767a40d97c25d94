"""J01: serialisation round-trips without loss."""
import copy, dataclasses, enum, json, os, re, subprocess, sys, tempfile, warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import catalog as C, canon, dev, gd, gl, qb, qic, spec as S
from rtmon.checks import s02, q05

LEVEL = "exploration"
RULE = ("A case is an object (operation of every class with plain and numpy parameter values; schedule with nested schedules, control flow, labels, resources and acquisitions; compiled schedule; device element, edge and "
        "device of every type; hardware configuration) written to text and read back in the same or in another process, compared content by content, as text, and by what it compiles to; compiled schedules also by running "
        "the restored one on the dummy cluster and comparing the data. Damaged texts must be refused. Non-trivial: the object holds at least one value that is not a default; distinct by content.")
ASSUMPTIONS = ["text has no tuples and no numpy float64: lists and floats are accepted in their place", "compiled schedules: those for Qblox hardware or without hardware", "a quantum device is written with its elements, edges and repetitions only, as documented"]
MINIMUM = {"operations": 700, "numpy-values": 180, "schedules": 100, "compiled": 60, "compiled-run": 25, "elements": 120, "edges": 40, "devices": 60, "yaml": 30, "hardware-configs": 20, "damaged": 300, "other-process": 24, "recompiled": 90, "resources": 120, "legacy": 500}
JOB_LIMIT_S = 200

def jobs(tier, seed):
    n = 1 if tier == "quick" else 25
    out = []
    for i in range(n):
        out += [dict(kind="ops", cls=c, i=i, seed=seed) for c in C.CAT]
        for k in range(40): out += [dict(kind="sched", i=40 * i + k, seed=seed), dict(kind="device", i=40 * i + k, seed=seed), dict(kind="run", i=40 * i + k, seed=seed)]
        for k in range(24): out += [dict(kind="sched", i=10**6 + 24 * i + k, seed=seed), dict(kind="hw", i=24 * i + k, seed=seed)]
        out += [dict(kind="damage", i=4 * i + k, seed=seed) for k in range(4)]
        out += [dict(kind="process", i=2 * i + k, seed=seed) for k in range(2)]
    return out

def cleanup_job(): dev.close_all()

def text(o):
    from quantify_scheduler.json_utils import SchedulerJSONEncoder
    return o.to_json() if hasattr(o, "to_json") else json.dumps(o, cls=SchedulerJSONEncoder)

def read(t, cls=None):
    from quantify_scheduler.json_utils import SchedulerJSONDecoder
    return cls.from_json(t) if cls and hasattr(cls, "from_json") else json.loads(t, cls=SchedulerJSONDecoder)

def loose(o, depth=0):
    """Content up to what text can hold: sequences, mappings, numbers and names; library objects by class and content."""
    if depth > 60: return "..."
    if isinstance(o, enum.Enum): return o.value
    if isinstance(o, np.generic): o = o.item()
    if isinstance(o, bool): return ("bool", o)
    if isinstance(o, (str, bytes, type(None))): return o
    if isinstance(o, (int, float)): return "nan" if o != o else float(o) if not isinstance(o, int) or abs(o) < 2**53 else o
    if isinstance(o, complex): return ("c", repr(o.real), repr(o.imag))
    if isinstance(o, np.ndarray): return tuple(loose(x, depth + 1) for x in o) if o.ndim else loose(o.item(), depth + 1)
    if isinstance(o, type): return ("type", o.__name__)
    if callable(o) and hasattr(o, "__qualname__"): return ("fn", o.__qualname__)
    if hasattr(o, "program") and hasattr(o, "safe_labels"): return (type(o).__name__, o.program, o.duration, o.port, o.clock, loose(o.waveforms), o.safe_labels, loose(o.data, depth + 1))
    if hasattr(o, "data") and isinstance(getattr(o, "data"), dict) and not dataclasses.is_dataclass(o): return (type(o).__name__, loose(o.data, depth + 1))
    if isinstance(o, dict): return ("map",) + tuple((str(k), loose(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)): return tuple(loose(x, depth + 1) for x in o)
    if isinstance(o, (set, frozenset)): return ("set",) + tuple(sorted((loose(x, depth + 1) for x in o), key=repr))
    if dataclasses.is_dataclass(o): return ("map",) + tuple((f.name, loose(getattr(o, f.name), depth + 1)) for f in dataclasses.fields(o))
    return (type(o).__name__, repr(o) if "0x" not in repr(o) else "obj")

def same(what, a, b, mon=None):
    d = canon.diff(loose(a), loose(b))
    if d: raise Violation("content-changed", f"{what}: {d}"[:1500])

def samedev(mon, what, a, b):
    """As same, for parameters of instruments; the loss of a parameter of a nested submodule is a known finding."""
    b = dict(b)
    for k, v in a.items():
        if k.count(".") >= 2 and k in b and canon.diff(loose(v), loose(b[k])) and isinstance(b[k], float) and b[k] != b[k]:
            b[k] = v
            if not any(x["mechanism"] for x in mon.violations[-1:]): mon.fail("content-changed", f"{what}: {k}: {v} -> nan", mechanism="nested-submodule-parameter")
    same(what, a, b)

def roundtrip(what, o, cls=None):
    before = loose(o); t = text(o)
    if canon.diff(before, loose(o)): raise Violation("writing-changes-object", f"{what}: {canon.diff(before, loose(o))}")
    u = read(t, cls)
    if type(u) is not type(o): raise Violation("type-changed", f"{what}: {type(o).__name__} -> {type(u).__name__}")
    same(what, o, u)
    t2 = text(u)
    if t2 != t: raise Violation("text-changed", f"{what}: {_first(t, t2)}")
    if canon.diff(before, loose(o)): raise Violation("reading-changes-original", what)
    return t, u

def _first(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"at {k}: {a[max(0, k - 60):k + 60]!r} / {b[max(0, k - 60):k + 60]!r}"

# ---- operations
NP = [np.float64, np.float32, np.float16, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.complex128, np.complex64]
def numpied(r, v, depth=0):
    """The same value in numpy types, where these hold it exactly."""
    if isinstance(v, bool): return np.bool_(v)
    if isinstance(v, (int, float, complex)):
        ok = [t for t in NP if _holds(t, v)]
        return r.choice(ok)(v) if ok else v
    if isinstance(v, dict): return {k: numpied(r, x, depth + 1) for k, x in v.items()}
    if isinstance(v, list) and v and all(isinstance(x, (int, float, complex)) for x in v):
        x = r.random()
        if x < 0.4: return np.array(v)
        if x < 0.6 and all(isinstance(y, (int, float)) for y in v): return np.array(v, dtype=np.float32)
        return [numpied(r, y, depth + 1) for y in v]
    return v
def _holds(t, v):
    if isinstance(v, complex): return np.issubdtype(t, np.complexfloating) and complex(t(v)) == v
    if np.issubdtype(t, np.complexfloating): return False
    if np.issubdtype(t, np.integer): return isinstance(v, int) and np.iinfo(t).min <= v <= np.iinfo(t).max
    return isinstance(v, float) and abs(v) < 6e4 and float(t(v)) == v

NPKINDS = {"amp", "camp", "dur", "ldur", "angle", "phase", "t0", "coords", "acq_index", "freq", "freqopt", "steps", "off", "sigma", "samples5", "csamples5", "tsamples3", "wsamples", "cwsamples", "rate", "int", "bool"}
def nochan(kw):
    if isinstance(kw.get("acq_channel"), tuple): kw["acq_channel"] = "tup"
    return kw

def ops(job, mon):
    cls = job["cls"]
    for k in range(14):
        r = rng_for("J01", job["seed"], cls, job["i"], k)
        kw = nochan(C.random_kwargs(cls, r)); np_used = False
        if k % 2:
            plain = kw
            kw = {p: numpied(r, v) if C.CAT[cls].get(p) in NPKINDS and r.random() < 0.8 else v for p, v in plain.items()}
            try: a = C.make(cls, kw)
            except Exception: a = C.make(cls, plain); kw = plain         # (not every class takes every numpy type)
            else: np_used = any(not isinstance(v, type(plain[p])) or isinstance(v, dict) for p, v in kw.items())
        else: a = C.make(cls, kw)
        t, b = roundtrip((cls, kw), a)
        mon.count("operations"); mon.count("numpy-values", np_used); mon.case((cls, t))
        if not np_used and not (a == b and b == a): raise Violation("unequal", f"{cls} {kw}")
        if not np_used and (a.hash != b.hash or hash(a) != hash(b)): raise Violation("hash-changed", f"{cls} {kw}")
        if "body" not in kw and not np_used and a.duration != b.duration: raise Violation("duration-changed", f"{cls} {kw}: {a.duration} / {b.duration}")
        if str(a) != str(b) and not np_used and "weights" not in str(a) and "np." not in str(a): raise Violation("text-form-changed", f"{cls}: {a} / {b}")
        legacy(cls, a, t, mon)

LEGACY_MODULES = ("operation", "acquisition_library", "gate_library", "pulse_library", "nv_native_library", "shared_native_library")
def legacy(cls, a, t, mon):
    """Texts of earlier releases name the class only."""
    m = re.match(r'\{"deserialization_type": "quantify_scheduler\.operations\.(\w+)\.(\w+)"', t)
    if not m or m.group(1) not in LEGACY_MODULES: return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = read(t.replace(f"quantify_scheduler.operations.{m.group(1)}.{m.group(2)}", m.group(2), 1))
    mon.count("legacy")
    if type(b) is not type(a): raise Violation("type-changed", f"legacy {cls}: {type(b)}")
    same(("legacy", cls), a, b)
    if '"device_elements": ' in t and '"gate_info": {}' not in t:       # gates of earlier releases act on "qubits"
        mon.count("legacy-qubits")
        b = read(t.replace('"device_elements": ', '"qubits": ', 1)); equal = a == b
        for o in (a, b): o.data["gate_info"] = dict(sorted(o.data["gate_info"].items()))
        same(("legacy-qubits", cls), a, b)
        if not equal: raise Violation("unequal", f"legacy-qubits {cls}")

# ---- schedules and compiled schedules
def mapped(n):
    """Earlier releases wrote the schedulables as a mapping."""
    if isinstance(n, dict): return {k: {a: mapped(b) for a, b in v} if k == "schedulables" and isinstance(v, list) else mapped(v) for k, v in n.items()}
    return [mapped(x) for x in n] if isinstance(n, list) else n

def untuple(n):
    if isinstance(n, dict):
        return {k: (f"tup{v[-1]}" if k in ("acq", "acq_channel") and isinstance(v, tuple) else untuple(v)) for k, v in n.items()}
    return [untuple(x) for x in n] if isinstance(n, list) else n

def chan_ok(comp):
    """No acquisition channel that text cannot hold."""
    for v in comp.compiled_instructions.values():
        if isinstance(v, dict) and any(isinstance(k, tuple) for k in v.get("acq_channels_data", {})): return False
    return True

def sched(job, mon):
    from quantify_scheduler import Schedule, SerialCompiler
    from quantify_scheduler.schedules.schedule import CompiledSchedule
    from quantify_scheduler.resources import ClockResource, BasebandClockResource
    r = rng_for("J01", job["seed"], "sched", job["i"])
    kind = r.choice(["pulse", "gate", "pulse", "gate", "mock", "device", "corr"])
    for case in s02.make(r, kind, mon):
        if case.top is not None: case.top = untuple(case.top)
        s = case.build(False)
        if r.random() < 0.5:
            s.add_resource(ClockResource(f"x.{r.randint(0, 9)}", freq=round(r.uniform(1e9, 9e9), r.randint(0, 3)), phase=r.choice([0, 12.5]))); s.add_resource(BasebandClockResource("xb"))
            for x in list(s.resources.values()): roundtrip("resource", x); mon.count("resources")
        t, u = roundtrip("schedule", s, Schedule)
        mon.count("schedules"); mon.case((kind, t), len(s.schedulables) > 1)
        if list(s.schedulables) != list(u.schedulables): raise Violation("order-changed", f"{list(s.schedulables)} / {list(u.schedulables)}")
        if not (s == u): raise Violation("unequal", "schedule")
        if r.random() < 0.3: same("legacy schedule", s, Schedule.from_json(json.dumps(mapped(json.loads(t))))); mon.count("legacy-schedules")
        if r.random() < 0.3:
            with tempfile.TemporaryDirectory(dir=".") as d:
                f = s.to_json_file(d, add_timestamp=r.random() < 0.5)
                same("file", s, Schedule.from_json_file(f))
        if r.random() < 0.3: same("dict", s, Schedule.from_dict(s.to_dict()))
        a, e = s02.attempt(SerialCompiler("c"), s, case.cfg)
        b, e2 = s02.attempt(SerialCompiler("c"), u, case.cfg)
        if e != e2: raise Violation("compiles-differently", f"{e} / {e2}")
        if e: mon.count("refused"); continue
        d = case.compare(a, b)
        if d: raise Violation("compiles-differently", d)
        mon.count("recompiled")
        if kind == "mock": continue
        compiled(a, CompiledSchedule, mon)

def compiled(a, cls, mon):
    if not chan_ok(a): mon.count("tuple-channel"); return None
    before = canon.plain(a)
    t = a.to_json(); c = cls.from_json(t)
    if canon.diff(before, canon.plain(a)): raise Violation("writing-changes-object", canon.diff(before, canon.plain(a)))
    if type(c) is not cls: raise Violation("type-changed", str(type(c)))
    same("compiled", a, c)
    for dev_, v in a.compiled_instructions.items():
        if not isinstance(v, dict): continue
        w = c.compiled_instructions[dev_]
        if "acq_channels_data" in v:
            d = canon.diff(canon.plain({k: (x.acq_index_dim_name, x.protocol, str(x.bin_mode), loose(x.coords)) for k, x in v["acq_channels_data"].items()}),
                           canon.plain({k: (x.acq_index_dim_name, x.protocol, str(x.bin_mode), loose(x.coords)) for k, x in w["acq_channels_data"].items()}))
            if d: raise Violation("acquisition-channels-changed", d)
        for m, x in v.items():
            if isinstance(x, dict) and "acq_hardware_mapping" in x:
                d = canon.diff(canon.plain(x["acq_hardware_mapping"]), canon.plain(w[m]["acq_hardware_mapping"]))
                if d: raise Violation("acquisition-mapping-changed", d)
                mon.count("mappings")
    if a.repetitions != c.repetitions or a.duration != c.duration: raise Violation("content-changed", "repetitions or duration")
    if c.to_json() != t: raise Violation("text-changed", _first(t, c.to_json()))
    ta, tc = canon.table(a), canon.table(c)
    if ta != tc: raise Violation("content-changed", f"timing table {ta[:3]} / {tc[:3]}")
    mon.count("compiled")
    return c

def run(job, mon):
    """A restored compiled schedule runs like the original: the data oracle of Q05 on the restored one."""
    kind = ["analog", "analog", "qtm"][job["i"] % 3]
    def through(comp):
        if not chan_ok(comp): mon.count("tuple-channel"); return comp
        mon.count("compiled-run")
        from quantify_scheduler.schedules.schedule import CompiledSchedule
        return compiled(comp, CompiledSchedule, mon)
    old = q05.THROUGH; q05.THROUGH = through
    try: q05.run_job(dict(kind=kind, i=10**5 + job["i"], seed=job["seed"]), mon)
    finally: q05.THROUGH = old

# ---- devices
def flat(ins, pre=""):
    out = {}
    for k, p in ins.parameters.items():
        if k in ("IDN", "label", "hardware_config"): continue
        out[pre + k] = p()
    for k, s in ins.submodules.items(): out.update(flat(s, pre + k + "."))
    return out

def state(qd):
    out = {"": {"cfg_sched_repetitions": qd.cfg_sched_repetitions(), "elements": list(qd.elements()), "edges": list(qd.edges())}}
    for e in qd.elements(): out[e] = flat(qd.get_element(e)); out[e]["__class__"] = type(qd.get_element(e)).__name__
    for e in qd.edges(): out[e] = flat(qd.get_edge(e)); out[e]["__class__"] = type(qd.get_edge(e)).__name__
    return out

def device(job, mon):
    from quantify_scheduler import QuantumDevice, SerialCompiler
    from quantify_scheduler.json_utils import SchedulerJSONDecoder
    r = rng_for("J01", job["seed"], "device", job["i"])
    circuits = r.random() < 0.5
    if circuits:
        d = gl.device(r, hw=False); qd = gl.realise(d)
        g = gl.Circuit(r, d, {f for f in ("loops", "nested", "measure", "override", "parallel") if r.random() < 0.6}); top = g.top(r.randint(2, 8), 1, 2)
    else:
        d = gd.device(r)
        for q in d["q"].values():
            for k, v in q["p"].items():
                if isinstance(v, tuple): q["p"][k] = "tup"
        qd = gd.realise(d)
    qd.cfg_sched_repetitions(r.randint(1, 10**6))
    want = state(qd); hw = qd.hardware_config()
    table = None
    if circuits: table = canon.table(SerialCompiler("c").compile(S.build(top, {"__all__": []}), qd.generate_compilation_config()))
    with tempfile.TemporaryDirectory(dir=".") as tmp:
        t = qd.to_json(); f = qd.to_json_file(tmp, add_timestamp=r.random() < 0.5); y = qd.to_yaml_file(tmp, add_timestamp=r.random() < 0.5)
        if canon.diff(loose(want), loose(state(qd))): raise Violation("writing-changes-object", "device")
        parts = {e: (qd.get_element(e).to_json(), qd.get_element(e).to_yaml_file(tmp, add_timestamp=False), type(qd.get_element(e))) for e in qd.elements()}
        parts.update({e: (qd.get_edge(e).to_json(), qd.get_edge(e).to_yaml_file(tmp, add_timestamp=False), type(qd.get_edge(e))) for e in qd.edges()})
        name = qd.name
        for how in ("json", "file", "yaml"):
            dev.close_all()
            q = QuantumDevice.from_json(t) if how == "json" else QuantumDevice.from_json_file(f) if how == "file" else QuantumDevice.from_yaml_file(y)
            mon.count("yaml" if how == "yaml" else "devices")
            if q.name != name: raise Violation("content-changed", f"name {q.name}")
            got = state(q); same(how, sorted(want), sorted(got))
            for e in want: samedev(mon, (how, e), want[e], got[e])
            if how != "yaml" and q.to_json() != t: raise Violation("text-changed", _first(t, q.to_json()))
            if circuits:
                if hw: q.hardware_config(hw)
                x = canon.table(SerialCompiler("c").compile(S.build(top, {"__all__": []}), q.generate_compilation_config()))
                if x != table: raise Violation("compiles-differently", f"{how}: device restored")
                mon.count("recompiled")
        for how in (0, 1):
            dev.close_all()
            for e, p in parts.items():
                o = p[2].from_yaml_file(p[1]) if how else p[2].from_json(p[0])
                if type(o) is not p[2]: raise Violation("type-changed", f"{e}: {type(o)}")
                samedev(mon, (e, "yaml" if how else "json"), want[e], dict(flat(o), __class__=type(o).__name__))
                mon.count("elements" if e in d["q"] else "edges")
                if not how and o.to_json() != p[0]: raise Violation("text-changed", _first(p[0], o.to_json()))
    mon.case(t)

# ---- hardware configurations
def hw(job, mon):
    from quantify_scheduler import QuantumDevice, SerialCompiler
    from quantify_scheduler.backends.qblox_backend import QbloxHardwareCompilationConfig as H
    r = rng_for("J01", job["seed"], "hw", job["i"])
    kind = r.choice(["pulse", "corr"])
    case = s02.make(r, kind, mon)[0]; h = case.cfg.hardware_compilation_config
    t = h.model_dump_json(); k = H.model_validate_json(t)
    d = canon.diff(canon.plain(h), canon.plain(k))
    if d: raise Violation("content-changed", f"hardware configuration: {d}"[:1000])
    if k.model_dump_json() != t: raise Violation("text-changed", _first(t, k.model_dump_json()))
    mon.count("hardware-configs"); mon.case(t)
    cfg = case.cfg.model_copy(update={"hardware_compilation_config": k})
    s = case.build(False)
    a, e = s02.attempt(SerialCompiler("c"), s, case.cfg); b, e2 = s02.attempt(SerialCompiler("c"), s, cfg)
    if e != e2: raise Violation("compiles-differently", f"restored hardware configuration: {e} / {e2}")
    if not e:
        x = case.compare(a, b)
        if x: raise Violation("compiles-differently", f"restored hardware configuration: {x}")
        mon.count("recompiled")
    qd = QuantumDevice("qd"); raw = json.loads(t); 
    qd.hardware_config(raw)
    with tempfile.TemporaryDirectory(dir=".") as tmp:
        f = os.path.join(tmp, "hw.json"); qd.hardware_config.write_to_json_file(f); qd.hardware_config({}); qd.hardware_config.load_from_json_file(f)
    if qd.hardware_config() != raw: raise Violation("content-changed", "hardware configuration through file")
    if canon.diff(canon.plain(H.model_validate(qd.hardware_config())), canon.plain(h)): raise Violation("content-changed", "hardware configuration read from file")

# ---- damaged texts
def damage(job, mon):
    from quantify_scheduler import Schedule, QuantumDevice
    r = rng_for("J01", job["seed"], "damage", job["i"])
    case = s02.make(r, r.choice(["pulse", "gate"]), mon)[0]
    if case.top is not None: case.top = untuple(case.top)
    texts = [case.build(False).to_json()]
    d = gd.device(r)
    for q in d["q"].values():
        for k, v in q["p"].items():
            if isinstance(v, tuple): q["p"][k] = "tup"
    dev.close_all(); qd = gd.realise(d); texts.append(qd.to_json()); dev.close_all()
    cls = r.choice(list(C.CAT)); texts.append(text(C.make(cls, nochan(C.random_kwargs(cls, r)))))
    for n, t in enumerate(texts):
        types = [(m.start(1), m.end(1)) for m in re.finditer(r'"deserialization_type": "([^"]+)"', t)]
        for k in range(40):
            x = r.random()
            if x < 0.4: how, bad = "truncated", t[:r.randrange(1, len(t))]
            elif x < 0.8:
                a, b = r.choice(types); name = t[a:b]
                new = r.choice([x for x in [name + "x", "nowhere.module.Thing", "Thing", name.replace("quantify_scheduler", "quantify_sched"), "." + name, ""] if x != name])
                how, bad = f"type {name} -> {new}", t[:a] + new + t[b:]
            else: how, bad = "structure", t[:-1] + r.choice(["]", "", "}}", ",}"])
            dev.close_all()
            try: o = (QuantumDevice.from_json(bad) if n == 1 else read(bad, Schedule if n == 0 else None))
            except Exception: mon.count("damaged"); continue
            raise Violation("damaged-accepted", f"{how}: gives {type(o).__name__}")
    mon.case((job["seed"], job["i"]))

# ---- another process
def produce(seed, i, n=8):
    from rtmon.core import Monitor
    out = []
    for k in range(n):
        r = rng_for("J01p", seed, i, k)
        dev.close_all()
        case = s02.make(r, ["pulse", "gate"][k % 2], Monitor())[0]
        if case.top is not None: case.top = untuple(case.top)
        out.append(case.build(False))
    for k in range(n):
        r = rng_for("J01q", seed, i, k); cls = r.choice(list(C.CAT)); out.append(C.make(cls, nochan(C.random_kwargs(cls, r))))
    return out

READER = """
import sys, json, warnings, logging
logging.disable(50); warnings.simplefilter("ignore")
from quantify_scheduler.json_utils import SchedulerJSONDecoder, SchedulerJSONEncoder
for line in open(sys.argv[1]):
    o = json.loads(json.loads(line), cls=SchedulerJSONDecoder)
    t = o.to_json() if hasattr(o, "to_json") else json.dumps(o, cls=SchedulerJSONEncoder)
    print("GOT " + json.dumps([type(o).__name__, t]))
"""
def process(job, mon):
    objs = produce(job["seed"], job["i"]); texts = [text(o) for o in objs]
    with tempfile.NamedTemporaryFile("w", suffix=".txt", dir=".", delete=False) as f:
        for t in texts: f.write(json.dumps(t) + "\n")
    p = subprocess.run([sys.executable, "-c", READER, f.name], capture_output=True, text=True, timeout=180, env=dict(os.environ, PYTHONHASHSEED="5"))
    os.unlink(f.name)
    got = [json.loads(l[4:]) for l in p.stdout.splitlines() if l.startswith("GOT ")]
    if len(got) != len(objs): raise Violation("not-read-elsewhere", p.stderr[-800:])
    for o, t, (n, u) in zip(objs, texts, got):
        mon.count("other-process")
        if n != type(o).__name__ or u != t: raise Violation("text-changed", f"in another process: {n}, {_first(t, u)}")
    mon.case((job["seed"], job["i"], "process"))

def run_job(job, mon): dict(ops=ops, sched=sched, run=run, device=device, hw=hw, damage=damage, process=process)[job["kind"]](job, mon)
