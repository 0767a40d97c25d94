"""I02: preparing a compiled schedule on a cluster with a history gives the parameters and programs of that schedule."""
import copy, re, warnings
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, qic, qtm, qcond, qacq
from rtmon.checks import a01, q05, q08

LEVEL = "exploration"
RULE = ("A case is a history on one (dummy) cluster: several different compiled schedules on the same modules (hardware options, acquisitions, feedback and conditionals, timetagging) prepared in random order, interleaved with starts, stops, data retrieval, "
        "driver parameters changed by the user, instrument resets, manually armed sequencers, preparations that fail half-way (unknown module, an error from the driver), programs modified in place. After every preparation all driver parameters are read back: "
        "those the schedule relies on must have its values, those it determines must equal what preparing it twice on differently randomised instruments without any cache gives; the uploaded sequences and the sequencers that synchronise, get armed and run must be those of the schedule. "
        "Non-trivial: at least three different schedules prepared; distinct by history.")
ASSUMPTIONS = ["parameters are changed through the driver (or an instrument reset), so that its caches are right", "options the user did not give (attenuation, gain, mixer correction) keep whatever value they had; outputs of sequencers that do not run may stay connected",
               "the vendor's dummy stores what is written"]
MINIMUM = {"histories": 55, "prepares": 300, "relied-on": 15000, "determined": 15000, "uploads": 700, "starts": 150, "failed-prepares": 40, "user-changes": 60, "resets": 10, "armed-by-user": 10, "modified-in-place": 15, "datasets": 25, "fam-set": 50, "fam-acq": 50, "fam-cond": 50, "fam-qtm": 25, "read-triggers": 40, "sync": 8000}
JOB_LIMIT_S = 120

def jobs(tier, seed):
    return [dict(i=i, seed=seed) for i in range(72 if tier == "quick" else 6000)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

# ------------------------------------------------------------------ programs
class Prog: pass

def remap(rig, pool, r):
    """Put the modules of a rig into the slots of pool; False when they do not fit."""
    free = {k: r.sample(v, len(v)) for k, v in pool.items()}; m = {}
    for s, mt in rig["modules"].items():
        if not free.get(mt): return False
        m[s] = free[mt].pop()
    rig["modules"] = {m[s]: t for s, t in rig["modules"].items()}
    for c in rig["chans"]: c["slot"] = m[c["slot"]]
    rig["cdesc"] = {(m[s], n): d for (s, n), d in rig["cdesc"].items()}
    for d in rig["lo"].values(): d["mod"] = m[d["mod"]]
    return True

def program(r, fam, pool, job, k, mon):
    p = Prog(); p.fam = fam; p.top = None
    while True:
        if fam == "set":
            mts = [m for m in r.sample(sorted(pool), r.randint(1, min(3, len(pool)))) if m != "QTM"]
            if not mts: fam = p.fam = "qtm" if "QTM" in pool else fam; continue
            old = qic.SLOTS
            qic.SLOTS = {k: v for k, v in pool.items()}
            try: rig = q08.rig_for(r, mts)
            finally: qic.SLOTS = old
            q08.descriptions(r, rig); rig["digital"] = q08.digital_channels(r, rig); rig["opts"] = q08.options(r, rig)
            n = len(rig["chans"]); used = list(range(n))
            for c in rig["chans"]:
                if c["lo"] is not None: c["how"] = "lo"
            r.shuffle(used)
            s = q08.build(rig, used, r, rig["digital"])
        elif fam == "acq":
            _, rig, plan, p.top = a01.make(dict(seed=job["seed"], i=f"{job['i']}.{k}"), "I02acq", {k: v for k, v in pool.items() if k in ("QRM", "QRM_RF", "QRC")}, lo_ok=False)
            s = S.build(p.top)
        elif fam == "cond":
            mods = [m for m in pool if m in ("QRM", "QRM_RF", "QRC")]
            rig, plan, g, top = qcond.make(r, mods=mods, qtm=0.4 if "QTM" in pool else 0, longbody=0)
            if not remap(rig, pool, r): continue
            s = S.build(top)
        else:
            rig, plan, g, top = qtm.make(r, pool={"QTM": pool["QTM"]} if len(pool["QTM"]) > 1 else {"QTM": pool["QTM"]})
            s = S.build(top)
        break
    p.rig = rig; p.comp = qb.compile_schedule(s, qb.config(rig))
    if "cluster0" not in p.comp.compiled_instructions: return None
    p.seqs = qb.sequencers(p.comp); p.text = repr((fam, qb.hwcfg(rig), [(a, b, st.sequence["program"]) for a, b, st in p.seqs]))
    p.running = {(a, int(b[3:])) for a, b, _ in p.seqs}
    return p

def lo_instruments(names):
    """The local oscillators (must be kept: the driver framework only has weak references)."""
    from qcodes.instrument import Instrument
    out = []
    for n in names:
        i = Instrument(n); out.append(i)
        for k in ("frequency", "power"): i.add_parameter(k, set_cmd=None, initial_value=0)
    return out

# ------------------------------------------------------------------ the instrument
class Watch:
    """Records uploads and the state of the sequencers at the native layer of the driver; injects failures."""
    def __init__(self, cl):
        self.cl, self.up, self.armed, self.run, self.fail_up = cl, {}, set(), set(), None
    def __enter__(self):
        self.u, self.w = self.cl._update_sequence, self.cl._write
        object.__setattr__(self.cl, "_update_sequence", self.upload); object.__setattr__(self.cl, "_write", self.write)
        return self
    def __exit__(self, *a):
        for k in ("_update_sequence", "_write"): object.__delattr__(self.cl, k)
    def upload(self, slot, sequencer, seq, validation_enable=True, erase_existing=True):
        f = self.fail_up
        if f and f[0] == "before": self.fail_up = None; raise RuntimeError("injected")
        self.up.pop((slot, sequencer), None)
        r = self.u(slot, sequencer, seq, validation_enable=validation_enable, erase_existing=erase_existing)
        self.up[slot, sequencer] = copy.deepcopy(seq)
        if f: self.fail_up = None; raise RuntimeError("injected")
        return r
    def write(self, cmd):
        m = re.match(r"SLOT(\d*):SEQuencer(\d*):(ARM|START|STOP)$", cmd)
        if m:
            all_ = {(s, q) for t, l in qic.SLOTS.items() for s in l for q in range(len(qic.module(self.cl, s).sequencers))}
            sel = {x for x in all_ if (not m[1] or x[0] == int(m[1])) and (not m[2] or x[1] == int(m[2]))}
            if m[3] == "ARM": self.armed |= sel; self.run -= sel
            elif m[3] == "STOP": self.armed -= sel; self.run -= sel
            else: self.run |= sel & self.armed; self.armed -= sel
        return self.w(cmd)

SKIP = re.compile(r"(present|connected|sequence|is_above_threshold|out\d_latency|.*_cal_type_default|cont_mode.*|upsample.*|marker_ovr_value|nco_prop.*|nco_phase_offs|thresholded_acq_marker.*|in\d_offset.*|marker\d_inv_en)$")

def objects(m): return [("", m)] + [(f"s{i}.", q) for i, q in enumerate(m.sequencers)] + [(f"io{i}.", c) for i, c in enumerate(getattr(m, "io_channels", []))]

class View(dict):
    """The parameters of the modules, sequencers and trigger addresses that the schedules of a history use (and of one more sequencer)."""
    def __init__(self, mods, progs, r):
        super().__init__(mods); self.pars = []
        use = {x for p in progs for x in p.running}; addr = {a for p in progs for _, _, st in p.seqs for a in st.thresholded_acq_trigger_read_settings} | {r.randint(1, 15)}
        for s, m in mods.items():
            more = r.randrange(len(m.sequencers))
            for pre, o in objects(m):
                n = re.search(r"\d+", pre)
                if n and (s, int(n[0])) not in use and int(n[0]) != more: continue
                for k, p in o.parameters.items():
                    t = re.match(r"trigger(\d+)_", k)
                    if not SKIP.match(k) and (not t or int(t[1]) in addr): self.pars.append((f"{s}:{pre}{k}", k, p))

def snap(view): return {key: q08.value(p) for key, k, p in view.pars}

def draw(r, k, p):
    """A random legal value of a driver parameter."""
    v = p.vals; n = type(v).__name__
    if k.endswith("lo_freq"): return round(r.uniform(3e9, 9e9) / 1e8) * 1e8
    if k == "integration_length_acq": return 4 * r.randint(1, 1000)
    if k.endswith("_att"): return 2 * r.randint(0, 15)
    if k == "connect_acq": return r.choice(["off", "in0"])
    if k.endswith("fir_coeffs"): return [round(r.uniform(-1, 1), 2) for _ in range(32)]
    if k == "scope_acq_sequencer_select": return r.randint(0, 5)
    if k == "analog_threshold": return round(r.uniform(0.1, 2), 3)
    if n == "Enum": return r.choice(sorted(x for x in v._values if isinstance(x, str)))
    if n == "Bool": return r.random() < 0.5
    if n in ("Numbers", "Ints"):
        lo, hi = max(v._min_value, -1000), min(v._max_value, 1000)
        if n == "Ints" or re.search(r"address|count|select|idx|value|gain$|nco_prop_delay_comp$|upsample", k) and not k.startswith("gain"): return r.randint(int(lo), int(hi))
        return round(r.uniform(lo, hi) * (1e5 if k == "nco_freq" else 1), 3)
    return None

def randomise(view, r, part=1.0):
    for key, k, p in view.pars:
        if not p.settable or r.random() > part: continue
        v = draw(r, k, p)
        if v is None: continue
        try: p.set(v)
        except Exception: pass

# ------------------------------------------------------------------ what a compiled schedule relies on
def relied(p):
    """{parameter: value} from the compiled settings."""
    out = {}
    for slot, seq, st in p.seqs:
        mt = p.rig["modules"][slot]; q = int(seq[3:]); pre = f"{slot}:s{q}."; prog = st.sequence["program"]
        def put(k, v): out[pre + k] = v
        put("sync_en", True)
        for a, t in st.thresholded_acq_trigger_read_settings.items():
            put(f"trigger{a}_threshold_invert", bool(t.thresholded_acq_trigger_invert))
            put(f"trigger{a}_count_threshold", 1 if t.thresholded_acq_trigger_count is None else t.thresholded_acq_trigger_count)
        if mt == "QTM":
            io = f"{slot}:io{q}."
            for i in st.connected_input_indices: out[f"{slot}:io{i}.mode"] = "input"
            for i in st.connected_output_indices: out[f"{slot}:io{i}.mode"] = "output"
            if st.analog_threshold is not None: out[io + "analog_threshold"] = st.analog_threshold
            out[io + "forward_trigger_en"] = False
            out[io + "thresholded_acq_trigger_en"] = bool(st.thresholded_acq_trigger_write_en)
            if st.thresholded_acq_trigger_write_en:
                for x in ("high", "mid", "low", "invalid"): out[io + "thresholded_acq_trigger_address_" + x] = getattr(st, "thresholded_acq_trigger_write_address_" + x)
            if "acquire_timetags" in prog: out[io + "binned_acq_on_invalid_time_delta"] = "record_0"
            if st.time_source is not None: out[io + "binned_acq_time_source"] = str(st.time_source)
            if st.time_ref is not None:
                t = str(st.time_ref); out[io + "binned_acq_time_ref"] = "sequencer" if t == "timestamp" else f"first{st.time_ref_channel}" if t == "port" else t
            if st.scope_trace_type is not None: out[io + "scope_mode"] = {"scope": "scope", "timetag": "timetags-windowed"}[str(st.scope_trace_type.value)]; out[io + "scope_trigger_mode"] = "sequencer"
            continue
        dig = "digital" in st.channel_name
        if st.nco_en and st.modulation_freq is not None: put("nco_freq", st.modulation_freq)
        if mt != "QRC": put("mod_en_awg", bool(st.nco_en))
        if mt in ("QRM", "QRM_RF"): put("demod_en_acq", bool(st.nco_en))
        put("offset_awg_path0", st.init_offset_awg_path_I); put("offset_awg_path1", st.init_offset_awg_path_Q); put("gain_awg_path0", st.init_gain_awg_path_I); put("gain_awg_path1", st.init_gain_awg_path_Q)
        if mt in qb.RF: put("marker_ovr_en", False)
        o, i = list(st.connected_output_indices), list(st.connected_input_indices)
        for j in range({"QCM": 4, "QRM": 2, "QCM_RF": 2, "QRM_RF": 1, "QRC": 6}[mt]):
            if mt in qb.RF: v = "IQ" if not dig and o == [2 * j, 2 * j + 1] else "off"
            else: v = "off" if j not in o or dig else "I" if "real" in st.channel_name or j % 2 == 0 else "Q"
            if not dig: put(f"connect_out{j}", v)
        if mt == "QRM": put("connect_acq_I", "in0" if 0 in i else "off"); put("connect_acq_Q", "in1" if 1 in i else "off")
        elif mt in ("QRM_RF", "QRC") and not dig: put("connect_acq", {(0, 1): "in0", (2, 3): "in1"}.get(tuple(i), "off"))
        if mt in ("QRM", "QRM_RF", "QRC"):
            put("thresholded_acq_trigger_en", bool(st.thresholded_acq_trigger_write_en))
            if st.thresholded_acq_trigger_write_en: put("thresholded_acq_trigger_address", st.thresholded_acq_trigger_write_address); put("thresholded_acq_trigger_invert", bool(st.thresholded_acq_trigger_write_invert))
            if re.search(r"\bacquire\b", prog) and st.integration_length_acq is not None: put("integration_length_acq", st.integration_length_acq)
            if st.thresholded_acq_rotation is not None: put("thresholded_acq_rotation", st.thresholded_acq_rotation); put("thresholded_acq_threshold", st.thresholded_acq_threshold)
            if "acquire_ttl" in prog: put("ttl_acq_auto_bin_incr_en", bool(st.ttl_acq_auto_bin_incr_en)); put("ttl_acq_input_select", st.ttl_acq_input_select)
    for slot, mt in p.rig["modules"].items():
        m = p.comp.compiled_instructions["cluster0"].get(f"cluster0_module{slot}")
        if m is None: continue
        if mt in qb.RF:
            for i in range({"QCM_RF": 2, "QRM_RF": 1, "QRC": 6}[mt]):
                f = getattr(m["settings"], f"lo{i}_freq")
                if f is not None: out[f"{slot}:{q08.lo_param(mt, i)}"] = f
        st = m["settings"]
        if mt != "QTM":
            for k in [f"out{i}_att" for i in range(6)] + ["in0_att", "in1_att", "in0_gain", "in1_gain"]:
                if (v := getattr(st, k, None)) is not None: out[f"{slot}:{k}"] = v
            for i in range(2):
                for j, c in enumerate("IQ"):
                    if (v := getattr(st, f"offset_ch{i}_path_{c}")) is None or getattr(st, f"out{i}_lo_freq_cal_type_default").value != "off": continue
                    out[f"{slot}:out{2*i+j}_offset" if mt in ("QCM", "QRM") else f"{slot}:out{i}_offset_path{j}"] = v
        if mt in ("QRM", "QRM_RF", "QRC"):
            data = p.comp.compiled_instructions["cluster0"]["acq_channels_data"]
            for seq, d in m.get("acq_hardware_mapping", {}).items():
                if any(data[ch].protocol == "Trace" for ch in d):
                    out[f"{slot}:scope_acq_sequencer_select"] = int(seq[3:])
                    for j in range(4 if mt == "QRC" else 2): out[f"{slot}:scope_acq_trigger_mode_path{j}"] = "sequencer"; out[f"{slot}:scope_acq_avg_mode_en_path{j}"] = True
    return out

def exact(a, b): return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(b))) or (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(exact, a, b)))

def run_job(job, mon):
    r = rng_for(job["seed"], "I02", job["i"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cl, icc, ic = qic.rack()
        pool = {t: [r.choice(l)] if r.random() < 0.7 else list(l) for t, l in qic.SLOTS.items() if t in ("QRM", "QTM") or r.random() < 0.4}
        progs = []
        for k in range(r.randint(3, 5)):
            p = program(r, r.choice(["set", "acq", "cond", "qtm", "set", "acq", "cond"]), pool, job, k, mon)
            if p is not None: progs.append(p)
        if len(progs) < 2: return
        los = lo_instruments({n for p in progs for n in p.rig["lo"]})
        slots = sorted({s for p in progs for s in p.rig["modules"]}); mods = {s: qic.module(cl, s) for s in slots}
        try:
            with Watch(cl) as w, q08.Calib(mods, r): history(r, cl, icc, ic, pool, mods, progs, w, mon)
        finally:
            ic.stop(); los.clear()

def history(r, cl, icc, ic, pool, mods, progs, w, mon):
    for comp_ in icc._cluster_modules.values(): comp_.force_set_parameters(False)
    mods = View(mods, progs, r)
    if r.random() < 0.5: randomise(mods, r)
    for s, m in mods.items():          # nothing of an earlier history is uploaded
        for q in m.sequencers: q.parameters["sequence"].cache.invalidate()
    seen = []; text = []; order = list(progs) + [r.choice(progs) for _ in range(r.randint(1, 3))]; r.shuffle(order)
    for p in order:
        for _ in range(r.choice([0, 1, 1, 2])): text.append(event(r, cl, icc, ic, mods, progs, w, mon, p))
        if r.random() < 0.12 and p.fam != "acq": modify(r, p); mon.count("modified-in-place"); text.append("modify")
        ic.prepare(p.comp); mon.count("prepares"); mon.count("fam-" + p.fam); text.append(p.text)
        h = snap(mods); seen.append((p, h, list(text[-4:])))
        judge(p, h, w, cl, mon)
        x = r.random()
        if x < 0.6 and p.top is not None and p.comp.compiled_instructions["cluster0"].get("acq_channels_data"):
            qic.forget(cl); q05.one_round(r, cl, ic, p.comp, p.rig, p.top, mon); qic.forget(cl); started(p, w, mon); text.append("round")
        elif x < 0.7: ic.start(); started(p, w, mon); text.append("start")
        if r.random() < 0.4:
            ic.stop(); text.append("stop")
            if w.run or w.armed: raise Violation("running after stop", f"{sorted(w.run | w.armed)[:6]}")
            bad = [k for k in on(cl) ]
            if bad: raise Violation("synchronised after stop", f"{bad[:6]}")
    # what each schedule determines, without caches and whatever the values before
    done = {}
    for p, h, tx in seen:
        if id(p) not in done:
            f = []
            for rnd in range(2):
                randomise(mods, r); b = snap(mods)
                for c in [icc, *icc._cluster_modules.values()]: c.force_set_parameters(True)
                icc.prepare(p.comp.compiled_instructions["cluster0"])
                for c in [icc, *icc._cluster_modules.values()]: c.force_set_parameters(False)
                f.append((b, snap(mods)))
            (b1, f1), (b2, f2) = f
            done[id(p)] = {k: v for k, v in f1.items() if exact(v, f2[k]) and not exact(b1[k], b2[k]) and "mixer_corr" not in k}
        for k, v in done[id(p)].items():
            mon.count("determined")
            if not exact(h[k], v): raise Violation("parameter left from before", f"module {k} ({p.rig['modules'].get(int(k.split(':')[0]))}, schedule of family {p.fam}): {h[k]}, but {v} when prepared on an instrument without history; events before: {[t[:60] for t in tx]}")
    mon.count("histories")
    mon.case(repr(text), len({id(p) for p in order}) >= 3)

def modify(r, p):
    a, b, st = r.choice(p.seqs)
    st.sequence["program"] = st.sequence["program"] + f"\n# {r.randrange(10**6)}\n"

def on(cl): return [(s, i) for t, l in qic.SLOTS.items() for s in l for i, q in enumerate(qic.module(cl, s).sequencers) if q.sync_en()]

def started(p, w, mon):
    mon.count("starts")
    if w.run != p.running: raise Violation("sequencers started", f"{sorted(w.run)} run, schedule uses {sorted(p.running)}")

def judge(p, h, w, cl, mon):
    want = relied(p)
    for k, v in want.items():
        mon.count("relied-on")
        if "trigger" in k and "count_threshold" in k: mon.count("read-triggers")
        if k not in h: raise AssertionError(f"harness: no parameter {k}")
        if not q08.close(h[k], v): raise Violation("parameter not of this schedule", f"module {k} ({p.rig['modules'][int(k.split(':')[0])]}): {h[k]}, schedule needs {v}")
    from qcodes.instrument import Instrument
    for k, v in p.comp.compiled_instructions.get("generic", {}).items():
        n, a = k.split("."); got = Instrument.find_instrument(n).parameters[a].get(); mon.count("ext-lo")
        if got != v: raise Violation("local oscillator", f"{k}: {got}, schedule needs {v}")
    for slot, seq, st in p.seqs:
        mon.count("uploads"); u = w.up.get((slot, int(seq[3:])))
        if u is None: raise Violation("sequence not uploaded", f"module {slot} {seq}")
        if not same(u, st.sequence): raise Violation("another sequence uploaded", f"module {slot} {seq}: differs in {[k for k in st.sequence if not same(u.get(k), st.sequence[k])]}")
    s = set(on(cl)); mon.count("sync", sum(len(qic.module(cl, x).sequencers) for l in qic.SLOTS.values() for x in l))
    if s != p.running: raise Violation("synchronised sequencers", f"{sorted(s)} synchronise, schedule uses {sorted(p.running)}")

def same(a, b):
    import numpy as np
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)): return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b) and np.array_equal(np.asarray(a), np.asarray(b))
    return a == b

# ------------------------------------------------------------------ what happens in between
class Injected(Exception): pass

def event(r, cl, icc, ic, mods, progs, w, mon, nxt):
    from qcodes.instrument import Instrument
    k = r.choice(["user", "user", "user-all", "reset", "arm", "fail", "fail", "fail", "upload", "module", "start", "stop", "force"])
    if k.startswith("user"):
        for n in {n for p in progs for n in p.rig["lo"]}: Instrument.find_instrument(n).parameters[r.choice(["frequency", "power"])].set(r.choice([0, 1, 5e9]))
    if k == "user": mon.count("user-changes"); randomise(mods, r, r.choice([0.02, 0.1, 0.5]))
    elif k == "user-all": mon.count("user-changes"); randomise(mods, r)
    elif k == "reset":
        cl.reset(); mon.count("resets")
    elif k == "arm":
        for s, m in mods.items():
            for i in range(len(m.sequencers)):
                if r.random() < 0.4: m.arm_sequencer(i)
        mon.count("armed-by-user")
    elif k == "upload":            # the user's own program on some sequencer
        s = r.choice(sorted(mods)); q = r.choice(list(mods[s].sequencers)); q.sequence({"waveforms": {}, "weights": {}, "acquisitions": {}, "program": f"stop # {r.randrange(10**6)}"}); mon.count("user-uploads")
    elif k == "force":
        for c in [icc, *icc._cluster_modules.values()]: c.force_set_parameters(True)
        p = r.choice(progs); ic.prepare(p.comp); judge(p, snap(mods), w, cl, mon)
        for c in [icc, *icc._cluster_modules.values()]: c.force_set_parameters(False)
    elif k == "module":
        p = r.choice(progs); c = copy.copy(p.comp); instr = dict(p.comp.compiled_instructions["cluster0"]); it = list(instr.items()); it.insert(r.randint(0, len(it)), ("cluster0_module20", it[0][1] if it[0][0].startswith("cluster0_m") else {"sequencers": {}})); c = copy.copy(p.comp); 
        new = dict(p.comp.compiled_instructions); new["cluster0"] = dict(it)
        c = with_instructions(p.comp, new)
        try: ic.prepare(c)
        except KeyError: mon.count("failed-prepares")
        else: raise Violation("unknown module accepted", "cluster0_module20")
        refused(ic, mon)
    elif k == "fail":
        p = r.choice(progs)
        if r.random() < 0.4: w.fail_up = (r.choice(["before", "after"]),); undo = lambda: None
        else:
            s = r.choice(sorted(p.rig["modules"])); m = mods[s]; pre, o = r.choice(objects(m)); names = [x for x, q in o.parameters.items() if not SKIP.match(x) and q.settable]
            chosen = []
            for x in r.sample(names, min(len(names), max(1, len(names) // 3))):
                q = o.parameters[x]; chosen.append((q, q.set))
                def boom(*a, **k): raise RuntimeError("injected")
                object.__setattr__(q, "set", boom)
            def undo():
                for q, f in chosen: object.__setattr__(q, "set", f)
        try: ic.prepare(p.comp)
        except RuntimeError as e:
            if "injected" not in str(e): raise
            mon.count("failed-prepares"); undo(); undo = lambda: None; refused(ic, mon)
        finally: undo(); w.fail_up = None
    elif k == "start":
        try: ic.start()
        except ValueError: pass
    elif k == "stop": ic.stop()
    return k

def with_instructions(comp, instr):
    c = copy.copy(comp); c.data = dict(comp.data); c.data["compiled_instructions"] = instr
    return c

def refused(ic, mon):
    try: ic.start()
    except ValueError: mon.count("start-refused")
    else: raise Violation("started after failed preparation", "start did not complain")
