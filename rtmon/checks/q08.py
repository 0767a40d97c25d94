"""Q08: random hardware configurations with options on random port-clocks, executed up to the parameters of (dummy) instruments."""
import math, re, warnings
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, qic, qtm

LEVEL = "exploration"
RULE = ("A case is a random cluster configuration (all module types, complex, real, digital, input-only channels, several ports and clocks on one channel, external local oscillators, channel descriptions) with random hardware options on some "
        "of the port-clocks and a schedule that uses some of them. The compiled schedule is prepared on a dummy cluster whose parameters were randomised before: the parameters of the channel and sequencer that serve a used port-clock must have "
        "the configured values, all other parameters must be untouched or at their defaults, calibrations must be triggered exactly when configured. Conflicting or impossible options must be rejected, equal ones accepted. "
        "Non-trivial: at least one option on a used port-clock; distinct by configuration.")
ASSUMPTIONS = ["an option of a port-clock the schedule does not use has no effect", "when one port-clock of a channel has an option and another one on the same channel has none, the option applies to the channel",
               "hardware distortion corrections exist on baseband QCM modules only; mixer corrections are not claimed for the QRC", "a calibration routine is stood in for by a stub that writes recognisable values"]
MINIMUM = {"cases": 350, "prepared": 350, "used-pc": 900, "unused-with-options": 120, "shared-channel": 120, "opt:output_att": 120, "opt:input_att": 60, "opt:input_gain": 60, "opt:mixer_corrections": 200, "opt:sequencer_options": 250, "opt:distortion_corrections": 60, "opt:digitization_thresholds": 40, "opt:channel-description": 80, "ext-lo": 20, "input-only": 30, "rf-input-only": 20, "digital": 50, "lo-freq": 250, "expected-values": 20000, "untouched-values": 20000, "lo-cal": 40, "sideband-cal": 40, "second-prepare": 250, "rejected": 120, "agreeing": 15, "mod:QCM": 80, "mod:QRM": 80, "mod:QCM_RF": 80, "mod:QRM_RF": 80, "mod:QRC": 80, "mod:QTM": 40}

def jobs(tier, seed):
    n = 1100 if tier == "quick" else 30000
    return [dict(i=i, seed=seed, fam=["set", "set", "set", "bad", "set", "qtm", "bad"][i % 7]) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

MT = ["QCM", "QRM", "QCM_RF", "QRM_RF", "QRC"]
DC = {"QCM": 2.5, "QRM": 0.5, "QCM_RF": 0.05, "QRM_RF": 0.05}

# ------------------------------------------------------------------ generation
def rig_for(r, mts=None):
    mts = mts or [r.choice(MT) for _ in range(r.randint(1, 3))]
    rig = qb.make_rig(r, mtypes=mts, pool=qic.SLOTS, max_chan=7, version=r.choice(["0.1", "0.2", "0.2"]))
    ch = rig["chans"]
    # a second port on the channel of some port-clocks
    seen = {}
    for c in ch:
        k = (c["slot"], c["cname"])
        if k in seen and not c["mix"] and r.random() < 0.6: c["port"] = c["port"].split(":")[0] + "b:" + c["port"].split(":")[1]
        seen.setdefault(k, c)
    # a real input other than the one numbered like the output
    if rig["version"] == "0.2":
        ports = {}
        for c in ch:
            if c["inp"] and c["inp"].startswith("real"):
                c["inp"] = ports.setdefault(c["port"], f"real_input_{r.randint(0, 1)}")
    # input-only port-clocks
    for slot, mt in rig["modules"].items():
        if mt not in ("QRM", "QRM_RF", "QRC") or r.random() > 0.35: continue
        mine = [c for c in ch if c["slot"] == slot]
        if any(not c["cplx"] for c in mine) or rig["version"] == "0.1": continue
        i = r.choice([0, 1]) if mt == "QRC" else 0
        port = f"qi{slot}:in"; clock = f"qi{slot}.ro"
        lo = None; inter = r.choice([x * 10e6 for x in range(-40, 41) if x])
        if mt != "QRM":
            same = [c for c in mine if c["cname"] == f"complex_output_{i}"]
            lo = same[0]["lo"] if same else round(r.uniform(3e9, 9e9) / 1e8) * 1e8
            if any(c["nco"] == inter for c in mine): continue
            f = lo + inter
        else: f = abs(inter); inter = None
        rig["clocks"][clock] = f
        ch.append(qb.Chan(port=port, clock=clock, freq=f, slot=slot, mtype=mt, cname=f"complex_input_{i}", cplx=True, inp=None, lo=lo, interm=inter, mix=None, how=r.choice(["lo", "if"]), nco=f - (lo or 0), only_in=True))
    return rig

def inputs(c, rig):
    """Names of the inputs connected to the sequencer of this port-clock (None: not claimed)."""
    if c.get("only_in"): return [c["cname"]]
    if rig["version"] == "0.2": return [c["inp"]] if c["inp"] else []
    if c["mtype"] not in ("QRM", "QRM_RF"): return [] if c["mtype"] != "QRC" else None
    return ["complex_input_0"] if c["cplx"] else ["real_input_0", "real_input_1"]

def z(r, v, *special):
    """v, or with some probability one of the values that are easily taken for "not given" or for the default."""
    return r.choice(special) if r.random() < 0.2 else v

def mixer(r, mt, auto_lo, auto_sb):
    d = {}
    if auto_lo: d["auto_lo_cal"] = auto_lo
    elif r.random() < 0.8: d["dc_offset_i"] = z(r, round(r.uniform(-DC[mt], DC[mt]) * 0.9, 4 if mt in ("QCM", "QRM") else 5), 0.0); d["dc_offset_q"] = z(r, round(r.uniform(-DC[mt], DC[mt]) * 0.9, 4 if mt in ("QCM", "QRM") else 5), 0.0)
    if auto_sb: d["auto_sideband_cal"] = "on_interm_freq_change"
    elif r.random() < 0.8: d["amp_ratio"] = z(r, round(r.uniform(0.5, 2), 3), 1.0); d["phase_error"] = z(r, round(r.uniform(-45, 45), 2), 0.0)
    return d

def options(r, rig):
    """Options of port-clocks; options of one channel are the same wherever they are given."""
    o = {}; per = {}
    def put(k, pc, v): o.setdefault(k, {})[pc] = v
    def same(key, make):
        if key not in per: per[key] = make()
        return per[key]
    order = list(rig["chans"]); r.shuffle(order)
    for c in order:
        mt, key, ins = c["mtype"], (c["slot"], c["cname"]), inputs(c, rig)
        out = not c.get("only_in")
        if mt in qb.RF and out and r.random() < 0.5: put("output_att", c.pc, same(("oa",) + key, lambda: z(r, 2 * r.randint(0, 15 if mt == "QRC" else 30), 0)))
        if mt in ("QRM_RF", "QRC") and ins and r.random() < 0.5:
            who = same(("iawho", c["slot"], ins[0]), lambda: c["cname"].split("_")[1])
            if who == c["cname"].split("_")[1]: put("input_att", c.pc, same(("ia", c["slot"], ins[0]), lambda: z(r, 2 * r.randint(0, 15), 0)))
        if mt == "QRM" and ins and r.random() < 0.6:
            if c["cplx"]: put("input_gain", c.pc, {"gain_I": same(("ig", c["slot"], 0), lambda: z(r, r.randint(-6, 26), 0)), "gain_Q": same(("ig", c["slot"], 1), lambda: z(r, r.randint(-6, 26), 0))})
            elif len(ins) == 1: put("input_gain", c.pc, same(("ig", c["slot"], int(ins[0][-1])), lambda: z(r, r.randint(-6, 26), 0)))
        if mt != "QRC" and out and c["cplx"] and r.random() < 0.55:
            auto_lo = same(("al",) + key, lambda: r.choice([None, None, "on_lo_freq_change", "on_lo_interm_freq_change"]) if mt in qb.RF else None)
            m = mixer(r, mt, auto_lo, mt in qb.RF and r.random() < 0.4)
            if "dc_offset_i" in m:
                dc = same(("dc",) + key, lambda: (m["dc_offset_i"], m["dc_offset_q"])); m["dc_offset_i"], m["dc_offset_q"] = dc
            put("mixer_corrections", c.pc, m)
        if r.random() < 0.5:
            d = {k: z(r, round(r.uniform(-1, 1), 3), 0.0, 0.0, 1.0, -1.0) for k in ("init_offset_awg_path_I", "init_offset_awg_path_Q", "init_gain_awg_path_I", "init_gain_awg_path_Q") if r.random() < 0.7}
            if mt == "QRM" and r.random() < 0.6: d["ttl_acq_threshold"] = z(r, round(r.uniform(0, 0.5), 3), 0.0)
            if d: put("sequencer_options", c.pc, d)
        if mt == "QCM" and out and r.random() < 0.5 and not per.get(("f",) + key):
            per[("f",) + key] = True
            put("distortion_corrections", c.pc, [filters(r), filters(r)] if c["cplx"] else filters(r))
    for k, v in o.items():
        it = list(v.items()); r.shuffle(it); o[k] = dict(it)
    return o

def filters(r):
    d = {f"exp{i}_coeffs": [round(r.uniform(6, 5000), 1), round(r.uniform(-0.99, 0.99), 3)] for i in range(4) if r.random() < 0.4}
    if r.random() < 0.3: d["fir_coeffs"] = [round(r.uniform(-1.9, 1.9), 3) for _ in range(32)]
    return d or {"exp1_coeffs": [100.0, 0.5]}

FLAGS = {"EXP0": "exp0", "EXP1": "exp1", "EXP2": "exp2", "EXP3": "exp3", "FIR": "fir"}

def descriptions(r, rig):
    from quantify_scheduler.backends.qblox.enums import DistortionCorrectionLatencyEnum as D
    for c in rig["chans"]:
        if c["mtype"] not in ("QCM", "QRC") or c.get("only_in") or r.random() > 0.4 or (c["slot"], c["cname"]) in rig["cdesc"]: continue
        if c["mtype"] == "QRC": rig["cdesc"][(c["slot"], c["cname"])] = r.choice([{}, {"mix_lo": True}, {"marker_debug_mode_enable": True} if c["cname"][-1] < "2" else {}]); continue
        fl = r.sample(sorted(FLAGS), r.randint(0, 4))
        d = {}
        if fl or r.random() < 0.5:
            v = 0
            for f in fl: v |= getattr(D, f).value
            d["distortion_correction_latency_compensation"] = v
        if r.random() < 0.4: d["marker_debug_mode_enable"] = True
        rig["cdesc"][(c["slot"], c["cname"])] = d

def build(rig, used, r, digital):
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource
    from quantify_scheduler.operations import pulse_library as P, acquisition_library as A
    s = Schedule("s", r.choice([1, 1, 2, 3]))
    for k, f in rig["clocks"].items(): s.add_resource(ClockResource(k, f))
    first = None; t = 0
    for ci in used:
        c = rig["chans"][ci]
        op = (A.SSBIntegrationComplex(port=c["port"], clock=c["clock"], duration=100e-9, acq_channel=f"c{ci}") if c.get("only_in") else P.SquarePulse(amp=0.1, duration=20e-9, port=c["port"], clock=c["clock"]))
        if first is None: first = s.add(op)
        else: t += 100; s.add(op, ref_op=first, ref_pt="start", rel_time=S.ns(t))
    for slot, name, port in digital:
        op = P.MarkerPulse(duration=20e-9, port=port)
        if first is None: first = s.add(op)
        else: t += 100; s.add(op, ref_op=first, ref_pt="start", rel_time=S.ns(t))
    s.add(P.IdlePulse(200e-9))
    return s

# ------------------------------------------------------------------ the instruments
JUNK_M = [(r"out\d_offset$", lambda r: round(r.uniform(-0.4, 0.4), 3)), (r"out\d_offset_path\d$", lambda r: round(r.uniform(-40, 40), 3)), (r"(out|in)\d_att$", lambda r: 2 * r.randint(0, 15)), (r"in\d_gain$", lambda r: r.randint(-6, 26)),
          (r"out\d(_in\d)?_lo_freq$", lambda r: round(r.uniform(3e9, 9e9) / 1e8) * 1e8)]
JUNK_S = [(r"(offset|gain)_awg_path\d$", lambda r: round(r.uniform(-0.9, 0.9), 3)), (r"nco_freq$", lambda r: round(r.uniform(-4e8, 4e8) / 1e6) * 1e6 + 0.5e6), (r"mixer_corr_phase_offset_degree$", lambda r: round(r.uniform(-40, 40), 2)), (r"mixer_corr_gain_ratio$", lambda r: round(r.uniform(0.6, 1.9), 3)),
          (r"ttl_acq_threshold$", lambda r: round(r.uniform(0.01, 0.4), 3)), (r"connect_out\d$", None), (r"connect_acq(_I|_Q)?$", None), (r"mod_en_awg$", lambda r: r.random() < 0.5), (r"demod_en_acq$", lambda r: r.random() < 0.5)]
WATCH_M = re.compile(r"(out\d_offset(_path\d)?|(out|in)\d_att|in\d_gain|out\d(_in\d)?_lo_freq|out\d_(exp\d_(time_constant|amplitude|config)|fir_(config|coeffs))|marker\d_(exp\d|fir)_config)$")
WATCH_S = re.compile(r"((offset|gain)_awg_path\d|nco_freq|mixer_corr_(phase_offset_degree|gain_ratio)|ttl_acq_threshold|connect_out\d|connect_acq(_I|_Q)?|mod_en_awg|demod_en_acq)$")
DEFAULT = {"gain_awg": 1.0, "offset": 0.0, "mixer_corr_phase_offset_degree": 0.0, "mixer_corr_gain_ratio": 1.0, "att": 0, "connect": "off", "_config": "bypassed", "_en": False, "nco_freq": 0.0, "gain": 0, "ttl_acq_threshold": 0.0}

def isdefault(name, v):
    for k, d in DEFAULT.items():
        if k in name: return v == d or (isinstance(v, float) and abs(v - d) < 1e-9)
    return False

def randomise(m, r):
    for k, p in m.parameters.items():
        for pat, f in JUNK_M:
            if re.match(pat, k): p.set(f(r))
    for q in m.sequencers:
        for k, p in q.parameters.items():
            for pat, f in JUNK_S:
                if f and re.match(pat, k): p.set(f(r))

def snapshot(m):
    d = {}
    for k, p in m.parameters.items():
        if WATCH_M.match(k): d[k] = value(p)
    for i, q in enumerate(m.sequencers):
        for k, p in q.parameters.items():
            if WATCH_S.match(k): d[f"s{i}.{k}"] = value(p)
    return d

def value(p):
    # (the dummy QRC reports no input attenuation: what was written last)
    v = p.cache.get(get_if_invalid=False) if re.fullmatch(r"in\d_att", p.name) else p.get()
    return list(v) if isinstance(v, (list, tuple)) else v

def close(a, b):
    if isinstance(b, list): return isinstance(a, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(b, (int, float)) and not isinstance(b, bool): return a is not None and not isinstance(a, str) and abs(a - b) <= 1e-3 * max(1e-3, abs(b))
    return a == b

class Calib:
    """Stubs for the calibration routines of the RF modules in use: they record the call and write new values."""
    def __init__(self, mods, r): self.mods, self.r, self.calls, self.n = mods, r, [], 0
    def __enter__(self):
        self.saved = []
        for slot, m in self.mods.items():
            for name in ("out0_lo_cal", "out1_lo_cal", "out0_in0_lo_cal"):
                if hasattr(m, name): self.put(m, name, slot, self.lo(m, slot, name))
            for i, q in enumerate(m.sequencers):
                if hasattr(q, "sideband_cal"): self.put(q, "sideband_cal", slot, self.sb(q, slot, i))
        return self
    def put(self, obj, name, slot, f): self.saved.append((obj, name, getattr(obj, name))); object.__setattr__(obj, name, f)
    def lo(self, m, slot, name):
        def f(*a, **k):
            self.n += 1; i = int(name[3])
            m.parameters[f"out{i}_offset_path0"].set(45 + self.n * 0.01); m.parameters[f"out{i}_offset_path1"].set(-45 - self.n * 0.01)
            lo = m.parameters["out0_in0_lo_freq" if "in0" in name else f"out{i}_lo_freq"].get()
            self.calls.append((slot, name, lo))
        return f
    def sb(self, q, slot, i):
        def f(*a, **k):
            self.n += 1
            q.parameters["mixer_corr_phase_offset_degree"].set(41 + self.n * 0.01); q.parameters["mixer_corr_gain_ratio"].set(1.9 + self.n * 1e-3)
            self.calls.append((slot, f"s{i}.sideband_cal", q.parameters["nco_freq"].get()))
        return f
    def __exit__(self, *a):
        for obj, name, f in self.saved: object.__setattr__(obj, name, f)

def lo_param(mt, i): return {"QCM_RF": f"out{i}_lo_freq", "QRM_RF": "out0_in0_lo_freq", "QRC": f"out{i}_in{i}_lo_freq" if i < 2 else f"out{i}_lo_freq"}[mt]

def expected(rig, used, opts, served, digital):
    """{slot: {parameter: value}} that the configuration asks for, and the calibrations {(slot, name): condition}."""
    ex = {}; cal = {}; filt = []
    def put(slot, k, v):
        d = ex.setdefault(slot, {})
        if k in d and not close(d[k], v): raise AssertionError(f"harness: contradictory expectation for {slot} {k}: {d[k]} {v}")
        d[k] = v
    o = lambda k, c: opts.get(k, {}).get(c.pc)
    for slot in {rig["chans"][i]["slot"] for i in used} | {d[0] for d in digital}:
        if rig["modules"][slot] == "QCM":
            for j in range(4):
                for f in FLAGS.values(): put(slot, f"out{j}_{f}_config", "bypassed"); put(slot, f"marker{j}_{f}_config", "bypassed")
    for ci in used:
        c = rig["chans"][ci]; slot, mt = c["slot"], c["mtype"]; i = int(c["cname"][-1]); ins = inputs(c, rig); only = c.get("only_in")
        if c["lo"] is not None and mt in qb.RF and not only: put(slot, lo_param(mt, i), c["lo"])
        if (v := o("output_att", c)) is not None: put(slot, f"out{i}_att", v)
        if (v := o("input_att", c)) is not None: put(slot, f"in{int(ins[0][-1])}_att", v)
        if (v := o("input_gain", c)) is not None:
            if isinstance(v, dict): put(slot, "in0_gain", v["gain_I"]); put(slot, "in1_gain", v["gain_Q"])
            else: put(slot, f"in{int(ins[0][-1])}_gain", v)
        m = o("mixer_corrections", c)
        if m and "dc_offset_i" in m:
            if mt in ("QCM", "QRM"): put(slot, f"out{2*i}_offset", m["dc_offset_i"]); put(slot, f"out{2*i+1}_offset", m["dc_offset_q"])
            else: put(slot, f"out{i}_offset_path0", m["dc_offset_i"] * 1e3); put(slot, f"out{i}_offset_path1", m["dc_offset_q"] * 1e3)
        if m and m.get("auto_lo_cal"): cal[(slot, "out0_in0_lo_cal" if mt == "QRM_RF" else f"out{i}_lo_cal")] = m["auto_lo_cal"]
        n = served[ci][1][3:]; q = f"s{n}."
        so = o("sequencer_options", c) or {}
        put(slot, q + "offset_awg_path0", so.get("init_offset_awg_path_I", 0.0)); put(slot, q + "offset_awg_path1", so.get("init_offset_awg_path_Q", 0.0))
        put(slot, q + "gain_awg_path0", so.get("init_gain_awg_path_I", 1.0)); put(slot, q + "gain_awg_path1", so.get("init_gain_awg_path_Q", 1.0))
        if "ttl_acq_threshold" in so: put(slot, q + "ttl_acq_threshold", so["ttl_acq_threshold"])
        if m and m.get("auto_sideband_cal"): cal[(slot, q + "sideband_cal")] = "nco"
        elif m: put(slot, q + "mixer_corr_phase_offset_degree", m.get("phase_error", 0.0)); put(slot, q + "mixer_corr_gain_ratio", m.get("amp_ratio", 1.0))
        # connections
        outs = qb.CX_OUT[mt] if mt in qb.RF else {"QCM": 4, "QRM": 2}[mt]
        for j in range(outs):
            if only: v = "off"
            elif mt in qb.RF: v = "IQ" if j == i else "off"
            elif c["cplx"]: v = "IQ"[j - 2 * i] if 0 <= j - 2 * i < 2 else "off"
            else: v = "I" if j == i else "off"
            put(slot, q + f"connect_out{j}", v)
        if mt == "QRM":
            a = [False, False]
            for x in ins:
                if x.startswith("complex"): a = [True, True]
                else: a[int(x[-1])] = True
            put(slot, q + "connect_acq_I", "in0" if a[0] else "off"); put(slot, q + "connect_acq_Q", "in1" if a[1] else "off")
        elif mt in ("QRM_RF", "QRC") and ins is not None: put(slot, q + "connect_acq", f"in{int(ins[0][-1])}" if ins else "off")
        # filters
        d = o("distortion_corrections", c); desc = rig["cdesc"].get((slot, c["cname"])) if mt == "QCM" else None
        outl = [2 * i, 2 * i + 1] if c["cplx"] else [i]
        if desc is not None:
            fl = desc.get("distortion_correction_latency_compensation", 0)
            for j in outl:
                for k, (name, f) in enumerate(sorted(FLAGS.items(), key=lambda x: x[1])):
                    if flag(name) & fl:
                        ex[slot][f"out{j}_{f}_config"] = "delay_comp"
                        if desc.get("marker_debug_mode_enable"): ex[slot][f"marker{j}_{f}_config"] = "delay_comp"
        if d: filt.append((slot, desc, outl, d))
    for slot, desc, outl, d in filt:
        for j, x in zip(outl, d if isinstance(d, list) else [d]):
            for k, v in x.items():
                f = k.split("_")[0]; ex[slot][f"out{j}_{f}_config"] = "enabled"
                if desc and desc.get("marker_debug_mode_enable"): ex[slot][f"marker{j}_{f}_config"] = "delay_comp"
                if f == "fir": put(slot, f"out{j}_fir_coeffs", v)
                else: put(slot, f"out{j}_{f}_time_constant", v[0]); put(slot, f"out{j}_{f}_amplitude", v[1])
    return ex, cal

def flag(name):
    from quantify_scheduler.backends.qblox.enums import DistortionCorrectionLatencyEnum as D
    return getattr(D, name).value

def nco(snap, q, mt, readout):
    mod = True if mt == "QRC" else snap[q + "mod_en_awg"]; dem = True if mt == "QRC" else snap.get(q + "demod_en_acq")
    f = snap[q + "nco_freq"]
    return (f if mod else 0.0), (f if dem else 0.0) if readout else None

# ------------------------------------------------------------------ jobs
def run_job(job, mon):
    r = rng_for(job["seed"], "Q08", job["i"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"set": job_set, "bad": job_bad, "qtm": job_qtm}[job["fam"]](r, mon)

def digital_channels(r, rig):
    out = []
    for slot, mt in rig["modules"].items():
        if r.random() > 0.3: continue
        k = {"QCM": 4, "QRM": 4, "QCM_RF": 2, "QRM_RF": 2, "QRC": 1}[mt]
        i = r.randrange(k)
        if any(c["slot"] == slot and (rig["cdesc"].get((slot, c["cname"])) or {}).get("marker_debug_mode_enable") for c in rig["chans"]): continue
        out.append((slot, f"digital_output_{i}", f"qd{slot}:sw"))
    return out

def apply_external(r, rig):
    names = {}
    for k in rig["lo"]: names[k] = dict(power=r.choice([1, 5, -3, 13]), instrument_name=r.choice([None, f"inst_{k}"]), frequency_param=r.choice([None, "freq"]), power_param=r.choice([None, "pow"]))
    return names

def config(rig, lonames):
    hw = qb.hwcfg(rig)
    for k, d in lonames.items(): hw["hardware_description"][k].update({a: b for a, b in d.items() if b is not None})
    return hw

def compile_(s, hw):
    from quantify_scheduler import QuantumDevice
    qd = QuantumDevice("qd"); qd.hardware_config(hw)
    try: return qb.compile_schedule(s, qd.generate_compilation_config())
    finally: qd.close()

def job_set(r, mon):
    rig = rig_for(r); descriptions(r, rig); digital = digital_channels(r, rig); rig["digital"] = digital
    opts = options(r, rig); rig["opts"] = opts; lonames = apply_external(r, rig)
    n = len(rig["chans"])
    used = sorted(r.sample(range(n), r.randint(max(1, n - 3), n)))
    # the frequency of a channel must be derivable from the used port-clocks
    for ci in used:
        c = rig["chans"][ci]
        if c["lo"] is not None:
            key = ("lo", c["slot"], int(c["cname"][-1]))
            first = [d for d in (rig["chans"][x] for x in used) if d["lo"] is not None and ("lo", d["slot"], int(d["cname"][-1])) == key][0]
            if c is not first: c["how"] = "lo"
    r.shuffle(used)
    hw = config(rig, lonames)
    s = build(rig, used, r, digital)
    comp = compile_(s, hw)
    live = dict(rig); live["chans"] = [rig["chans"][i] for i in used]
    seqs, extra = qb.assign(comp, live)
    served = {ci: seqs[k] for k, ci in enumerate(used) if k in seqs}
    if len(served) != len(used): raise Violation("port-clock not served", f"{[rig['chans'][c].pc for c in used if c not in served]}")
    dig = {(s_, st.channel_name) for s_, nm, st in qb.sequencers(comp) if (s_, nm) in extra}
    if dig != {(a, b) for a, b, _ in digital} or len(extra) != len(digital): raise Violation("unexpected sequencers", f"{extra} for {digital}")
    ex, cal = expected(rig, used, opts, served, digital)
    mon.count("cases"); mon.count("used-pc", len(used))
    for k, v in opts.items():
        hit = [ci for ci in used if rig["chans"][ci].pc in v]
        mon.count("opt:" + k, len(hit))
        mon.count("unused-with-options", len(v) - len(hit))
    mon.count("opt:channel-description", len(rig["cdesc"])); mon.count("digital", len(digital)); mon.count("input-only", sum(1 for i in used if rig["chans"][i].get("only_in")))
    groups = {}
    for ci in used: groups.setdefault((rig["chans"][ci]["slot"], rig["chans"][ci]["cname"]), []).append(ci)
    mon.count("shared-channel", sum(1 for g in groups.values() if len(g) > 1))
    for slot in {rig["chans"][i]["slot"] for i in used}: mon.count("mod:" + rig["modules"][slot])
    # external local oscillators
    gen = {}
    for name, d in rig["lo"].items():
        cs = [rig["chans"][i] for i in used if rig["chans"][i]["mix"] == name]
        if not cs: continue
        l = lonames[name]; inst = l["instrument_name"] or name
        gen[f"{inst}.{l['frequency_param'] or 'frequency'}"] = cs[0]["lo"]; gen[f"{inst}.{l['power_param'] or 'power'}"] = l["power"]; mon.count("ext-lo")
    got = dict(comp.compiled_instructions.get("generic", {}))
    if set(got) != set(gen) or any(not close(got[k], gen[k]) for k in gen): raise Violation("settings of external local oscillators", f"{got}, configured {gen}")
    prepare_and_compare(r, mon, rig, comp, used, served, ex, cal)
    mon.case(["set", hw], nontrivial=any(rig["chans"][i].pc in v for v in opts.values() for i in used))

def prepare_and_compare(r, mon, rig, comp, used, served, ex, cal):
    cl, icc, ic = qic.rack()
    slots = sorted(rig["modules"]); others = [s for l in qic.SLOTS.values() for s in l if s not in slots and s not in qic.SLOTS["QTM"]]
    look = slots + r.sample(others, 1)
    mods = {s: qic.module(cl, s) for s in look}
    for m in mods.values(): randomise(m, r)
    before = {s: snapshot(m) for s, m in mods.items()}; flagged = False
    program = comp.compiled_instructions["cluster0"]
    with Calib(mods, r) as cb:
        for rnd in range(2):
            cb.calls.clear()
            icc.prepare(program)
            after = {s: snapshot(m) for s, m in mods.items()}
            done = {}
            for slot, name, f in cb.calls:
                if (slot, name) in done: raise Violation("calibrated twice", f"module {slot} {name}")
                done[(slot, name)] = f
            changed = {}
            for slot, m in mods.items():
                for k in after[slot]:
                    if k.endswith("lo_freq") or k.endswith("nco_freq"): changed[(slot, k)] = after[slot][k] != before[slot][k]
            for (slot, name), cond in cal.items():
                i = int(name[3]) if name.startswith("out") else None
                mt = rig["modules"][slot]
                if cond == "nco": want = changed[(slot, name.split(".")[0] + ".nco_freq")]
                else:
                    want = changed[(slot, lo_param(mt, i))]
                    if cond == "on_lo_interm_freq_change":
                        for ci in used:
                            c = rig["chans"][ci]
                            if c["slot"] == slot and c["cname"] == f"complex_output_{i}": want = want or changed[(slot, f"s{served[ci][1][3:]}.nco_freq")]
                if want != ((slot, name) in done): raise Violation("calibration", f"preparation {rnd + 1}: {name} of module {slot} ({cond}) {'not ' if want else ''}called")
                if want and name.startswith("out") and not close(done[(slot, name)], after[slot][lo_param(mt, i)]): raise Violation("calibrated before the frequency was set", f"{name} of module {slot}")
                if want and cond == "nco" and not close(done[(slot, name)], after[slot][name.split(".")[0] + ".nco_freq"]): raise Violation("calibrated before the frequency was set", f"{name} of module {slot}")
                if want: mon.count("sideband-cal" if cond == "nco" else "lo-cal")
            for k in done:
                if k not in cal: raise Violation("calibration not asked for", f"{k}")
            calpar = set()
            for slot, name in cal:
                if "sideband" in name: q = name.split(".")[0]; calpar |= {(slot, q + ".mixer_corr_phase_offset_degree"), (slot, q + ".mixer_corr_gain_ratio")}
                else: calpar |= {(slot, f"out{name[3]}_offset_path0"), (slot, f"out{name[3]}_offset_path1")}
            for slot, snap in after.items():
                e = ex.get(slot, {}); pre = before[slot]
                for k in e:
                    if k not in snap: raise AssertionError(f"harness: no parameter {k} on module {slot} {rig['modules'].get(slot)}")
                for k, v in snap.items():
                    if k in e:
                        mon.count("expected-values")
                        if not close(v, e[k]): raise Violation("configured value not set", f"module {slot} ({rig['modules'][slot]}) {k}: {v}, configured {e[k]} (before: {pre[k]})")
                    elif (slot, k) in calpar:
                        # calibrated in the first round: the result must stay
                        if rnd == 0: continue
                        if v != pre[k]: raise Violation("calibration result overwritten", f"module {slot} {k}: {pre[k]} -> {v}")
                    elif slot in ex and re.match(r"(out|marker)\d_(exp\d|fir)_", k): continue
                    elif re.match(r"s\d+\.(nco_freq|mod_en_awg|demod_en_acq)$", k) and any(rig["chans"][ci]["slot"] == slot and served[ci][1][3:] == k.split(".")[0][1:] for ci in used): continue
                    elif slot not in ex or not digital_seq(k, slot, rig, comp):
                        mon.count("untouched-values")
                        if v != pre[k] and not isdefault(k, v): raise Violation("setting of another channel changed", f"module {slot} ({rig['modules'].get(slot)}) {k}: {pre[k]} -> {v}")
            for ci in used:
                c = rig["chans"][ci]; q = f"s{served[ci][1][3:]}."; ins = inputs(c, rig)
                a, b = nco(after[c["slot"]], q, c["mtype"], bool(ins))
                if not c.get("only_in") and abs(a - c["nco"]) > 0.3: raise Violation("modulation frequency", f"{c.pc}: {a}, configured {c['nco']}")
                if c.get("only_in") and c["mtype"] != "QRM":
                    mon.count("rf-input-only"); k = lo_param(c["mtype"], int(c["cname"][-1])); f = after[c["slot"]][k]
                    wrong = ([f"{k} {f}, configured {c['lo']}"] if not close(f, c["lo"]) else []) + ([f"demodulation frequency {b}, configured {c['nco']}"] if abs(b - c["nco"]) > 0.3 else [])
                    # (known: neither is set; a wrong value would be another thing)
                    known = (close(f, c["lo"]) or f == before[c["slot"]][k]) and (abs(b - c["nco"]) <= 0.3 or b == 0 or b == before[c["slot"]][q + "nco_freq"])
                    if wrong and not flagged: flagged = True; mon.fail("input-only port-clock", f"{c.pc} on {c['cname']} of module {c['slot']} ({c['mtype']}): {wrong}", mechanism="rf-input-only-frequency" if known else None)
                elif b is not None and not c.get("only_in") and abs(b - c["nco"]) > 0.3: raise Violation("demodulation frequency", f"{c.pc}: {b}, configured {c['nco']}")
                if c["lo"] is not None: mon.count("lo-freq")
            before = after
            mon.count("prepared" if rnd == 0 else "second-prepare")

def digital_seq(k, slot, rig, comp):
    m = re.match(r"s(\d+)\.", k)
    if not m: return False
    mod = comp.compiled_instructions["cluster0"].get(f"cluster0_module{slot}", {})
    st = mod.get("sequencers", {}).get(f"seq{m.group(1)}")
    return st is not None and "digital" in st.channel_name

BAD = ["out_att", "in_att", "in_att_two_places", "gain", "dc_offset", "lo", "ext_lo", "gain_kind", "filter_kind", "filter_range", "filter_twice", "offset_range", "two_modules", "unconnected", "att_kind", "lo_if_clock", "seq_range", "amp_range"]
NEAR = [1e8, 1e6, 2500.0, 2500.0, -130.0]     # hertz by which two frequencies that must agree differ

def job_bad(r, mon):
    """Options that contradict each other or cannot be applied: rejected; when they agree: accepted."""
    kind = r.choice(BAD); agree = False
    mt = {"out_att": ["QCM_RF", "QRM_RF", "QRC"], "in_att": ["QRM_RF", "QRC"], "in_att_two_places": ["QRM_RF", "QRC"], "gain": ["QRM"], "dc_offset": ["QCM", "QRM", "QCM_RF", "QRM_RF"], "lo": ["QCM_RF", "QRM_RF", "QRC"], "ext_lo": ["QCM", "QRM"],
          "gain_kind": ["QRM"], "filter_kind": ["QCM"], "filter_range": ["QCM"], "filter_twice": ["QCM"], "offset_range": ["QCM", "QRM", "QCM_RF", "QRM_RF"], "lo_if_clock": ["QCM_RF", "QRM_RF", "QRC"], "att_kind": ["QCM_RF", "QRM_RF"]}.get(kind, MT)
    mt = r.choice(mt); slot = r.choice(qic.SLOTS[mt]); cl = "cluster0"
    real = mt in qb.RE_OUT and kind in ("gain", "gain_kind", "filter_kind", "filter_range", "filter_twice") and r.random() < 0.5
    i = r.randrange(qb.CX_OUT[mt]) if not real else r.randrange(qb.RE_OUT[mt])
    if kind in ("in_att", "in_att_two_places"): i = 0 if mt == "QRM_RF" else r.randrange(2)
    cname = f"{'real' if real else 'complex'}_output_{i}"
    ports = ["qa:x", "qb:x"] if r.random() < 0.6 and kind != "ext_lo" else ["qa:x", "qa:x"]
    clocks = ["qa.c", "qb.c"]; pcs = [f"{p}-{c}" for p, c in zip(ports, clocks)]
    lo = 50 * 1e8 if mt in qb.RF or kind == "ext_lo" else 0
    fr = {c: lo + f for c, f in zip(clocks, r.sample([x * 1e7 for x in range(1, 30)], 2))}
    graph = [[f"{cl}.module{slot}.{cname}", p] for p in dict.fromkeys(ports)]
    has_in = mt in ("QRM", "QRM_RF") or (mt == "QRC" and i < 2)
    j = r.randrange(2) if real else 0 if mt != "QRC" else i
    inp = f"{'real' if real else 'complex'}_input_{j}"
    if has_in and mt in qb.HAS_IN: graph += [[f"{cl}.module{slot}.{inp}", p] for p in dict.fromkeys(ports)]
    opts = {}; desc = {cl: {"instrument_type": "Cluster", "ref": "internal", "modules": {str(slot): {"instrument_type": mt}}}}
    mf = {pc: {"lo_freq": lo} for pc in pcs} if lo else {}
    two = lambda k, a, b: opts.setdefault(k, {}).update({pcs[0]: a, pcs[1]: b})
    x = r.random() < 0.5     # agreeing values
    hasdc = kind in ("out_att", "in_att", "gain", "dc_offset", "lo", "ext_lo")
    agree = x and hasdc
    if kind == "out_att": a = 2 * r.randint(0, 10); two("output_att", a, a if agree else a + 2 * r.randint(1, 5))
    elif kind == "in_att": a = 2 * r.randint(0, 10); two("input_att", a, a if agree else a + 2 * r.randint(1, 5))
    elif kind == "in_att_two_places":
        ports = ["qa:x", "qb:x"]; pcs = [f"{p}-{c}" for p, c in zip(ports, clocks)]; mf = {pcs[0]: {"lo_freq": lo}, pcs[1]: {"lo_freq": lo}}
        graph = [[f"{cl}.module{slot}.{cname}", ports[0]], [f"{cl}.module{slot}.{inp}", ports[0]], [f"{cl}.module{slot}.{inp}", ports[1]]]
        a = 2 * r.randint(0, 10); opts["input_att"] = {pcs[0]: a, pcs[1]: a + 2}
    elif kind == "gain":
        a = r.randint(-6, 20); b = a if agree else a + r.randint(1, 6)
        if real: two("input_gain", a, b)
        else:
            g = r.randint(-6, 20); w = r.random() < 0.5
            two("input_gain", {"gain_I": a, "gain_Q": g} if w else {"gain_I": g, "gain_Q": a}, {"gain_I": b, "gain_Q": g} if w else {"gain_I": g, "gain_Q": b})
    elif kind == "dc_offset":
        u = DC[mt]; a = round(u * 0.3, 4); b = a if agree else r.choice([round(u * 0.5, 4), round(a * 1.02, 6)]); w = r.random() < 0.5
        two("mixer_corrections", {"dc_offset_i": a, "dc_offset_q": 0.0} if w else {"dc_offset_i": 0.0, "dc_offset_q": a}, {"dc_offset_i": b, "dc_offset_q": 0.0} if w else {"dc_offset_i": 0.0, "dc_offset_q": b})
    elif kind == "lo":
        b = lo if agree else lo + r.choice(NEAR)
        how = r.choice(["lo", "if", "both-if"])
        if how == "lo": mf[pcs[1]] = {"lo_freq": b}
        elif how == "if": mf[pcs[1]] = {"interm_freq": fr[clocks[1]] - b}
        else: mf = {pcs[0]: {"interm_freq": fr[clocks[0]] - lo}, pcs[1]: {"interm_freq": fr[clocks[1]] - b}}
    elif kind == "ext_lo":
        desc["lo0"] = {"instrument_type": "LocalOscillator", "power": 1}; desc["iq0"] = {"instrument_type": "IQMixer"}
        graph = [[f"{cl}.module{slot}.{cname}", "iq0.if"], ["lo0.output", "iq0.lo"], ["iq0.rf", ports[0]]] + ([[f"{cl}.module{slot}.{inp}", ports[0]]] if False else [])
        b = lo if agree else lo + r.choice(NEAR)
        mf[pcs[1]] = r.choice([{"lo_freq": b}, {"interm_freq": fr[clocks[1]] - b}])
    elif kind == "gain_kind": opts["input_gain"] = {pcs[0]: {"gain_I": 1, "gain_Q": 2} if real else 3}
    elif kind == "filter_kind": opts["distortion_corrections"] = {pcs[0]: [filters(r), filters(r)] if real else filters(r)}
    elif kind == "filter_range":
        f = r.choice([{"exp0_coeffs": [5.9, 0.1]}, {"exp1_coeffs": [10, 1.0]}, {"exp2_coeffs": [10, -1.01]}, {"exp3_coeffs": [10]}, {"fir_coeffs": [0.1] * 31}, {"fir_coeffs": [0.1] * 31 + [2.0]}, {"fir_coeffs": [-2.1] + [0.1] * 31}])
        opts["distortion_corrections"] = {pcs[0]: f if real else r.choice([[f, filters(r)], [filters(r), f]])}
    elif kind == "filter_twice":
        a, b = filters(r), filters(r); two("distortion_corrections", a if real else [a, b], b if real else [b, a])
    elif kind == "offset_range": opts["mixer_corrections"] = {pcs[0]: {"dc_offset_i": DC[mt] * r.choice([-1.02, 1.02, 3]), "dc_offset_q": 0.0} if r.random() < 0.5 else {"dc_offset_q": DC[mt] * r.choice([-1.02, 1.02, 3]), "dc_offset_i": 0.0}}
    elif kind == "att_kind": opts["output_att"] = {pcs[0]: 3.5}
    elif kind == "two_modules":
        s2 = r.choice([s for s in qic.SLOTS["QCM"] if s != slot]); desc[cl]["modules"][str(s2)] = {"instrument_type": "QCM"}; graph.append([f"{cl}.module{s2}.complex_output_0", ports[0]])
    elif kind == "unconnected":
        graph = [g for g in graph if g[1] != ports[0]]
    elif kind == "lo_if_clock": mf[pcs[0]] = {"lo_freq": lo, "interm_freq": fr[clocks[0]] - lo + r.choice(NEAR)}
    elif kind == "seq_range": opts["sequencer_options"] = {pcs[0]: {r.choice(["init_offset_awg_path_I", "init_gain_awg_path_Q"]): r.choice([1.01, -1.5])}}
    elif kind == "amp_range": opts["mixer_corrections"] = {pcs[0]: r.choice([{"amp_ratio": 2.1}, {"amp_ratio": 0.4}, {"phase_error": 46}, {"phase_error": -45.5}])}
    if mf: opts["modulation_frequencies"] = mf
    for k, v in opts.items():
        it = list(v.items()); r.shuffle(it); opts[k] = dict(it)
    r.shuffle(graph)
    hw = {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig", "version": "0.2", "hardware_description": desc, "hardware_options": opts, "connectivity": {"graph": graph}}
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource
    from quantify_scheduler.operations import pulse_library as P, acquisition_library as A
    s = Schedule("s")
    for c, f in fr.items(): s.add_resource(ClockResource(c, f))
    for k in r.sample([0, 1], 2):
        c = clocks[k]
        s.add(A.SSBIntegrationComplex(port=ports[k], clock=c, duration=100e-9) if kind == "in_att_two_places" and k == 1 else P.SquarePulse(amp=0.1, duration=20e-9, port=ports[k], clock=c))
    try: comp = compile_(s, hw); err = None
    except Exception as e: err = e
    if agree:
        if err is not None: raise Violation("agreeing options refused", f"{kind} on {mt} {cname}: {err!r} {opts}")
        mon.count("agreeing")
    else:
        if err is None: raise Violation("conflicting options accepted", f"{kind} on {mt} {cname}: {opts}")
        mon.count("rejected"); mon.count("rej:" + kind)
    mon.case(["bad", hw], nontrivial=True)

def job_qtm(r, mon):
    """Thresholds of timetagging modules reach the channel of their port-clock."""
    rig = qtm.rig(r, pool=qic.SLOTS, nchan=r.randint(2, 6))
    outs = []
    for slot in rig["modules"]:
        free = [i for i in range(8) if not any(c["slot"] == slot and c["cidx"] == i for c in rig["chans"])]
        for i in r.sample(free, r.randint(0, 2)): outs.append((slot, f"digital_output_{i}", f"qo{slot}_{i}:ttl"))
    rig["digital"] = outs
    th = rig["opts"]["digitization_thresholds"]
    for k in list(th):
        if r.random() < 0.25: del th[k]
    n = len(rig["chans"]); used = sorted(r.sample(range(n), r.randint(max(1, n - 2), n)))
    used = [i for i in used if rig["chans"][i].pc in th] or used     # (a threshold is required of acquisitions)
    if any(rig["chans"][i].pc not in th for i in used):
        for i in used: th.setdefault(rig["chans"][i].pc, {"analog_threshold": 0.75})
    from quantify_scheduler import Schedule
    from quantify_scheduler.resources import ClockResource
    from quantify_scheduler.operations import pulse_library as P, acquisition_library as A
    s = Schedule("s")
    for k, f in rig["clocks"].items(): s.add_resource(ClockResource(k, f))
    for ci in used:
        c = rig["chans"][ci]; s.add(A.TriggerCount(port=c["port"], clock=c["clock"], duration=400e-9, acq_channel=ci))
    for _, _, p in outs: s.add(P.MarkerPulse(duration=100e-9, port=p)); s.add(P.IdlePulse(100e-9))
    comp = compile_(s, qb.hwcfg(rig))
    cl, icc, ic = qic.rack()
    slots = sorted(rig["modules"]); mods = {x: qic.module(cl, x) for x in qic.SLOTS["QTM"]}
    for m in mods.values():
        for io in m.io_channels: io.parameters["mode"].set("output" if r.random() < 0.5 else "input"); io.parameters["analog_threshold"].set(round(r.uniform(-0.9, 0.9), 3))
    snap = lambda: {(x, i): (io.parameters["mode"].get(), io.parameters["analog_threshold"].get()) for x, m in mods.items() for i, io in enumerate(m.io_channels)}
    b = snap(); icc.prepare(comp.compiled_instructions["cluster0"]); a = snap()
    want = {}
    for ci in used: c = rig["chans"][ci]; want[(c["slot"], c["cidx"])] = ("input", th[c.pc]["analog_threshold"])
    for slot, name, _ in outs: want[(slot, int(name[-1]))] = ("output", None)
    for k in a:
        if k in want:
            mon.count("expected-values", 2)
            if a[k][0] != want[k][0]: raise Violation("direction of a timetag channel", f"{k}: {a[k]}, configured {want[k]}")
            t = want[k][1]
            if t is None: t = b[k][1]
            if not close(a[k][1], t): raise Violation("threshold of a timetag channel", f"{k}: {a[k]}, configured {want[k]}, before {b[k]}")
        else:
            mon.count("untouched-values", 2)
            if a[k] != b[k]: raise Violation("setting of another channel changed", f"QTM {k}: {b[k]} -> {a[k]}")
    mon.count("cases"); mon.count("prepared"); mon.count("used-pc", len(used)); mon.count("opt:digitization_thresholds", len(used)); mon.count("unused-with-options", sum(1 for k in th if k not in {rig["chans"][i].pc for i in used})); mon.count("digital", len(outs))
    for x in slots: mon.count("mod:QTM")
    mon.case(["qtm", qb.hwcfg(rig)], nontrivial=bool(used))
