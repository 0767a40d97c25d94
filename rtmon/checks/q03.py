"""Q03: NCO frequency, LO frequency and NCO phase at every signal."""
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim

LEVEL = "exploration"
RULE = ("A case is a random schedule with phase shifts, phase resets, frequency changes, pulses and acquisitions (loops, nested schedules, clocks shared by several ports, LO given directly or through the IF, "
        "external LOs, downconverters), compiled and executed; the latched NCO state is compared with the schedule at every pulse and acquisition. Refusal cases: one inconsistent or out-of-range frequency "
        "setting, which must raise. Non-trivial: a clock operation takes effect before a signal, or a refusal; distinct by schedule and hardware description.")
ASSUMPTIONS = ["reset_ph clears the phase offset; set_ph_delta adds to it; both take effect with the next real-time instruction", "LO + NCO of an RF output is the carrier frequency",
               "frequency changes are reset by the schedule itself at its start"]
MINIMUM = {"signals": 8000, "phase": 300, "reset": 150, "freq": 150, "loops": 60, "nested": 40, "refused": 60, "acqs": 100, "shared-clock": 15, "downconverter": 10, "ext-lo": 15}

def jobs(tier, seed):
    n = 420 if tier == "quick" else 40000
    return [dict(i=i, seed=seed) for i in range(n)] + [dict(i=i, seed=seed, refuse=1) for i in range(100 if tier == "quick" else 1500)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def acq(g, ci, depth_path=None):
    ch = g.rig["chans"][ci]
    L = g.acqlen.setdefault(ci, g.r.choice([100, 300, 1000]))
    if L > 300 and g.total < 3000: L = g.acqlen[ci] = 100
    n = S.OP("SSBIntegrationComplex", L, port=ch.port, clock=ch.clock, duration=S.ns(L), acq_channel=f"ch{ci}", bin_mode="append")
    n["ch"] = ci; n["what"] = "acq"
    return n

def share(rig, r):
    """Let a channel use the clock of another one."""
    out = lambda c: (c["slot"], c["cname"])
    for d in rig["chans"]:
        if d.clock == qb.CLN or sum(out(x) == out(d) for x in rig["chans"]) > 1 or r.random() > 0.4: continue
        for c in rig["chans"]:
            if c is d or out(c) == out(d) or c.clock == qb.CLN or c.clock == d.clock: continue
            if (c.lo is None) != (d.lo is None): continue
            old = d.clock
            d["clock"], d["freq"] = c.clock, c.freq
            if d.lo is not None: d["lo"] = c.freq - d.nco
            else: d["nco"] = d["freq"]
            if not any(x.clock == old for x in rig["chans"]): rig["clocks"].pop(old, None)
            rig["shared"] = rig.get("shared", 0) + 1
            break

def downconvert(rig, r):
    """Custom downconverter on a complex output with one or more clocks: RF = down - clock."""
    for slot, cname in {(c.slot, c.cname) for c in rig["chans"] if c.lo is not None}:
        cs = [c for c in rig["chans"] if (c.slot, c.cname) == (slot, cname)]
        if any(sum(x.clock == c.clock for x in rig["chans"]) > 1 for c in cs) or r.random() > 0.3: continue
        down = 12e9
        rig.setdefault("cdesc", {})[(slot, cname)] = {"downconverter_freq": down}
        for c in cs:
            c["down"] = down; c["freq"] = down - (c.lo + c.nco); rig["clocks"][c.clock] = c["freq"]

def make(job):
    r = rng_for("Q03", job["seed"], job["i"], job.get("refuse", 0))
    rig = qb.make_rig(r)
    if r.random() < 0.5: share(rig, r)
    if r.random() < 0.25: downconvert(rig, r)
    feat = {"pulses", "clk", "acq"} | {f for f in ("loops", "nested", "long", "offsets", "share") if r.random() < 0.5}
    g = qb.Gen(r, rig, feat, total=r.choice([600, 3000, 3000, 12000]), acqs=acq)
    g.acqlen = {}
    for c in rig["chans"]:
        if c.get("down"): feat.discard("clk2")
    top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.randint(1, 4))
    return r, rig, g, top

def run_job(job, mon):
    if job.get("refuse"): return refuse(job, mon)
    r, rig, g, top = make(job)
    for k, v in g.counts.items(): mon.count(k, v)
    if rig.get("shared"): mon.count("shared-clock")
    judge(rig, top, mon)

def carrier(c, clock_freq):
    """Frequency that comes out of the module (and its external mixer) for this clock frequency."""
    return c["down"] - clock_freq if c.get("down") else clock_freq

def judge(rig, top, mon):
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    flat = list(S.flatten(top)); D = int(S.duration(top))
    amap, extra = qb.assign(comp, rig)
    used = {n["ch"] for _, n, _, _ in flat if "ch" in n}
    if used - set(amap): raise Violation("portclock-not-played", [rig["chans"][i].pc for i in used - set(amap)])
    first = {}
    for i, (slot, seq, st) in amap.items():
        c = rig["chans"][i]
        run = q1sim.run(st.sequence)
        if not run.reps: continue
        over = int((run.end - run.reps[0]) / len(run.reps) - D)
        # carrier
        lo = 0.0
        if c.mtype in qb.RF:
            ms = comp.compiled_instructions["cluster0"][f"cluster0_module{slot}"]["settings"]
            lo = getattr(ms, f"lo{int(c.cname[-1])}_freq")
        elif c.lo is not None:
            lo = comp.compiled_instructions["generic"][f"{c.mix}.frequency"]
            mon.count("ext-lo")
        if lo is None: raise Violation("no-lo", c.pc)
        if c.get("down"): mon.count("downconverter")
        ev = run.events; times = [e.t for e in ev]
        for k, t0 in enumerate(run.reps):
            a = t0 + over
            ph = 0.0; nsh = 0; freq = c.freq; treset = None; shifts = False
            for t, n, _, _ in sorted(flat, key=lambda x: x[0]):
                if n.get("what") == "clk" and n["clk"] == c.clock:
                    kw = n["kw"]
                    if n["c"] == "ShiftClockPhase": ph += kw["phase_shift"]; nsh += 1
                    elif n["c"] == "ResetClockPhase": ph = 0.0; nsh = 0; treset = a + t
                    else: freq = rig["clocks"][c.clock] if kw["clock_freq_new"] is None else kw["clock_freq_new"]
                    shifts = True
                elif n.get("ch") == i and n["what"] in ("pulse", "acq"):
                    mon.count("signals")
                    j = int(np.searchsorted(times, a + t, side="right")) - 1
                    s = ev[j].st
                    tr = s.treset
                    if treset is None:
                        rel = tr - t0
                        if first.setdefault("rel", rel) != rel or not 0 <= rel <= over: raise Violation("phase-reset-time", f"{c.pc}: repetition {k}: phase last reset at {rel} ns after the start of the repetition, t={t}; others {first['rel']}\n" + st.sequence["program"][-1500:])
                    elif tr != treset: raise Violation("phase-reset-time", f"{c.pc} t={t}: last reset at {tr - a}, expected {treset - a}\n" + st.sequence["program"][-1500:])
                    want = ph / 360 * 1e9
                    dev = (s.ph - want + 5e8) % 1e9 - 5e8
                    if abs(dev) > 1 + nsh: raise Violation("phase", f"{c.pc} rep {k} t={t} {n['c']}: NCO phase {s.ph * 360e-9:.6f} deg, scheduled {ph % 360:.6f}\n" + st.sequence["program"][-2500:])
                    nco = (st.modulation_freq or 0.0) if s.freq is None else s.freq / 4
                    if nco and not st.nco_en: raise Violation("nco-disabled", f"{c.pc}: {nco}")
                    want = carrier(c, freq)
                    if abs(lo + nco - want) > 0.26: raise Violation("frequency", f"{c.pc} rep {k} t={t} {n['c']}: LO {lo} + NCO {nco} = {lo + nco}, clock {want}\n" + st.sequence["program"][-1500:])
                    if shifts: mon.count("after-clock-operation")
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), True)

def refuse(job, mon):
    """One contradictory or out-of-range frequency setting."""
    r = rng_for("Q03", job["seed"], job["i"], 1)
    kind = ["inconsistent", "underconstrained", "if-range", "lo-conflict", "set-range", "set-undefined", "ext-conflict", "edge"][job["i"] % 8]
    for _ in range(200):
        rf = kind in ("lo-conflict",)
        rig = qb.make_rig(r, mtypes=[r.choice(["QCM_RF", "QRM_RF"])] if rf else None, multi_clock=kind in ("lo-conflict", "ext-conflict"))
        cs = [c for c in rig["chans"] if c.lo is not None] if kind in ("inconsistent", "underconstrained", "lo-conflict", "ext-conflict") else list(rig["chans"])
        if kind in ("if-range", "set-range", "edge"): cs = [c for c in cs if c.clock != qb.CLN]
        if kind in ("lo-conflict", "ext-conflict"): cs = [c for c in cs if sum((d.slot, d.cname) == (c.slot, c.cname) for d in rig["chans"]) > 1 and (c.mix is None) == (kind == "lo-conflict")]
        if cs: break
    if not cs: return
    c = r.choice(cs)
    items = [S.ITEM(S.IDLE(2000))]
    for d in rig["chans"]: items.append(S.ITEM(S.OP("SquarePulse", 20, amp=0.1, duration=20e-9, port=d.port, clock=d.clock), S.CON(ref=0, pt="start", rel=100)))
    top = qb.with_clocks(S.SCHED(items), rig)
    hw = qb.hwcfg(rig); mf = hw["hardware_options"].get("modulation_frequencies", {})
    ok = False
    if kind == "inconsistent": mf[c.pc] = {"lo_freq": c.lo, "interm_freq": c.nco + r.choice([-1, 1]) * r.choice([100, 1e6, 250e6])}
    elif kind == "underconstrained":
        for d in rig["chans"]:
            if (d.slot, d.cname) == (c.slot, c.cname): mf.pop(d.pc, None)
    elif kind == "if-range":
        off = r.choice([-1, 1]) * r.choice([501e6, 600e6, 2e9])
        if c.lo is None: top["clocks"][c.clock] = abs(off)
        elif any(d is not c and (d.slot, d.cname) == (c.slot, c.cname) for d in rig["chans"]): return
        else: mf[c.pc] = {"lo_freq": c.freq - off}
    elif kind in ("lo-conflict", "ext-conflict"):
        ds = [d for d in rig["chans"] if (d.slot, d.cname) == (c.slot, c.cname)]
        for d in ds: mf[d.pc] = {"lo_freq": d.lo}
        mf[c.pc] = {"lo_freq": c.lo + r.choice([-1, 1]) * r.choice([1e6, 77e6])}
    elif kind in ("set-range", "edge"):
        far = r.choice([-1, 1]) * (r.choice([501e6, 700e6, 3e9]) if kind == "set-range" else 499.9e6)
        top["items"].append(S.ITEM(S.OP("SetClockFrequency", 0, clock=c.clock, clock_freq_new=(c.lo or 0) + far), S.CON(ref=0, pt="start", rel=500)))
        top["items"].append(S.ITEM(S.OP("SquarePulse", 20, amp=0.1, duration=20e-9, port=c.port, clock=c.clock), S.CON(ref=0, pt="start", rel=600)))
        ok = kind == "edge"
    elif kind == "set-undefined":
        top["items"].append(S.ITEM(S.OP("SetClockFrequency", 0, clock="nope.clock", clock_freq_new=1e8), S.CON(ref=0, pt="start", rel=500)))
        top["items"].append(S.ITEM(S.OP("SquarePulse", 20, amp=0.1, duration=20e-9, port=c.port, clock="nope.clock"), S.CON(ref=0, pt="start", rel=600)))
    from quantify_scheduler import QuantumDevice
    qd = QuantumDevice("qd"); qd.hardware_config(hw)
    sched = S.build(top)
    try: comp = qb.compile_schedule(sched, qd.generate_compilation_config())
    except Exception as e:
        if ok: raise Violation("valid-frequency-refused", f"{kind}: {e}")
        mon.count("refused"); mon.count("refused-" + kind); mon.case(repr((kind, hw)), True); return
    if not ok and kind in ("if-range", "set-range"):   # or the vendor driver refuses the static frequency when it is prepared
        from qblox_instruments import Cluster, ClusterType
        cl = Cluster("vend", dummy_cfg={"1": ClusterType.CLUSTER_QCM})
        for _, _, st in qb.sequencers(comp):
            try: cl.module1.sequencer0.nco_freq(st.modulation_freq or 0.0)
            except Exception: ok = True
        if ok: mon.count("refused"); mon.count("refused-driver"); mon.case(repr((kind, hw)), True); return
    if not ok: raise Violation("frequency-not-refused", f"{kind} on {c.pc} ({c.mtype}): {mf} clocks {top['clocks']}\n" + "\n".join(st.sequence["program"] for _, _, st in qb.sequencers(comp))[:1500])
    mon.case(repr((kind, hw)), True)
