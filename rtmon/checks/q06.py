"""Q06: what is compiled loads and stays within the hardware; what fits is not refused."""
import math, warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, qic, qtm, qacq

LEVEL = "exploration"
RULE = ("A case is a schedule at, just below or just above one documented hardware limit (waveform and weight memory and count, amplitudes, offsets, waits, loop and schedule repetitions, bins, acquisition length, sequencers per "
        "module, NCO frequency, feedback labels, registers, program length), or an unconstrained random schedule. Compilation must fail or every program must be taken by the vendor's assembler and driver, be free of illegal "
        "operands, indices and memory sizes, and execute without an illegal step; where an independent rule says the schedule fits, it must not be refused. Non-trivial: compiled and loaded; distinct by schedule and hardware description.")
ASSUMPTIONS = ["limits are those in the documentation of the backend (16384 waveform samples and weight samples, 32 acquisition indices of 100000 bins, 64 registers, 12288 / 16384 instructions) and of the vendor's assembler (1024 waveforms, 64 weights)",
               "a RuntimeWarning naming the program length counts as the report that a program is too long", "any exception of the compiler counts as a refusal", "a fixed modulation frequency beyond 500 MHz is a setting, refused by the vendor's driver when the schedule is prepared"]
MINIMUM = {"loaded": 500, "refused": 150, "fits": 350, "exceeds": 60, "instructions": 20000, "chaos-accepted": 60, "sequencers": 900, "simulated": 500}
FAMS = ["mem", "count", "amp", "wait", "bins", "seqs", "freq", "phase", "labels", "regs", "prog", "weights", "reps", "acqlen", "latency", "qtm", "qrc", "threshold"]
LIMIT_INSTR = {"QCM": 16384, "QTM": 16384, "QRM": 12288, "QRC": 12288, "QCM_RF": 16384, "QRM_RF": 12288}

def jobs(tier, seed):
    n = 40 if tier == "quick" else 1500
    out = []
    for i in range(n):
        out += [dict(fam=f, i=i, seed=seed) for f in FAMS if not (f in ("prog", "labels", "regs") and i % 4)]
        out += [dict(fam="chaos", i=8 * i + k, seed=seed) for k in range(8)]
    return out

def cleanup_job(): pass

def one_chan(r, mt=None, nchan=1):
    """A rig with one complex channel."""
    mt = mt or r.choice(["QCM", "QRM", "QCM_RF", "QRM_RF"])
    while True:
        rig = qb.make_rig(r, mtypes=[mt], pool=qic.SLOTS, real_ok=False, multi_clock=False, version="0.2", lo_ok=False, max_chan=1)
        if mt not in qb.HAS_IN or rig["chans"][0]["inp"]: return rig

def put(ch, n):
    n["kw"].update(port=ch.port, clock=ch.clock); return n

def cplx(r, a=0.4): return complex(round(r.uniform(-a, a), 6), round(r.uniform(-a, a), 6))

def sched(items): return S.SCHED([S.ITEM(x) for x in items], name="top")

def rnd_wave(r, ch, n):
    w = [cplx(r) for _ in range(n)] 
    return put(ch, S.OP("NumericalPulse", n, samples=w + [w[-1]], t_samples=[S.ns(k) for k in range(n + 1)]))

def mem(r):
    rig = one_chan(r); ch = rig["chans"][0]
    total = r.choice([8192, 8192, 8191, 8193, 8200, r.randint(4000, 8192), r.randint(8193, 12000), 8190])   # complex samples: two paths
    ops = []; left = total
    while left:
        n = min(left, r.randint(4, 5000))
        if left - n < 4 and left != n: n = left - 4
        if n < 4: n = left
        ops.append(rnd_wave(r, ch, n)); left -= n
    seq = list(ops)
    for _ in range(r.randint(0, 3)):
        x = r.choice(ops); seq.append(S.LOOP(x, r.randint(1, 4)) if r.random() < 0.5 else x)
    r.shuffle(seq)
    return rig, sched(seq), 1, total <= 8192

def count(r):
    rig = one_chan(r); ch = rig["chans"][0]; k = r.choice([512, 511, 500, 513, 600, 530, r.randint(100, 512)])
    return rig, sched([rnd_wave(r, ch, r.choice([4, 5, 6])) for _ in range(k)]), 1, k <= 512

def amp(r):
    rig = one_chan(r); ch = rig["chans"][0]
    ops = []; fits = True
    for _ in range(r.randint(1, 5)):
        x = r.random(); D = r.choice([20, 40, 99, 100, 150, 400])
        peak = r.choice([1, 1, -1, 0.999999, r.uniform(0.1, 1)])
        if r.random() < 0.15: peak = r.choice([1.0001, -1.001, 1.5, 2.0, -40]); fits = False
        if x < 0.4:
            v = r.choice([peak, 1j * peak, complex(peak, r.uniform(-1, 1)), complex(r.uniform(-1, 1), peak)])
            ops.append(put(ch, S.OP("SquarePulse", D, amp=v, duration=S.ns(D))))
        elif x < 0.55 and (abs(peak) <= 1 or abs(peak) >= 1.5): ops.append(put(ch, S.OP("RampPulse", D, amp=peak - (off := r.choice([0, 0, 0.25])), offset=off, duration=S.ns(D + 1)))); ops[-1]["dur"] = D + 1
        elif x < 0.75:
            v = r.choice([peak, complex(peak, 0.3), complex(-0.2, peak)])
            ops.append(put(ch, S.OP("NumericalPulse", 20, samples=[0, v, v, v, 0], t_samples=[S.ns(5 * k) for k in range(5)])))
        elif x < 0.9: ops.append(put(ch, S.OP("SoftSquarePulse", D, amp=peak if abs(peak) <= 1 else 3 * peak, duration=S.ns(D))))
        else:
            ops.append(put(ch, S.OP("VoltageOffset", 0, offset_path_I=peak, offset_path_Q=r.uniform(-1, 1)))); ops.append(S.IDLE(20))
            ops.append(put(ch, S.OP("VoltageOffset", 0, offset_path_I=0.0, offset_path_Q=0.0)))
        ops.append(S.IDLE(r.choice([8, 40])))
    return rig, sched(ops), 1, fits

def wait(r):
    rig = one_chan(r); ch = rig["chans"][0]; ops = []
    p = lambda: put(ch, S.OP("SquarePulse", 20, amp=0.2, duration=S.ns(20)))
    edge = [65532, 65535, 65536, 65533, 131064, 131068, 65531, 65537, 5 * 65532, 5 * 65532 + 1, 6 * 65532 + 3, 65532 * 4 + 2]
    for _ in range(r.randint(1, 6)):
        ops.append(p())
        d = r.choice([r.choice(edge), r.choice(edge), r.choice(edge) - r.randint(0, 40), r.randint(4, 10**6), r.randint(10**6, 10**9), 100 * 10**9 if r.random() < 0.2 else 10**8])
        x = S.IDLE(d); ops.append(S.LOOP(sched([p(), x]), r.randint(1, 5)) if r.random() < 0.3 else x)
    ops.append(p())
    return rig, sched(ops), r.choice([1, 1, 3]), True

def bins(r):
    rig = one_chan(r, r.choice(["QRM", "QRM_RF"])); ch = rig["chans"][0]
    nch = r.choice([1, 1, 2, 5, 31, 32]); ops = []; mode = r.choice(["append", "append", "average"])
    k = r.choice([1, 2, 3, 10]) if nch < 10 else 1
    for c in range(nch):
        for _ in range(k): ops.append(put(ch, S.OP("SSBIntegrationComplex", 300, duration=S.ns(300), acq_channel=f"c{c}", bin_mode=mode))); ops.append(S.IDLE(20))
    tot = nch * k                  # one index has at most this many bins per repetition
    full = 100000 // tot
    reps = r.choice([full, full - 1, max(1, full // 3), 1, full + 1, 3 * full, 100001, 1000000])
    fits = (tot * reps <= 100000) if mode == "append" else True
    if mode == "append" and reps > 100000: fits = False
    elif not fits: fits = None
    return rig, sched(ops), reps, fits

def seqs(r):
    """As many port-clocks as a module has sequencers, or one more."""
    mt = r.choice(["QCM", "QRM", "QCM_RF", "QRM_RF"]); n = r.choice([6, 6, 7, 5, 8])
    rig = one_chan(r, mt); c0 = dict(rig["chans"][0]); rig["chans"] = []; rig["clocks"] = {}
    outs = list(range(qb.CX_OUT[mt])); ops = []
    per = {}
    for k in range(n):
        o = r.choice(outs); lo = c0["lo"]
        c = qb.Chan(c0); c["port"] = f"p{o}:x"; c["cname"] = f"complex_output_{o}"; c["inp"] = "complex_input_0" if o == 0 and mt in qb.HAS_IN else None
        per[o] = per.get(o, 0) + 1
        c["clock"] = f"k{o}.{per[o]}"; f = 10e6 * per[o] + 1e6 * o; c["interm"] = f; c["freq"] = (lo or 0) + f; c["nco"] = f; c["how"] = "lo"
        rig["clocks"][c["clock"]] = c["freq"]; rig["chans"].append(c)
        ops.append(put(c, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40))))
    return rig, sched(ops), 1, n <= 6

def qrc(r):
    """Port-clocks of a QRC: sequencers 0-7 reach outputs 0, 1 and one of 2-5 each, sequencers 8-11 reach outputs 2-5."""
    rig = one_chan(r, "QCM_RF"); c0 = dict(rig["chans"][0]); slot = r.choice(qic.SLOTS["QRC"]); rig["modules"] = {slot: "QRC"}; rig["chans"] = []; rig["clocks"] = {}
    n = r.randint(3, 13); names = r.sample("abcdefghijklmnop", 6); per = {}; ops = []; outs = r.sample(range(6), r.randint(1, 6))
    allowed = {i: {f"complex_output_{o}" for o in ((0, 1, 2 + i % 4) if i < 8 else (2, 3, 4, 5))} for i in range(12)}
    for k in range(n):
        o = r.choice(outs); per[o] = per.get(o, 0) + 1; lo = 5e9 + 1e8 * o
        c = qb.Chan(c0); c["slot"] = slot; c["mtype"] = "QRC"; c["port"] = f"{names[o]}:x"; c["cname"] = f"complex_output_{o}"; c["inp"] = None
        c["clock"] = f"k{o}.{per[o]}"; f = 10e6 * per[o]; c["lo"] = lo; c["interm"] = f; c["freq"] = lo + f; c["nco"] = f; c["how"] = "lo"
        rig["clocks"][c["clock"]] = c["freq"]; rig["chans"].append(c)
        ops.append(put(c, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40))))
    match = {}
    def aug(i, seen):
        for s, outs_ in allowed.items():
            if rig["chans"][i]["cname"] in outs_ and s not in seen:
                seen.add(s)
                if s not in match or aug(match[s], seen): match[s] = i; return True
        return False
    return rig, sched(ops), 1, all(aug(i, set()) for i in range(n))

def freq(r):
    rig = one_chan(r); ch = rig["chans"][0]; lo = ch["lo"]
    nco = r.choice([500e6, -500e6, 499.9e6, r.uniform(-500e6, 500e6), 500e6 + 1, 600e6, -501e6, 2e9])
    ops = [put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))]
    if ch.clock == qb.CLN or lo is None:
        nco = abs(nco); ch["clock"] = "q0.k"; ch["freq"] = nco
    else: ch["freq"] = lo + nco
    ch["how"] = "lo"; ch["nco"] = nco; rig["clocks"] = {ch.clock: ch["freq"]}; ops = [put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))]
    fits = abs(nco) <= 500e6 or None      # (the driver refuses such a modulation frequency when the schedule is prepared)
    rig['static'] = fits is True
    for _ in range(r.randint(0, 3)):
        d = r.choice([500e6, -500e6, r.uniform(-500e6, 500e6), 501e6 if r.random() < 0.4 else 0.0]); f = (lo or 0) + d
        if abs(f - (lo or 0)) > 500e6: fits = False
        ops += [S.IDLE(20), S.OP("SetClockFrequency", 0, clock=ch.clock, clock_freq_new=f), S.IDLE(8), put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))]
    return rig, sched(ops), 1, fits

def phase(r):
    rig = one_chan(r); ch = rig["chans"][0]
    if ch.clock == qb.CLN: ch["clock"] = "q0.k"; ch["freq"] = ch["nco"] = 50e6; rig["clocks"] = {"q0.k": 50e6}
    ops = [put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))]
    for _ in range(r.randint(2, 20)):
        ph = r.choice([0, 360, -360, 359.9999999999, -1e-12, 1e-9, -1e-9, 1e9, -1e9, 720.0, 1e-300, r.uniform(-1e4, 1e4), 359.99999999999999, -5e-324])
        ops += [S.OP("ShiftClockPhase", 0, phase_shift=ph, clock=ch.clock), S.IDLE(8), put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))]
    return rig, sched(ops), r.choice([1, 2]), True

def labels(r):
    """Feedback labels, one per readout port-clock."""
    k = r.choice([15, 15, 14, 16, 3, 12]); rig = dict(modules={}, chans=[], version="0.2", clocks={}, lo={}, opts={}, cdesc={}, latency={}, order=0.5)
    slots = r.sample(qic.SLOTS["QRM"], 2) + r.sample(qic.SLOTS["QRM_RF"], 2); ops = []
    for i, slot in enumerate(slots):
        mt = "QRM" if slot in qic.SLOTS["QRM"] else "QRM_RF"; rig["modules"][slot] = mt
        for j in range(6):
            f = 10e6 * (j + 1); lo = 6e9 if mt == "QRM_RF" else None
            rig["chans"].append(qb.Chan(port=f"p{i}:x", clock=f"k{i}.{j}", freq=(lo or 0) + f, slot=slot, mtype=mt, cname="complex_output_0", cplx=True, inp="complex_input_0", lo=lo, interm=f, mix=None, how="lo", nco=f))
            rig["clocks"][f"k{i}.{j}"] = (lo or 0) + f
    cs = r.sample(rig["chans"], k)
    for j, c in enumerate(cs):
        ops.append(put(c, S.OP("ThresholdedAcquisition", 400, duration=S.ns(400), feedback_trigger_label=f"L{j}", acq_channel=f"c{j}"))); ops.append(S.IDLE(1000))
        ops.append(dict(k="cond", body=S.SCHED([S.ITEM(put(cs[0], S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40))))]), label=f"L{j}", buf=None, dur=None)); ops.append(S.IDLE(40))
    return rig, ops, 1, k <= 15

def regs(r):
    rig = one_chan(r, "QRM"); ch = rig["chans"][0]; d = r.choice([3, 8, 15, 30, 45, 58, 61, 62, 63, 64, 70]); x = put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))
    if r.random() < 0.5:
        x = S.SCHED([S.ITEM(x), S.ITEM(S.IDLE(400)), S.ITEM(put(ch, S.OP("SSBIntegrationComplex", 300, duration=S.ns(300), bin_mode=r.choice(["append", "average"])))), S.ITEM(S.IDLE(40))])
    for k in range(d): x = S.LOOP(x if r.random() < 0.6 else S.SCHED([S.ITEM(x)]), 1 if k > 4 else 2)
    return rig, sched([x]), 1, True if d <= 45 else None

def prog(r):
    rig = one_chan(r); ch = rig["chans"][0]; n = r.choice([2000, 4000, 5400, 6000, 8100, 8300, 9000])
    a = [put(ch, S.OP("SquarePulse", 20, amp=v, duration=S.ns(20))) for v in (0.1, 0.2)]
    return rig, sched([a[k % 2] for k in range(n)]), 1, True

def weights(r):
    rig = one_chan(r, r.choice(["QRM", "QRM_RF"])); ch = rig["chans"][0]; ops = []
    x = r.random()
    if x < 0.5:
        L = r.choice([8192, 8191, 8193, 400, 16384, 16385, 20000]); same = r.random() < 0.3
        a = [round(r.uniform(-1, 1), 4) for _ in range(L)]; b = a if same else [round(r.uniform(-1, 1), 4) for _ in range(L)]
        tot = L if same else 2 * L
        a[r.randrange(L)] = r.choice([1, -1, 1.0])
        if same: b = a
        ops.append(put(ch, S.OP("NumericalSeparatedWeightedIntegration", L, weights_a=a, weights_b=b, weights_sampling_rate=1e9))); fits = tot <= 16384
        if r.random() < 0.2:
            a[r.randrange(L)] = r.choice([1.001, -1.2, 3]); fits = False
    else:
        k = r.choice([32, 31, 16, 10, 33, 40]); fits = k <= 32     # two weights each
        c = r.choice([1, 2, 2, 3]); L = 100 * c
        for i in range(k): ops += [put(ch, S.OP("NumericalSeparatedWeightedIntegration", L, weights_a=[round(r.uniform(-1, 1), 4) for _ in range(100)] * c, weights_b=[round(r.uniform(-1, 1), 4) for _ in range(100)] * c, weights_sampling_rate=1e9)), S.IDLE(max(20, 320 - L))]
        if k * 2 * L > 16384: fits = False
    return rig, sched(ops), r.choice([1, 3]), fits

def reps(r):
    rig = one_chan(r); ch = rig["chans"][0]; x = put(ch, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))
    a = r.choice([1, 2, 2**16, 2**32 - 1, 2**31, 0, -1, 2**32, 10**12]); b = r.choice([1, 1, 3, 65536, 0, -2, 100])
    fits = 1 <= a < 2**32 and b >= 1
    return rig, sched([S.LOOP(x, b) if b != 1 else x]), a, fits

def acqlen(r):
    rig = one_chan(r, r.choice(["QRM", "QRM_RF"])); ch = rig["chans"][0]
    if r.random() < 0.5:
        L = r.choice([16384, 16383, 4, 300, 16385, 20000, 3, 1, r.randint(4, 16384)]); op = S.OP("Trace", L, duration=S.ns(L)); fits = 4 <= L <= 16384
    else:
        L = r.choice([3, 2, 16777212, 16777211, 4, 1000000, 16777213, 20000000, 10**9]); op = S.OP(r.choice(["SSBIntegrationComplex", "ThresholdedAcquisition"]), L, duration=S.ns(L)); fits = 4 <= L <= 16777212
    return rig, sched([put(ch, op), S.IDLE(400)]), r.choice([1, 2]), fits

def threshold(r):
    rig = one_chan(r, r.choice(["QRM", "QRM_RF"])); ch = rig["chans"][0]; L = r.choice([300, 1000, 16000])
    th = r.choice([0, 1, -1, 0.25, 1000.0, 16777212.0 / L, -16777212.0 / L, 16777300.0 / L, -2e7 / L, 1e9]); rot = r.choice([0, 359.9, 360, 90.5, -10, 361, 720])
    fits = abs(th) * L <= 16777212.0
    if not 0 <= rot <= 360: fits = None if fits else False
    return rig, sched([put(ch, S.OP("ThresholdedAcquisition", L, duration=S.ns(L), acq_threshold=th, acq_rotation=rot)), S.IDLE(400)]), 1, fits

def latency(r):
    rig = qb.make_rig(r, pool=qic.SLOTS, lo_ok=False); ops = []
    for c in rig["chans"]: ops.append(put(c, S.OP("SquarePulse", 40, amp=0.1, duration=S.ns(40)))); rig["latency"][c.pc] = r.choice([0, 4, 100, 65532, 65535, 65528, 100000, -100, -70000, r.randint(-10**6, 10**6) * 4])
    return rig, sched(ops), 1, True

def qtm_(r):
    rig, _, g, top = qtm.make(r, pool=qic.SLOTS)
    return rig, top, top["reps"], True

def chaos(r):
    """Anything goes: times, durations, amplitudes and combinations that may well be impossible."""
    rig = qb.make_rig(r, pool=qic.SLOTS, max_chan=4, lo_ok=False); ch = rig["chans"]
    wild = r.choice([0, 0.02, 0.05, 0.1, 0.2])
    def D():
        if r.random() < wild: return r.choice([0, 1, 3, 5, 1.5, 0.3, 20000, 65535, 100000, 101, 2003, r.randint(0, 3000)])
        return r.choice([8, 20, 40, 96, 100, 300, 1000, 2000, 4 * r.randint(2, 700)])
    def op(depth):
        x = r.random(); c = r.choice(ch); d = D()
        A = lambda: r.choice([0.1, 0.5, 1, -1, r.uniform(-1, 1), r.choice([0, 1.2]) if r.random() < wild else 0.3] + [complex(r.uniform(-1, 1), r.uniform(-1, 1))] * c.cplx)
        if x < 0.3: return put(c, S.OP("SquarePulse", d, amp=A(), duration=S.ns(d)))
        if x < 0.38: return put(c, S.OP("RampPulse", d, amp=A(), offset=r.choice([0, 0.1, -0.2]), duration=S.ns(d)))
        if x < 0.45: return put(c, S.OP("GaussPulse", d, G_amp=A(), phase=r.choice([0, 90, 33]), duration=S.ns(d)))
        if x < 0.5: return S.SCHED([S.ITEM(put(c, S.OP("VoltageOffset", 0, offset_path_I=r.choice([0, 0.1, 1]), offset_path_Q=r.choice([0, -0.3]) * c.cplx))), S.ITEM(S.IDLE(8))])
        if x < 0.6:
            if c.inp is None: return S.IDLE(d)
            kind = r.choice(["SSBIntegrationComplex", "SSBIntegrationComplex", "ThresholdedAcquisition"]) if r.random() >= wild else r.choice(["Trace", "TriggerCount"]); d = D() if r.random() < wild else 400
            return S.SCHED([S.ITEM(put(c, S.OP(kind, d, duration=S.ns(d), acq_channel=f"{c.pc}{kind[0]}"))), S.ITEM(S.IDLE(r.choice([40, 300])))])
        if x < 0.68 and c.clock != qb.CLN: return S.SCHED([S.ITEM(S.OP("ShiftClockPhase", 0, phase_shift=r.uniform(-400, 400), clock=c.clock)), S.ITEM(S.IDLE(8))])
        if x < 0.72 and c.clock != qb.CLN: return S.SCHED([S.ITEM(S.OP("SetClockFrequency", 0, clock=c.clock, clock_freq_new=c.freq + (6e8 if r.random() < wild else r.choice([0, 1e6, -5e6])))), S.ITEM(S.IDLE(8))])
        if x < 0.75 and c.clock != qb.CLN: return S.SCHED([S.ITEM(S.OP("ResetClockPhase", 0, clock=c.clock)), S.ITEM(S.IDLE(8))])
        if x < 0.85 or depth == 0: return S.IDLE(d)
        s = frame(depth - 1)
        return S.LOOP(s, r.choice([1, 2, 3, 7, 100])) if r.random() < 0.7 else s
    def frame(depth):
        its = []
        for k in range(r.randint(1, 6)):
            its.append(S.ITEM(op(depth), *([S.CON(ref=r.randrange(k), pt=r.choice(["start", "center", "end"]), ptn=r.choice(["start", "end", None]), rel=r.choice([-8, r.randint(-50, 2000)]) if r.random() < wild else r.choice([0, 0, 4, 20, 100]))] if k and r.random() < wild + 0.1 else [])))
        its.append(S.ITEM(S.IDLE(20)))
        return S.SCHED(its, name=f"f{r.randrange(10**6)}")
    return rig, frame(2), r.choice([1, 1, 2, 10, 1000]), None

GEN = dict(mem=mem, count=count, amp=amp, wait=wait, bins=bins, seqs=seqs, freq=freq, phase=phase, labels=labels, regs=regs, prog=prog, weights=weights, reps=reps, acqlen=acqlen, latency=latency, qtm=qtm_, qrc=qrc, threshold=threshold, chaos=chaos)

# ------------------------------------------------------------------ oracle
OPS = {"move", "add", "sub", "not", "and", "or", "xor", "asl", "asr", "nop", "stop", "jmp", "jge", "jlt", "loop", "wait", "wait_sync", "upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags", "set_awg_gain",
       "set_awg_offs", "set_freq", "set_ph", "set_ph_delta", "reset_ph", "set_mrk", "set_digital", "set_scope_en", "set_time_ref", "set_latch_en", "set_cond", "upd_thres", "latch_rst"}

def static(seq, mtype, warned):
    """Limits of one sequence that need no execution."""
    bad = []
    instrs, lab = q1sim.parse(seq["program"])
    def table(name, what, maxn, maxs):
        d = seq.get(name) or {}; idx = [x["index"] for x in d.values()]
        if len(set(idx)) != len(idx): bad.append(f"{what} indices used twice")
        if any(not 0 <= i < maxn for i in idx): bad.append(f"{what} index {max(idx)}")
        if maxs:
            data = [np.asarray(x["data"]) for x in d.values()]
            if any(np.iscomplexobj(x) for x in data): bad.append(f"complex {what}"); return
            if any(not np.all(np.isfinite(x)) or np.any(np.abs(x) > 1 + 1e-8) for x in data): bad.append(f"{what} values outside [-1, 1]")
            if sum(len(x) for x in data) > maxs: bad.append(f"{sum(len(x) for x in data)} {what} samples")
        return set(idx)
    wf = table("waveforms", "waveform", 1024, 16384); table("weights", "weight", 64, 16384); aq = table("acquisitions", "acquisition", 32, None)
    for k, a in (seq.get("acquisitions") or {}).items():
        if not 1 <= a["num_bins"] <= 100000: bad.append(f"{a['num_bins']} bins")
    if len(instrs) > LIMIT_INSTR[mtype] and not warned: bad.append(f"{len(instrs)} instructions without a report")
    if len(instrs) <= LIMIT_INSTR[mtype] - 60 and warned and False: bad.append("program length reported")
    if not any(op == "stop" for op, _ in instrs): bad.append("no stop")
    for op, a in instrs:
        if op not in OPS: bad.append(f"instruction {op}")
        for k, v in a:
            if k == "R" and not 0 <= v < 64: bad.append(f"register {v}")
            if k == "L" and v not in lab: bad.append(f"label {v}")
            if k == "I" and not -2**31 <= v < 2**32: bad.append(f"operand {v} of {op}")
        if op in ("wait", "upd_param", "wait_sync") and a[0][0] == "I" and not 4 <= a[0][1] <= 65535: bad.append(f"{op} {a[0][1]}")
        if op == "play":
            for k, v in a[:2]:
                if k == "I" and v not in wf: bad.append(f"play of waveform {v}")
            if not 4 <= a[2][1] <= 65535: bad.append(f"play for {a[2][1]}")
        if op.startswith("acquire"):
            if a[0][1] not in aq: bad.append(f"acquisition index {a[0]}")
            if not 4 <= a[-1][1] <= 65535: bad.append(f"{op} for {a[-1][1]}")
    return bad, instrs, lab

def size(instrs, lab):
    """Upper bound on the number of executed instructions (nested loops with immediate counts)."""
    init = {}; n = len(instrs); w = [1] * n
    for pc, (op, a) in enumerate(instrs):
        if op == "move" and a[0][0] == "I": init[a[1][1]] = a[0][1]
        if op == "loop" and a[1][1] in lab:
            for k in range(lab[a[1][1]], pc + 1): w[k] *= max(1, init.get(a[0][1], 1))
    return sum(w)

def build(fam, top, rig, reps):
    if fam == "labels":      # conditionals take their timing from the compiler
        from quantify_scheduler import Schedule
        from quantify_scheduler.resources import ClockResource
        from quantify_scheduler.operations.control_flow_library import ConditionalOperation
        s = Schedule("top", repetitions=reps)
        for k, f in rig["clocks"].items(): s.add_resource(ClockResource(k, f))
        for n in top:
            if n["k"] == "cond": s.add(ConditionalOperation(body=S.build(n["body"]), qubit_name=n["label"]))
            else: s.add(S.build(n))
        return s
    return S.build(qb.with_clocks(top, rig, reps))

def run_job(job, mon):
    r = rng_for("Q06", job["seed"], job["fam"], job["i"])
    rig, top, reps, fits = GEN[job["fam"]](r); fam = job["fam"]
    err = comp = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try: comp = qb.compile_schedule(build(fam, top, rig, reps), qb.config(rig))
        except Exception as e: err = e
    mon.count("fits", fits is True); mon.count("exceeds", fits is False); mon.count(fam)
    if err is not None:
        mon.count("refused")
        if fits: raise Violation(f"refused-{fam}", f"{type(err).__name__}: {str(err)[:600]}")
        return
    warned = any("exceeds the maximum supported number" in str(w.message) for w in ws)
    mon.count("warned", warned)
    if fits is False: raise Violation(f"accepted-{fam}", f"compiled although it exceeds the hardware: {job}")
    seqs = qb.sequencers(comp); total = 0
    per = {}
    for slot, name, st in seqs:
        mt = rig["modules"][slot]; seq = st.sequence
        bad, instrs, lab = static(seq, mt, warned)
        if bad: raise Violation("illegal-program", f"{slot} {name}: {sorted(set(bad))[:8]}\n" + seq["program"][:1500])
        total += len(instrs); mon.count("sequencers"); per.setdefault(slot, set()).add(name)
        if size(instrs, lab) < 200000:
            try: run = q1sim.run(seq, max_steps=400000)
            except q1sim.SimError as e: raise Violation("program-does-not-run", f"{slot} {name}: {e}\n" + seq["program"][:2500])
            lim = [m for m in run.limits if not m.startswith("parameters never applied")]
            if lim: raise Violation("illegal-step", f"{slot} {name}: {lim[:6]}\n" + seq["program"][:2500])
            mon.count("simulated")
            if run.maxreg > 63: raise Violation("register", run.maxreg)
    for slot, names in per.items():
        n = {"QRC": 12, "QTM": 8}.get(rig["modules"][slot], 6)
        if len(names) > n or any(int(x[3:]) >= n for x in names): raise Violation("too-many-sequencers", f"{rig['modules'][slot]}: {sorted(names)}")
    mon.count("instructions", total)
    if fam == "chaos": mon.count("chaos-accepted")
    if not (warned and any(len(q1sim.parse(st.sequence["program"])[0]) > 16384 for _, _, st in seqs)):
        cl, cc, ic = qic.rack()
        if fam == 'freq' and not rig['static']: return
        try: ic.prepare(comp)
        except Exception as e: raise Violation("not-loadable", f"{fam}: {type(e).__name__}: {str(e)[-1500:]}")
        mon.count("loaded")
    mon.case((fam, str(rig["modules"]), comp.name, total, job["i"]), bool(total))
