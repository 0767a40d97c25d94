"""Q01: executed sequencer programs vs. the scheduled waveforms."""
import numpy as np
from rtmon.core import rng_for, Violation, jdump
from rtmon import spec as S, qb, q1sim

LEVEL = "exploration"
RULE = ("A case is a random pulse-level schedule (all library pulses, long pulses, voltage offsets, overlapping pulses, shared objects, loops, nested schedules, latency corrections) on a random "
        "Qblox cluster, compiled by the real backend; the sequencer programs are executed and the output of every sequencer is compared sample by sample in every repetition with the sum "
        "of the scheduled pulses. Non-trivial: at least one sequencer with a pulse; distinct by schedule and hardware description.")
ASSUMPTIONS = ["the Q1ASM interpreter in rtmon/q1sim.py follows the vendor's instruction documentation", "instructions of one sequencer are at least 4 ns apart",
               "amplitude quantisation of 2^-15 per gain or offset"]
MINIMUM = {"near-ends": 100, "samples": 200000, "sequencers": 200, "loops": 50, "nested": 40, "long": 100, "offsets": 60, "overlaps": 20, "shared": 40, "repetitions": 300, "latency": 20, "longsampled": 40}

def jobs(tier, seed):
    n = 900 if tier == "quick" else 40000
    return [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def make(job):
    r = rng_for("Q01", job["seed"], job["i"])
    rig = qb.make_rig(r)
    feat = {"pulses"} | {f for f in ("loops", "nested", "long", "offsets", "share") if r.random() < 0.6}
    if r.random() < 0.3: feat.add("overlap")
    g = qb.Gen(r, rig, feat, total=r.choice([600, 3000, 3000, 12000, 150000 if "long" in feat else 20000]))
    top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.randint(1, 4))
    if r.random() < 0.4:
        for ci in g.used:
            if r.random() < 0.6: rig["latency"][rig["chans"][ci].pc] = r.choice([-1, 1]) * r.randint(0, 120)
    return r, rig, g, top

def run_job(job, mon):
    r, rig, g, top = make(job)
    for k, v in g.counts.items(): mon.count(k, v)
    judge(rig, top, mon)

def judge(rig, top, mon, force=None):
    """force: all conditional blocks are taken (True) or not (False)."""
    sched = S.build(top)
    comp = qb.compile_schedule(sched, qb.config(rig))
    flat = [x for x in S.flatten(top) if force is not False or not x[3]]; D = int(S.duration(top)); reps = top["reps"]
    used = {n["ch"] for _, n, _, _ in S.flatten(top) if "ch" in n}
    if not used: return
    amap, extra = qb.assign(comp, rig)
    if extra: raise Violation("unexpected-sequencer", extra)
    missing = used - set(amap)
    if missing: raise Violation("portclock-not-played", [rig["chans"][i].pc for i in missing])
    lat = {i: rig["latency"].get(rig["chans"][i].pc, 0) for i in amap}
    f = None if force is None else lambda n, mask, oper, t: force != bool(oper & 1)
    runs = {i: q1sim.run(v[2].sequence, force=f) for i, v in amap.items()}
    # latency corrections are relative to the smallest one
    base = min(list(rig["latency"].values()) + [0]) if rig["latency"] else 0
    if rig["latency"]: mon.count("latency")
    t_first = None
    for i, run in runs.items():
        ch = rig["chans"][i]; st = amap[i][2]
        if len(run.reps) != reps: raise Violation("repetitions", f"{ch.pc}: {len(run.reps)} instead of {reps}")
        over = (run.end - run.reps[0]) / reps - D
        if over < 0 or over > 64: raise Violation("period", f"{ch.pc}: one repetition takes {D + over} ns for a schedule of {D} ns")
        over = int(over)
        first = run.reps[0] - lat[i]
        if t_first is None: t_first = (first, ch.pc)
        elif t_first[0] != first: raise Violation("latency-correction", f"{ch.pc} starts at {run.reps[0]} with correction {lat[i]}, {t_first}")
        wfs = {w["index"]: np.asarray(w["data"], float) for w in st.sequence["waveforms"].values()}
        offs = 0j
        y, cnt, offs = qb.expected_envelope(flat, i, D, offs)
        tol = 1.2e-4 * (1 + np.maximum(cnt, 0))
        mon.count("sequencers")
        end0 = complex(st.init_offset_awg_path_I, st.init_offset_awg_path_Q)
        p0, p1 = q1sim.envelope(run, wfs, 0, run.end)
        for k, t0 in enumerate(run.reps):
            a = t0 + over
            got0, got1 = p0[a:a + D], p1[a:a + D]
            mon.count("repetitions"); mon.count("samples", len(got0))
            bad = np.abs(got0 - y.real) > tol
            if ch.cplx: bad |= np.abs(got1 - y.imag) > tol
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation("wrong-output", f"{ch.pc} on module {ch.slot} {ch.mtype} {ch.cname}: repetition {k}, t={j} ns of {D}: played {got0[j]:.6f}{got1[j]:+.6f}j, scheduled {y[j]:.6f}; {int(bad.sum())} samples differ; "
                                f"last differing {int(np.max(np.nonzero(bad)))}\n" + around(flat, i, j) + "\n" + st.sequence["program"][-2500:])
        quiet = np.ones(len(p0), bool)
        for t0 in run.reps: quiet[t0 + over:t0 + over + D] = False
        if np.abs(p0[quiet]).max(initial=0) > 1e-4 or (ch.cplx and np.abs(p1[quiet]).max(initial=0) > 1e-4):
            raise Violation("output-outside-schedule", f"{ch.pc}")
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), True)

def around(flat, i, j):
    near = [(int(t), n["c"], n["dur"], {k: (v if not isinstance(v, list) else "..") for k, v in n["kw"].items()}) for t, n, _, _ in flat if n.get("ch") == i]
    near.sort(key=lambda x: x[0])
    return "\n".join(str(x) for x in near if x[0] <= j + 50 and x[0] + x[2] >= j - 200)[:1500]
