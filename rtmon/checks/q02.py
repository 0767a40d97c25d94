"""Q02: all sequencers of a schedule stay synchronised, whatever path they take."""
import random
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, qcond, qtm, gl

LEVEL = "exploration"
RULE = ("A case is a random schedule (conditional blocks with loops, nested schedules, long pulses, clock operations and acquisitions in them; schedules without conditionals on analog and timetagging modules; gate circuits) compiled and executed "
        "with several outcomes of its conditions: all sequencers must take the same time per repetition, equal to the schedule duration plus one common overhead, whatever the outcomes. Non-trivial: at least two sequencers or a conditional; distinct by schedule and hardware description.")
ASSUMPTIONS = ["the Q1ASM interpreter in rtmon/q1sim.py follows the vendor's instruction documentation; a real-time instruction in a branch not taken lasts the else duration of set_cond", "wait_sync releases all sequencers at once"]
MINIMUM = {"sequencers": 2000, "runs": 4000, "conds": 1500, "cond-runs": 4000, "loops": 300, "repetitions": 3000, "latency": 50, "multi": 300, "qtm": 50, "gate": 40, "long-body": 15}

def jobs(tier, seed):
    n = 800 if tier == "quick" else 40000
    kinds = ["cond", "cond", "cond", "q01", "q03", "qtm", "cond", "gate", "cond", "q04"]
    return [dict(i=i, seed=seed, kind=kinds[i % len(kinds)]) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def make(job):
    k = job["kind"]; sub = dict(i=job["i"], seed=job["seed"] + 7000)
    if k == "cond":
        r = rng_for("Q02", job["seed"], job["i"])
        rig, plan, g, top = qcond.make(r, debug=0.12, qtm=0.15, longbody=0.15)
        if r.random() < 0.3:
            for c in rig["chans"]:
                if r.random() < 0.6: rig["latency"][c.pc] = r.choice([-1, 1]) * r.randint(0, 120)
        return rig, g.counts, top
    if k == "qtm":
        rig, _, g, top = qtm.make(rng_for("Q02qtm", job["seed"], job["i"])); return rig, g.counts, top
    from rtmon.checks import q01, q03, q04
    m = dict(q01=q01, q03=q03, q04=q04)[k].make(sub)
    return m[1], m[2].counts, m[3]

def run_job(job, mon):
    r = rng_for("Q02run", job["seed"], job["i"])
    if job["kind"] == "gate": return gate(job, r, mon)
    rig, counts, top = make(job)
    for k in ("loops", "nested", "conds"): mon.count(k, counts.get(k, 0))
    mon.count(job["kind"])
    if any(b > 65532 for b in bodies(top)): mon.count("long-body")
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    amap, _ = qb.assign(comp, rig)
    lat = {(v[0], v[1]): rig["latency"].get(rig["chans"][i].pc, 0) for i, v in amap.items()}
    judge(comp, lat if rig["latency"] else None, float(S.duration(top)), top["reps"], r, mon)
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), len(amap) > 1 or qcond.has_conditions(top))

def bodies(node):
    if node["k"] == "cond": yield S.duration(node["body"])
    elif node["k"] == "loop": yield from bodies(node["body"])
    elif node["k"] == "sched":
        for i in node["items"]: yield from bodies(i["node"])

def gate(job, r, mon):
    d = gl.device(r, r.randint(1, 4)); reps = r.randint(1, 4)
    cc = gl.Circuit(r, d, {f for f in ("loops", "nested", "conds", "share", "parallel", "measure", "override") if r.random() < 0.6}, safe=True)
    top = cc.top(r.randint(3, 12), r.randint(0, 2), reps)
    qd = gl.realise(d)
    try: comp = qb.compile_schedule(S.build(top), qd.generate_compilation_config())
    except Exception as e:
        if limitation(e): mon.count("refused"); return
        raise
    finally: qd.close()
    mon.count("gate")
    judge(comp, None, comp.duration * 1e9 / reps, reps, r, mon)
    mon.case(repr((S.describe(top), d)), True)

def limitation(e):
    """Refusals of circuits whose pulses are too close together for the sequencers."""
    s = f"{type(e).__name__}: {e}"
    return any(x in s for x in ("NcoOperationTimingError", "cannot be scheduled", "Invalid timing", "Invalid wait time", "labels from previous", "without a preceding", "Only one"))

def judge(comp, lat, D, reps, r, mon):
    if abs(D - round(D)) > 1e-3: return
    D = round(D)
    seqs = qb.sequencers(comp)
    if len(seqs) > 1: mon.count("multi")
    ref = None
    for slot, name, st in seqs:
        who = f"module {slot} {name} ({st.channel_name})"; runs = []
        prog = st.sequence["program"]
        mon.count("sequencers")
        for pat in ([0, 1, 2, 3] if "set_cond" in prog else [0]):
            rr = random.Random(f"{pat}")
            outcome = {}
            def force(n, mask, oper, t):
                k = n // 2
                if k not in outcome: outcome[k] = pat == 1 or (pat >= 2 and rr.random() < 0.5)
                return outcome[k] != bool(oper & 1)
            runs.append(q1sim.run(st.sequence, force=force)); mon.count("runs")
            if outcome: mon.count("cond-runs")
        a = runs[0]
        if not all(x.stopped for x in runs): raise Violation("no-stop", who)
        for x in runs:
            if len(x.reps) != reps: raise Violation("repetitions", f"{who}: {len(x.reps)} repetitions instead of {reps}\n{prog[-2500:]}")
            if (x.reps, x.end) != (a.reps, a.end):
                t = next((f"{u} / {v}" for u, v in zip(a.reps + [a.end], x.reps + [x.end]) if u != v), "")
                raise Violation("condition-changes-timing", f"{who}: repetitions start and end at {t} depending on the outcome of conditions\n{prog[-3500:]}")
        every = {(e.t, e.kind) for e in runs[-1].events} if len(runs) > 1 else set()
        if len(runs) > 1:
            allon = {(e.t, e.kind) for e in runs[1].events}
            late = {(e.t, e.kind) for e in a.events} - allon
            if late: raise Violation("condition-moves-instruction", f"{who}: {sorted(late)[:3]} only without the conditional blocks\n{prog[-3500:]}")
        mon.count("repetitions", reps)
        period = (a.end - a.reps[0]) / reps
        steps = [y - x for x, y in zip(a.reps, a.reps[1:] + [a.end])]
        if any(s != steps[0] for s in steps): raise Violation("uneven-repetitions", f"{who}: {steps[:6]}")
        over = steps[0] - D
        off = (lat or {}).get((slot, name), 0)
        if ref is None: ref = (over, a.reps[0] - off, who)
        if not 0 <= over <= 64: raise Violation("period", f"{who}: one repetition takes {steps[0]} ns, the schedule {D} ns\n{prog[-2500:]}")
        if over != ref[0]: raise Violation("sequencers-drift", f"{who}: repetition of {D + over} ns, {ref[2]}: {D + ref[0]} ns (schedule {D} ns)\n{prog[-2500:]}")
        if a.reps[0] - off != ref[1]: raise Violation("start-offset", f"{who} starts at {a.reps[0]} (latency correction {off}), {ref[2]} at {ref[1]}")
        if off: mon.count("latency")
