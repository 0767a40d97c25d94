"""Q07: conditional blocks are played exactly when the measurement they refer to says so."""
import random
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim, qcond, gl

LEVEL = "exploration"
RULE = ("A case is a random schedule with feedback measurements (integrated, weighted, counted; on analog and timetagging modules) and conditional blocks on several modules, compiled and executed for several random outcome vectors: acquire instructions produce triggers "
        "according to the outcomes and the write settings of their sequencer, triggers travel to all sequencers, set_cond counts those since the last latch reset with the read settings; every conditional block of the schedule must be evaluated at its start time on every sequencer "
        "with an operation in its body and be taken if and only if the latest measurement with its label had the required outcome; the not taken ones must leave no trace and everything else must be unchanged. Invalid uses of conditionals must be refused. "
        "Non-trivial: at least one conditional block evaluated both ways; distinct by schedule and hardware description.")
ASSUMPTIONS = ["trigger network model: every trigger reaches all sequencers between 50 and 364 ns after it is sent; counters count triggers of an address since the last latch_rst and compare (>= count) with optional inversion",
               "a counting QRM sequencer sends one trigger per count, the others one per acquisition at its end", "the Q1ASM interpreter in rtmon/q1sim.py follows the vendor's instruction documentation"]
MINIMUM = {"decisions": 8000, "taken": 2000, "skipped": 2000, "fb-threshold": 400, "fb-weighted": 100, "fb-count": 25, "fb-qthr": 40, "fb-qdual": 60, "wrapped": 100, "several-labels": 60, "body-all-on": 150, "refused-invalid": 40, "gate": 20, "clock-only": 5}

def jobs(tier, seed):
    n = 640 if tier == "quick" else 40000
    kinds = ["cond", "cond", "qtm", "plain", "cond", "gate", "cond", "qtm", "plain", "invalid"]
    return [dict(i=i, seed=seed, kind=kinds[i % len(kinds)]) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def make(job):
    r = rng_for("Q07", job["seed"], job["i"])
    k = job["kind"]
    if k == "plain": return qcond.make(r, feats=("loops", "nested", "long", "offsets", "share"), longbody=0.05)
    if k == "qtm": return qcond.make(r, qtm=1.0, longbody=0.0)
    return qcond.make(r, longbody=0.05, debug=0.1)

def run_job(job, mon):
    r = rng_for("Q07run", job["seed"], job["i"])
    if job["kind"] == "gate": return gate(job, r, mon)
    if job["kind"] == "invalid": return invalid(job, r, mon)
    rig, plan, g, top = make(job)
    for k, v in g.counts.items(): mon.count(k, v)
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    amap, extra = qb.assign(comp, rig)
    D, reps = int(S.duration(top)), top["reps"]
    ex = list(qcond.executed(top))
    labels = {l for _, k, n in ex if k == "fb" for l in n["fb"]}
    if len(labels) > 1: mon.count("several-labels")
    want_conds = [(int(t), n["q"], qcond.touched(n["body"], rig), int(n["dur"])) for t, k, n in ex if k == "cond"]
    for _, _, n in ex:
        if n["k"] == "cond":
            own = {m["ch"] for _, m, _, _ in S.flatten(n["body"]) if "ch" in m}
            if qcond.touched(n["body"], rig) - own: mon.count("clock-only")
    fbs = sorted(((int(t), n) for t, k, n in ex if k == "fb"), key=lambda x: x[0])
    meas = {}
    for t, n in fbs: meas.setdefault(n["ch"], []).append((t, n))
    who = lambda i: f"{rig['chans'][i].pc} (module {amap[i][0]} {amap[i][1]})"
    # where the measurements actually happen
    runs = {i: q1sim.run(v[2].sequence, force=lambda n, mask, oper, t: not oper & 1) for i, v in amap.items()}
    over = {i: int((x.end - x.reps[0]) / reps - D) for i, x in runs.items()}
    acq = {}
    for ci, want in meas.items():
        if ci not in amap: raise Violation("measurement-missing", rig["chans"][ci].pc)
        x = runs[ci]
        got = [[e.t - a - over[ci] for e in x.events if e.kind.startswith("acquire") and a + over[ci] <= e.t < a + over[ci] + D and starts(e)] for a in x.reps]
        for k, times in enumerate(got):
            if times != [t for t, _ in want]: raise Violation("feedback-acquisitions", f"{who(ci)}: repetition {k} measures at {times[:8]}, scheduled {[t for t, _ in want][:8]}")
        acq[ci] = want
    sent = 0
    for vec in range(3):
        rr = random.Random(f"{job['seed']} {job['i']} {vec}")
        p = rr.choice([0.5, 0.5, 0.2, 0.8])
        lat = rr.choice([50, 364, 364, rr.randint(50, 364)])
        triggers = []; truth = {}
        for ci, want in acq.items():
            st = amap[ci][2]; f = plan.fb[ci]; x = runs[ci]
            for k in range(reps):
                base = x.reps[k] + over[ci]
                for t, n in want:
                    res, trig = outcome(rr, p, f, st, x, who(ci))
                    truth[k, t, ci] = res
                    triggers += [(base + t + u + lat, a) for u, a in trig]
        triggers.sort(); sent += len(triggers)
        for i, v in amap.items():
            st = v[2]
            cfg = {a: (1 if s.thresholded_acq_trigger_count is None else s.thresholded_acq_trigger_count, bool(s.thresholded_acq_trigger_invert)) for a, s in st.thresholded_acq_trigger_read_settings.items()}
            if 'set_cond' not in st.sequence["program"]:
                if any(i in c[2] for c in want_conds): raise Violation("condition-missing", f"{who(i)}: no condition in the program\n{st.sequence['program'][-2500:]}")
                continue
            x = q1sim.run(st.sequence, triggers=triggers, trig_cfg=cfg)
            seen = x.conds
            if len(seen) % 2: raise Violation("odd-conditions", who(i))
            want = []; off = []
            for k in range(reps):
                base = x.reps[k] + over[i]
                for tc, label, touch, dur in want_conds:
                    if i not in touch: continue
                    last = max(((t, n) for t, n in fbs if label in n["fb"] and t < tc), key=lambda y: y[0], default=None)
                    ci = last[1]["ch"]
                    need = truth[k, last[0], ci] == label if plan.fb[ci]["kind"] == "qdual" else bool(truth[k, last[0], ci])
                    want.append((base + tc, need, label, last[0], k))
                    if not need: off.append((base + tc, base + tc + dur))
            want.sort(key=lambda w: w[0])
            got = [(seen[j][0], seen[j][3], seen[j + 1][3]) for j in range(0, len(seen), 2)]
            if [w[0] for w in want] != [y[0] for y in got]:
                raise Violation("condition-time", f"{who(i)}: conditions evaluated at {[y[0] - x.reps[0] - over[i] for y in got][:8]}, scheduled {[w[0] - x.reps[0] - over[i] for w in want][:8]}\n{st.sequence['program'][-3000:]}")
            for (t, need, label, tm, k), (_, first, second) in zip(want, got):
                mon.count("decisions"); mon.count("taken" if need else "skipped")
                if first != need or second == first:
                    raise Violation("wrong-decision", f"{who(i)}: repetition {k}, conditional on {label!r} at {t - x.reps[k] - over[i]} ns measured at {tm} ns: body {'played' if first else 'skipped'}{' and else branch too' if first and second else ''}, outcome says {'play' if need else 'skip'}; "
                                    f"read settings {cfg}, triggers {[(a - x.reps[k] - over[i], b) for a, b in triggers if x.reps[k] <= a <= t + 400][-6:]}, resets {[q - x.reps[k] - over[i] for q in x.latch_rsts if x.reps[k] <= q <= t][-4:]}\n" + st.sequence["program"][-3000:])
            on = [(e.t, e.kind, e.arg) for e in runs[i].events if not any(a <= e.t < b for a, b in off)]
            mine = [(e.t, e.kind, e.arg) for e in x.events]
            if on != mine:
                d = sorted(set(map(repr, on)) ^ set(map(repr, mine)))
                raise Violation("conditional-changes-others", f"{who(i)}: {d[:4]} (schedule duration {D}, blocks off {off[:4]})\n{st.sequence['program'][-3000:]}")
    mon.count("triggers", sent)
    if job["kind"] == "plain":
        from rtmon.checks import q01
        for on in (True, False):
            q01.judge(rig, top, Quiet(mon), force=on); mon.count("body-all-on")
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), bool(want_conds))

def starts(e):
    return not (e.kind == "acquire_ttl" and e.arg[2] == 0) and not (e.kind == "acquire_timetags" and e.arg[2] == 0)

def outcome(rr, p, f, st, run, who):
    """Outcome of one measurement and the triggers it sends: [(time after its start, address)]."""
    k = f["kind"]; L = f["L"]
    if k in ("threshold", "weighted"):
        one = rr.random() < p
        if not st.thresholded_acq_trigger_write_en: raise Violation("trigger-not-enabled", f"{who} measures for label {f['label']!r} but sends no trigger")
        return one, ([(L, st.thresholded_acq_trigger_write_address)] if one != bool(st.thresholded_acq_trigger_write_invert) else [])
    ts = f["n"]; hi = f.get("hi", ts)
    c = rr.choice([0, ts - 1, ts, ts + 1, hi, max(hi - 1, 0), hi + 1, rr.randint(0, hi + 4)])
    res = (c >= ts) == (f["cond"] == "greater_than_equal_to")
    if k == "count":
        if not st.thresholded_acq_trigger_write_en: raise Violation("trigger-not-enabled", f"{who} counts for label {f['label']!r} but sends no trigger")
        return res, [(rr.randint(0, max(L - 5, 0)), st.thresholded_acq_trigger_write_address) for _ in range(c)]
    inval = k == "qdual" and rr.random() < 0.15
    if not st.thresholded_acq_trigger_write_en: raise Violation("trigger-not-enabled", f"{who} counts for labels {f['labels'] or f['label']!r} but sends no trigger")
    if set(run.thres) != {0, 1}: raise Violation("thresholds-not-set", f"{who}: {run.thres}")
    addr = st.thresholded_acq_trigger_write_address_invalid if inval else st.thresholded_acq_trigger_write_address_low if c < run.thres[0] else st.thresholded_acq_trigger_write_address_high if c >= run.thres[1] else st.thresholded_acq_trigger_write_address_mid
    trig = [(L, addr)] if addr else []
    if k == "qthr": return res, trig
    cls = "invalid" if inval else "low" if c < f["lo"] else "high" if c >= f["hi"] else "mid"
    return f["labels"].get(cls), trig

class Quiet:
    def __init__(self, mon): self.mon = mon
    def count(self, k, n=1): self.mon.count("signal-" + k, n)
    def case(self, *a): pass

def gate(job, r, mon):
    """Gate level: Measure with a label or ConditionalReset on transmons; the microwave pulses follow the measured state."""
    d = gl.device(r, r.randint(1, 4), edges=False)
    for p in d["q"].values():          # the readout pulse does not end where the acquisition starts
        if p["acq_delay"] == p["ro_dur"] - 4: p["acq_delay"] += 8
    qd = gl.realise(d); reps = r.randint(1, 3)
    from quantify_scheduler.qblox.operations import ConditionalReset
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.gate_library import X, Y, Measure
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    s = Schedule("gate", repetitions=reps); names = list(d["q"]); plan = []
    nacq = {q: 0 for q in names}
    def block(q):
        sub = Schedule(f"blk{r.randrange(10**6)}")
        if r.random() < 0.4: sub.add(ConditionalReset(q)); tgt = [q]
        else:
            sub.add(Measure(q, acq_protocol="ThresholdedAcquisition", feedback_trigger_label=q))
            tgt = r.sample(names, r.randint(1, len(names))); body = Schedule(f"bd{r.randrange(10**6)}")
            for x in tgt: body.add(r.choice([X, Y])(x), rel_time=4e-9 * r.randint(0, 5))
            sub.add(ConditionalOperation(body=body, qubit_name=q), rel_time=364e-9 + 4e-9 * r.choice([0, 0, r.randint(0, 100)]))
        sub.add(libidle(8))
        return sub, tgt
    def libidle(n):
        from quantify_scheduler.operations.pulse_library import IdlePulse
        return IdlePulse(n * 1e-9)
    for _ in range(r.randint(1, 5)):
        q = r.choice(names); sub, tgt = block(q); n = r.choice([1, 1, 2, 3])
        s.add(libidle(4 * r.randint(2, 60)))
        s.add(LoopOperation(body=sub, repetitions=n) if n > 1 or r.random() < 0.2 else sub)
        plan += [(q, tgt)] * n
    s.add(libidle(400))
    for a in d["acq"].values(): pass
    try: comp = qb.compile_schedule(s, qd.generate_compilation_config())
    finally: qd.close()
    mon.count("gate")
    seqs = qb.sequencers(comp)
    acqs = []   # (time, address, L) of measurements, from all sequencers with triggers enabled
    runs = {(a, b): q1sim.run(st.sequence, force=lambda n, mask, oper, t: not oper & 1) for a, b, st in seqs}
    addr_of = {}
    for a, b, st in seqs:
        if not getattr(st, "thresholded_acq_trigger_write_en", None): continue
        for e in runs[a, b].events:
            if e.kind == "acquire": acqs.append((e.t, st.thresholded_acq_trigger_write_address, st.integration_length_acq))
    acqs.sort()
    if len(acqs) != len(plan) * reps: raise Violation("feedback-acquisitions", f"{len(acqs)} triggering acquisitions instead of {len(plan) * reps}")
    full = plan * reps
    for (t, ad, L), (q, _) in zip(acqs, full): addr_of.setdefault(q, set()).add(ad)
    if any(len(v) != 1 for v in addr_of.values()) or len({min(v) for v in addr_of.values()}) != len(addr_of): raise Violation("trigger-address", f"{addr_of}")
    out = [r.random() < 0.5 for _ in full]
    trig = sorted((t + L + r.choice([50, 300, 364]), ad) for (t, ad, L), o in zip(acqs, out) if o)
    for a, b, st in seqs:
        if "set_cond" not in st.sequence["program"]: continue
        cfg = {x: (s_.thresholded_acq_trigger_count or 1, bool(s_.thresholded_acq_trigger_invert)) for x, s_ in st.thresholded_acq_trigger_read_settings.items()}
        x = q1sim.run(st.sequence, triggers=trig, trig_cfg=cfg)
        got = [c[3] for c in x.conds][::2]
        c = [q for q in names if any(f"{q}:mw" in e and f"module{a}." in e and e.endswith("") for e in [])]
        port = next(p for m, p in d["hw"]["connectivity"]["graph"] if m == f"cluster0.module{a}.{st.channel_name}")
        mine = port.split(":")[0]
        want = [o for (q, tgt), o in zip(full, out) if mine in tgt]
        if got != want: raise Violation("wrong-decision", f"{port}: {got} instead of {want} for {full}")
        mon.count("decisions", len(want)); mon.count("taken", sum(want)); mon.count("skipped", len(want) - sum(want))
        plays = sum(1 for e in x.events if e.kind == "play"); should = sum(tgt.count(mine) for (q, tgt), o in zip(full, out) if o)
        if plays != should: raise Violation("conditional-pulses", f"{port}: {plays} pulses instead of {should}")
    mon.case(repr((d, plan)), True)

def invalid(job, r, mon):
    """Uses of conditionals that cannot be executed must be refused."""
    rig = qb.make_rig(r, mtypes=[r.choice(["QRM", "QRM_RF"]), r.choice(["QCM", "QCM_RF"])])
    ms = [c for c in rig["chans"] if c["inp"]]
    if not ms: return
    c = r.choice(ms); o = r.choice(rig["chans"])
    def fb(label, chan="a", dur=100):
        return S.OP("ThresholdedAcquisition", dur, duration=S.ns(dur), port=c.port, clock=c.clock, acq_channel=chan, acq_rotation=0, acq_threshold=0.1, feedback_trigger_label=label)
    def pulse(k=o): return S.OP("SquarePulse", 40, amp=0.1, duration=40e-9, port=k.port, clock=k.clock)
    gap = lambda n: S.CON(rel=n)
    I = S.ITEM
    kind = r.choice(["no-measurement", "wrong-label", "used-twice", "before", "nested", "pending", "many"])
    items = [I(S.IDLE(20)), I(pulse(), gap(4))]
    cond = lambda l, body=None: S.COND(body or S.SCHED([I(pulse()), I(S.IDLE(8))], "b"), l, 4)
    if kind == "no-measurement": items += [I(cond("x"), gap(500))]
    elif kind == "wrong-label": items += [I(fb("x"), gap(20)), I(cond("y"), gap(500))]
    elif kind == "used-twice": items += [I(fb("x"), gap(20)), I(cond("x"), gap(500)), I(cond("x"), gap(20))]
    elif kind == "before": items += [I(cond("x"), gap(20)), I(fb("x"), gap(500))]
    elif kind == "nested":
        inner = cond("x") if r.random() < 0.5 else S.SCHED([I(S.IDLE(20)), I(cond("x")), I(S.IDLE(20))], "n")
        items += [I(fb("x"), gap(20)), I(cond("x", S.SCHED([I(S.IDLE(20)), I(inner)], "nn")), gap(500))]
    elif kind == "pending":
        items += [I(fb("x"), gap(20)), I(fb("x" if r.random() < 0.5 else "y"), gap(500)), I(cond("x"), gap(500))]
    elif kind == "many":
        for k in range(16): items += [I(S.OP("ThresholdedAcquisition", 100, duration=100e-9, port=c.port, clock=c.clock, acq_channel="a", acq_rotation=0, acq_threshold=0.1, feedback_trigger_label=f"x{k}"), gap(400)), I(cond(f"x{k}"), gap(500))]
    items.append(I(S.IDLE(400)))
    if kind in ("no-measurement", "before", "wrong-label", "used-twice") and r.random() < 0.4:
        items = [I(S.SCHED(items, "w"))] if r.random() < 0.5 else [I(S.LOOP(S.SCHED(items, "w"), r.randint(1, 3)))]
    top = qb.with_clocks(S.SCHED(items, "inv"), rig, 1)
    valid = S.SCHED([I(S.IDLE(20)), I(pulse(), gap(4)), I(fb("x"), gap(20)), I(cond("x"), gap(500)), I(S.IDLE(400))], "ok")
    qb.compile_schedule(S.build(qb.with_clocks(valid, rig, 1)), qb.config(rig))       # the valid form is accepted
    try: qb.compile_schedule(S.build(top), qb.config(rig))
    except Exception as e: mon.count("refused-invalid"); mon.count("refused-" + kind)
    else: raise Violation("invalid-accepted", f"{kind}: compiled without an error\n{S.describe(top)}")
    mon.case(repr((kind, S.describe(top), qb.hwcfg(rig))), True)
