"""Q09: digital lines and RF switches of executed programs vs. the schedule."""
import math
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb, q1sim

LEVEL = "exploration"
RULE = ("A case is a random schedule on a random Qblox cluster, compiled by the real backend and executed by the program monitor in every repetition. Family 'line': digital pulses on markers of QCM, QRM, QCM-RF, QRM-RF "
        "and QRC modules and on QTM outputs (with fine delays), RF switch toggles and analog pulses next to them, in loops, nested schedules and conditionals (taken and not taken), some lasting across whole loops; the level of "
        "every line is compared edge by edge with the union of the scheduled pulses, and all other bits with their default. Family 'auto': microwave pulses with automatic RF switching; the switch is compared "
        "nanosecond by nanosecond with the must-be-on and must-be-off times following from the pulses and the buffer. Non-trivial: at least one edge; distinct by schedule and hardware description.")
ASSUMPTIONS = ["the Q1ASM interpreter in rtmon/q1sim.py follows the vendor's instruction documentation", "edges are at least 4 ns apart (20 ns with fine delays)",
               "schedules whose automatic toggles cannot be placed (at the very end of a schedule or less than 4 ns from another instruction) may be refused"]
MINIMUM = {"auto-single": 30, "edges": 3000, "lines": 300, "bits-held": 300, "fine": 30, "rf-lines": 40, "across-block": 30, "conds": 15, "abutting": 20, "qtm-lines": 30, "qrc-lines": 5,
           "auto": 80, "auto-windows": 200, "auto-merged": 40, "auto-blocks": 40, "auto-crossed": 10, "auto-ns-on": 20000, "auto-ns-off": 20000, "auto-conds": 10, "auto-gates": 20}
JOB_LIMIT_S = 60

LINES = {"QCM": {f"digital_output_{k}": 1 << k for k in range(4)}, "QRM": {f"digital_output_{k}": 1 << k for k in range(4)},
         "QCM_RF": {"digital_output_0": 8, "digital_output_1": 4}, "QRM_RF": {"digital_output_0": 4, "digital_output_1": 8}, "QRC": {"digital_output_0": 1}}
SWITCH = {"QCM_RF": {"complex_output_0": 1, "complex_output_1": 2}, "QRM_RF": {"complex_output_0": 2}}

def jobs(tier, seed):
    n = 300 if tier == "quick" else 12000
    return [dict(f="line" if i % 2 == 0 else "auto", i=i, seed=seed) for i in range(2 * n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

def run_job(job, mon):
    r = rng_for("Q09", job["seed"], job["i"])
    (line if job["f"] == "line" else auto)(r, mon)

# ------------------------------------------------------------------ digital lines
def feedback(r, rig):
    """A channel on a QRM (or QRM-RF) that measures with a trigger label; returns the operation or None."""
    for c in rig["chans"]:
        if c["inp"] and c["mtype"] in ("QRM", "QRM_RF") and c["cplx"]:
            L = r.choice([100, 200, 300])
            n = S.OP("ThresholdedAcquisition", L, port=c.port, clock=c.clock, duration=S.ns(L), acq_channel=0, feedback_trigger_label="lab")
            n["fb"] = True
            return n

class Lines:
    """Schedules of digital pulses. A line is dict(port, clock, kind mrk|dig|rf, slot, cname, bit, fine)."""
    def __init__(self, r, rig, lines, mon):
        self.r, self.rig, self.lines, self.mon = r, rig, lines, mon
        self.free = set(range(len(lines)))      # lines not held by a pulse around the current block

    def op(self, li, d):
        l, r = self.lines[li], self.r
        kw = dict(duration=S.ns(d), port=l["port"])
        if l["kind"] == "rf": n = S.OP("RFSwitchToggle", d, clock=l["clock"], **kw)
        else:
            if l["clock"] != "digital": kw["clock"] = l["clock"]
            n = S.OP("MarkerPulse", d, **kw)
            if l["kind"] == "dig" and l["fine"]:
                fs, fe = (r.choice([0, r.randint(0, 128 * 12)]) for _ in range(2))
                n["kw"].update(fine_start_delay=fs / 128e9, fine_end_delay=fe / 128e9); n["fs"], n["fe"] = fs, fe
            elif l["kind"] == "mrk" and r.random() < 0.25 and d > 20:
                n["kw"]["t0"] = S.ns(n.setdefault("t0", r.randint(4, 12))); n["kw"]["duration"] = S.ns(d - n["t0"])
        n["line"] = li
        return n

    def gap(self, li): return 24 if self.lines[li]["fine"] else 4

    def fill(self, items, t0, t1):
        for li in sorted(self.free):
            g = self.gap(li); r = self.r; t = t0 + g + r.choice([0, 0, r.randint(0, 60)])
            if r.random() < 0.25: continue
            while t < t1 - 3 * g:
                d = min(t1 - g - t, r.choice([g, g + 1, r.randint(g, 60), r.randint(g, 400), r.randint(g, 3000)]))
                if d < g: break
                n = self.op(li, d); items.append((t, n)); t += d
                if r.random() < 0.2 and "t0" not in n and not self.lines[li]["fine"]:
                    if t + 2 * g <= t1:
                        e = min(r.randint(g, 80), t1 - g - t)
                        if e >= g: items.append((t, self.op(li, e))); items[-1][1].pop("t0", None); items[-1][1]["kw"].pop("t0", None); items[-1][1]["kw"]["duration"] = S.ns(e); t += e; self.mon.count("abutting")
                t += r.randint(g, r.choice([10, 100, 500]) + g)
        rf = {l["port"] for l in self.lines if l["kind"] == "rf"}
        for c in self.rig["chans"]:
            if c["port"] in rf: continue
            r = self.r; t = t0 + r.randint(4, 80)
            if r.random() < 0.5: continue
            while t + 30 < t1:
                d = min(r.choice([r.randint(4, 99), r.randint(4, 300)]), t1 - t - 8)
                if d < 4: break
                items.append((t, S.OP("SquarePulse", d, amp=0.1, duration=S.ns(d), port=c.port, clock=c.clock))); t += d + r.randint(4, 300)

    def frame(self, length, depth, cond=None):
        r = self.r; items = [(0, S.IDLE(length))]; t = 4
        if cond is not None:
            items.append((t, cond)); items.append((t, S.IDLE(8)))
            tc = t + cond["dur"] + 400 + r.randint(0, 100)
            if tc + 200 < length:
                self.fill(items, t + 12, tc - 4)
                b = r.randint(60, min(800, length - tc - 60)); hb = 4 + r.choice([0, 4, 40])
                body = self.frame(b, depth)
                node = S.COND(body, "lab", hb); node["dur"] = b + hb; items.append((tc, node)); self.mon.count("conds")
                t = tc + b + hb + r.choice([4, 30])
            else: items.pop(); items.pop(); cond = None
        while t < length - 40:
            room = length - t
            if depth > 0 and room > 120 and r.random() < 0.5:
                n = r.choice([0, 1, 2, 3, 4]); pre = r.choice([0, 24 + r.randint(4, 60)])
                b = r.randint(40, max(40, min(700, (room - 2 * pre - 60) // max(1, n))))
                tot = b * max(1, n)
                if pre * 2 + tot + 8 > room: t += 20; continue
                held = []
                if pre:
                    for li in sorted(self.free):
                        if r.random() < 0.4: held.append(li)
                s0 = t
                for li in held:
                    g = self.gap(li)
                    a, e = s0 + r.randint(0, pre - g), s0 + pre + tot + r.randint(g, pre)
                    nn = self.op(li, e - a); items.append((a, nn)); self.mon.count("across-block")
                old = self.free; self.free = self.free - set(held)
                body = self.frame(b, depth - 1)
                self.free = old
                node = body if n == 0 else S.LOOP(S.LOOP(body, n // 2), 2) if n and n % 2 == 0 and r.random() < 0.4 else S.LOOP(body, n); node["dur"] = tot
                items.append((s0 + pre, node)); t = s0 + 2 * pre + tot + r.choice([28, 30, r.randint(28, 80)])
            else:
                w = min(room, r.randint(60, 1500))
                self.fill(items, t, t + w - 4); t += w
        head, rest = items[0], items[1:]
        r.shuffle(rest)
        its = [S.ITEM(head[1])] + [S.ITEM(n, S.CON(ref=0, pt="start", rel=tt)) for tt, n in rest]
        return dict(S.SCHED(its, name=f"f{r.randrange(10**6)}"), dur=length)

def line(r, mon):
    mts = [r.choice(qb.MTYPES + ["QRC"]) for _ in range(r.randint(1, 2))]
    rig = qb.make_rig(r, mtypes=mts, multi_clock=False, lo_ok=False)
    rig["mdesc"] = {}; rig["digital"] = []; lines = []
    onoff = {}
    for slot, mt in rig["modules"].items():
        if mt in SWITCH:
            onoff[slot] = r.random() < 0.5
            if not onoff[slot] or r.random() < 0.5: rig["mdesc"][slot] = {"rf_output_on": onoff[slot]}
        names = sorted(LINES[mt]); nseq = sum(c["slot"] == slot for c in rig["chans"])
        for dn in r.sample(names, r.randint(0 if lines else 1, min(len(names), 6 - nseq))):
            port = f"m{slot}:{dn[-1]}x"; clock = "digital"
            if r.random() < 0.2: clock = f"m{slot}.{dn[-1]}"; rig["clocks"][clock] = 1e9
            rig["digital"].append((slot, dn, port)); lines.append(dict(port=port, clock=clock, kind="mrk", slot=slot, cname=dn, bit=LINES[mt][dn], fine=False))
        if mt in SWITCH and not onoff[slot]:
            for c in rig["chans"]:
                if c["slot"] == slot and r.random() < 0.8: lines.append(dict(port=c.port, clock=c.clock, kind="rf", slot=slot, cname=c["cname"], bit=SWITCH[mt][c["cname"]], fine=False)); mon.count("rf-lines")
    if r.random() < 0.4:
        slot = r.choice([s for s in range(1, 21) if s not in rig["modules"]]); rig["modules"][slot] = "QTM"
        for k in r.sample(range(8), r.randint(1, 3)):
            dn, port = f"digital_output_{k}", f"t{slot}:{k}"
            rig["digital"].append((slot, dn, port)); lines.append(dict(port=port, clock="digital", kind="dig", slot=slot, cname=dn, bit=None, fine=r.random() < 0.5)); mon.count("qtm-lines")
    if not lines: return
    lat = {}
    g = Lines(r, rig, lines, mon)
    total = r.choice([600, 2000, 6000, 70000])
    fb = feedback(r, rig) if r.random() < 0.5 and total >= 2000 else None
    top = g.frame(total, r.randint(0, 3), fb)
    if r.random() < 0.3:
        rig["latency"] = {f"{l['port']}-{l['clock']}": r.choice([-1, 1]) * r.randint(0, 100) for l in lines if l["kind"] != "rf" and r.random() < 0.6}
    top = qb.with_clocks(top, rig, r.randint(1, 3))
    comp = qb.compile_schedule(S.build(top), qb.config(rig))
    hascond = any(n.get("fb") for _, n, _, _ in S.flatten(top))
    for force in ([True, False] if hascond else [None]): judge_lines(rig, lines, top, comp, onoff, force, mon)
    mon.case(repr((S.describe(top), qb.hwcfg(rig))), True)

def steps(run, get):
    """[(time, value)] of a latched parameter, only changes."""
    out = []
    for e in run.events:
        if e.kind == "latch_rst": continue
        v = get(e.st)
        if not out or out[-1][1] != v:
            if out and out[-1][0] == e.t: out.pop()
            if not out or out[-1][1] != v: out.append((e.t, v))
    return out

def judge_lines(rig, lines, top, comp, onoff, force, mon):
    flat = [x for x in S.flatten(top) if force is not False or not x[3]]
    D, reps = int(S.duration(top)), top["reps"]
    used = {n["line"] for _, n, _, _ in S.flatten(top) if "line" in n}
    seqs = qb.sequencers(comp)
    f = None if force is None else (lambda n, mask, oper, t: force != bool(oper & 1))
    found = set()
    base = min(list(rig["latency"].values()) + [0]) if rig["latency"] else 0
    for slot, name, st in seqs:
        mt = rig["modules"][slot]
        mine = [li for li, l in enumerate(lines) if l["slot"] == slot and l["cname"] == st.channel_name]
        li = mine[0] if mine else None
        run = q1sim.run(st.sequence, force=f)
        if len(run.reps) != reps: raise Violation("repetitions", f"{slot}/{name}: {len(run.reps)} instead of {reps}")
        over = (run.end - run.reps[0]) / reps - D
        if over < 0 or over > 64 or over != int(over): raise Violation("period", f"{slot}/{name}: one repetition takes {D + over} ns for a schedule of {D} ns")
        over = int(over)
        what = f"module {slot} {mt} {st.channel_name} ({name}, conditions {force})"
        edges = []      # expected changes of the own line: (time in repetition in 1/128 ns, level)
        if li is not None and li in used:
            found.add(li); l = lines[li]; mon.count("lines")
            if mt == "QRC": mon.count("qrc-lines")
            iv = []
            for t, n, _, _ in flat:
                if n.get("line") == li:
                    if n.get("fs") is not None: mon.count("fine")
                    iv.append(((int(t) + n.get("t0", 0)) * 128 + n.get("fs", 0), (int(t) + n["dur"]) * 128 + n.get("fe", 0)))
            iv.sort(); mer = []
            for a, b in iv:
                if mer and a <= mer[-1][1]: mer[-1] = (mer[-1][0], max(b, mer[-1][1]))
                else: mer.append((a, b))
            edges = [x for a, b in mer for x in ((a, 1), (b, 0))]
        want = [((t0 + over) * 128 + t, v) for t0 in run.reps for t, v in edges]
        if mt == "QTM":
            got = [(t * 128 + fine, v) for t, (v, fine) in changes_dig(run)]
            if any(e.st.mrk for e in run.events): raise Violation("marker-on-timetag", what)
        else:
            bit = lines[li]["bit"] if li is not None else 0
            got = [(t * 128, 1 if v else 0) for t, v in steps(run, lambda s: s.mrk & bit)]
            if got and got[0][1] == 0: got = got[1:]
            # all other bits keep their default value
            sw = 0
            for b in SWITCH.get(mt, {}).values(): sw |= b
            other = {e.st.mrk & ~bit for e in run.events if e.kind != "latch_rst"}
            default = 0
            if mt in SWITCH and onoff.get(slot): default = SWITCH[mt].get(st.channel_name, sw)
            if other - {default & ~bit}: raise Violation("other-line-disturbed", f"{what}: bits {[bin(x) for x in sorted(other)]} besides own bit {bin(bit)}, default {bin(default)}\n{st.sequence['program'][:1500]}")
            if mt in SWITCH and onoff.get(slot) and li is None and default == 0: raise Violation("internal", what)
            mon.count("bits-held", len(run.events))
        mon.count("edges", len(want))
        if got != want:
            k = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
            z = lambda x: f"{x[0] / 128 - run.reps[0] - over:.3f} ns -> {x[1]}" if x else None
            raise Violation("wrong-level", f"{what}: change {k} of {len(want)}: line {z(got[k]) if k < len(got) else None}, scheduled {z(want[k]) if k < len(want) else None} (total {len(got)}), period {D}+{over}\n" + st.sequence["program"][-2500:])
    if used - found: raise Violation("line-not-played", [lines[i] for i in used - found])
    # relative start of all sequencers
    starts = {}
    for slot, name, st in seqs:
        pcs = [f"{l['port']}-{l['clock']}" for l in lines if l["slot"] == slot and l["cname"] == st.channel_name] + [c.pc for c in rig["chans"] if c["slot"] == slot and c["cname"] == st.channel_name]
        lt = next((rig["latency"][p] for p in pcs if p in rig["latency"]), 0)
        starts[(slot, name)] = q1sim.run(st.sequence, force=f).reps[0] - lt
    if len(set(starts.values())) > 1: raise Violation("latency-correction", starts)

def changes_dig(run):
    """Level changes of a digital output: the fine delay belongs to the instruction that makes the change."""
    out = []; level = 0
    for e in run.events:
        if e.kind == "latch_rst" or not e.chg: continue
        last = [p for p in e.chg if p[0] == "dig"]
        if last and last[-1][1] != level: level = last[-1][1]; out.append((e.t, (level, last[-1][2])))
    return out

# ------------------------------------------------------------------ automatic RF switching
class Auto:
    """Frames of microwave pulses; margins keep automatic toggles away from the places where they cannot be put."""
    def __init__(self, r, rig, buf, mon): self.r, self.rig, self.buf, self.mon = r, rig, buf, mon

    def pulse(self, c, d):
        r = self.r
        x = r.random()
        if x < 0.4: n = S.OP("SquarePulse", d, amp=0.2, duration=S.ns(d), port=c.port, clock=c.clock)
        elif x < 0.8 or d < 8: n = S.OP("GaussPulse", d, G_amp=0.2, phase=0, duration=S.ns(d), port=c.port, clock=c.clock)
        else: n = S.OP("RampPulse", d, amp=0.1, duration=S.ns(d), port=c.port, clock=c.clock)
        n["pc"] = c.pc
        return n

    def fill(self, items, t0, t1):
        r, B = self.r, self.buf
        for c in self.rig["chans"]:
            t = t0 + r.choice([0, B, r.randint(0, 3 * B + 20)])
            if r.random() < 0.15: continue
            while t < t1 - 10:
                d = min(t1 - t, r.choice([r.randint(4, 60), r.randint(4, 99), r.randint(100, 800)]))
                if d < 4: break
                if d >= 100 and r.random() < 0.5: d = r.randint(4, 99)
                items.append((t, self.pulse(c, d)))
                k = r.choice([0, r.randint(4, 2 * B + 4), 2 * B, 2 * B + 4, 2 * B + 5, r.randint(2 * B + 4, 4 * B + 100), r.randint(2 * B + 8, 2 * B + 600)])
                if 2 * B < k < 2 * B + 4: k = 2 * B + 4
                t += max(4, d) + k

    def frame(self, length, depth, fb=None):
        r, B = self.r, self.buf; items = [(0, S.IDLE(length))]; t = r.choice([0, B, B + 4, B + 50])
        end = length - r.choice([B + 8, B + 8, B + 40, 8])
        if fb is not None:
            items.append((4, fb)); items.append((4, S.IDLE(8))); tc = 4 + fb["dur"] + 364 + r.randint(40, 200)
            if tc + 300 < end:
                self.fill(items, 16, tc - r.choice([8, B + 8, 2 * B + 12]))
                b = r.randint(40, 300); hb = 4 + r.choice([0, 40])
                node = S.COND(self.frame(b, depth), "lab", hb); node["dur"] = b + hb; items.append((tc, node)); self.mon.count("auto-conds")
                t = tc + b + hb + r.choice([8, B + 8, 2 * B + 40])
            else: items.pop(); items.pop()
        while t < end - 20:
            room = end - t
            if depth > 0 and room > 150 and r.random() < 0.55:
                n = r.choice([0, 1, 2, 3]); b = r.randint(40, max(40, min(900, (room - 40) // max(1, n)))); tot = b * max(1, n)
                if tot + 16 > room: t += 16; continue
                body = self.frame(b, depth - 1)
                if n and r.random() < 0.2: body = self.pulse(r.choice(self.rig["chans"]), b); self.mon.count("auto-single")
                node = body if n == 0 else S.LOOP(S.LOOP(body, n // 2), 2) if n % 2 == 0 and r.random() < 0.4 else S.LOOP(body, n); node["dur"] = tot
                items.append((t, node)); self.mon.count("auto-blocks")
                t += tot + r.choice([8, B + 8, 2 * B + 4, 2 * B + 40, r.randint(8, 300)])
            else:
                w = min(room, r.randint(40, 1200)); self.fill(items, t, t + w); t += w + r.choice([8, B + 4, 2 * B + 8, r.randint(8, 4 * B + 60)])
        head, rest = items[0], items[1:]
        r.shuffle(rest)
        its = [S.ITEM(head[1])] + [S.ITEM(n, S.CON(ref=0, pt="start", rel=tt)) for tt, n in rest]
        return dict(S.SCHED(its, name=f"f{r.randrange(10**6)}"), dur=length)

def blocks(node, t=0):
    """(start, end of the first pass of the body, end) of every loop and conditional, all in first passes, and those in later passes of outer loops."""
    k = node["k"]
    if k == "sched":
        for it, a in zip(node["items"], S.starts(node)): yield from blocks(it["node"], t + int(a))
    elif k == "loop":
        b = int(S.duration(node["body"])); yield (t, t + b, t + b * node["n"])
        for i in range(node["n"]): yield from blocks(node["body"], t + i * b)
    elif k == "cond":
        b = int(S.duration(node["body"])); yield (t, t + b, t + int(S.duration(node)))
        yield from blocks(node["body"], t)

def merge(iv, gap):
    out = []
    for a, b in sorted(iv):
        if out and a - out[-1][1] <= gap: out[-1][1] = max(out[-1][1], b)
        else: out.append([a, b])
    return out

def auto(r, mon):
    mts = [r.choice(["QCM_RF", "QCM_RF", "QRM_RF"]) for _ in range(r.randint(1, 2))]
    rig = qb.make_rig(r, mtypes=mts, multi_clock=r.random() < 0.3, version="0.2")
    for c in rig["chans"]: c["port"] = c["port"].split(":")[0] + ":mw"; c["inp"] = c["inp"] if c["inp"] and r.random() < 0.7 else None
    seen = set(); rig["chans"] = [c for c in rig["chans"] if not (c.pc in seen or seen.add(c.pc))]
    rig["mdesc"] = {s: {"rf_output_on": False} for s in rig["modules"]}
    buf = r.choice([0, 4, 8, 20, 20, 100])
    reps = r.randint(1, 3)
    g = Auto(r, rig, buf, mon)
    total = r.choice([600, 2000, 5000])
    fb = None
    if r.random() < 0.4 and total > 600:
        fb = feedback(r, rig)
        if fb: fb["pc"] = None
    top = qb.with_clocks(g.frame(total, r.randint(0, 3), fb), rig, reps)
    hw = qb.hwcfg(rig); hw["compiler_options"] = {"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": S.ns(buf)}
    from quantify_scheduler import QuantumDevice
    qd = QuantumDevice("qd"); qd.hardware_config(hw)
    cfg = qd.generate_compilation_config()
    sched = S.build(top); before = repr(S.build(top))
    try: comp = qb.compile_schedule(sched, cfg)
    except (ValueError, RuntimeError) as e:
        m = str(e)
        if not any(x in m for x in ("too small", "lower than", "Minimum instruction", "before the end", "end of", "time", "timing")): raise
        mon.count("auto-refused"); mon.count(f"auto-refused:{m[:60]}"); return
    mon.count("auto")
    hascond = any(n.get("fb") for _, n, _, _ in S.flatten(top))
    for force in ([True, False] if hascond else [None]): judge_auto(rig, top, comp, buf, force, mon)
    mon.case(repr((S.describe(top), hw)), True)

def judge_auto(rig, top, comp, buf, force, mon):
    D, reps = int(S.duration(top)), top["reps"]
    flat = list(S.flatten(top))
    if not any(n.get("pc") for _, n, _, _ in flat): return
    amap, extra = qb.assign(comp, rig)
    f = None if force is None else (lambda n, mask, oper, t: force != bool(oper & 1))
    blks = sorted(set(blocks(top)))
    for i, c in enumerate(rig["chans"]):
        iv = [(int(t), int(t) + n["dur"]) for t, n, _, _ in flat if n.get("pc") == c.pc]
        played = [(int(t), int(t) + n["dur"]) for t, n, _, cnd in flat if n.get("pc") == c.pc and not (cnd and force is False)]
        if not iv: continue
        slot, name, st = amap[i]; bit = SWITCH[rig["modules"][slot]][c["cname"]]
        run = q1sim.run(st.sequence, force=f)
        if len(run.reps) != reps: raise Violation("repetitions", f"{c.pc}")
        over = int((run.end - run.reps[0]) / reps - D)
        # must be on
        on = np.zeros(D, bool)
        for a, b in played: on[max(0, a - buf):min(D, b + buf)] = True
        # may be on: merged windows, and blocks that a window reaches across, until nothing changes
        w = list(iv); crossed = set()
        while True:
            win = merge(w, 2 * buf)
            new = [b for b in blks if b not in crossed and any(a - buf < b[2] and e + buf > b[0] and not (max(0, a - buf) >= b[0] + 4 and e + buf <= b[1] - 4) and not (b[2] > b[1] and inside_later(a - buf, e + buf, b)) for a, e in win)]
            if not new: break
            crossed |= set(new); w += [(b[0], b[2]) for b in new]
        may = np.zeros(D, bool)
        for a, e in win: may[max(0, a - buf):min(D, e + buf)] = True
        got = np.zeros(D, bool)
        stp = steps(run, lambda s: bool(s.mrk & bit))
        wrong = {e.st.mrk & ~bit for e in run.events if e.kind != "latch_rst"} - {0}
        if wrong: raise Violation("other-switch", f"{c.pc}: {wrong}")
        mon.count("auto-windows", len(merge(played, 2 * buf))); mon.count("auto-crossed", len(crossed)); mon.count("auto-merged", len(iv) - len(merge(iv, 2 * buf)))
        if c["inp"]: mon.count("auto-gates")
        for k, t0 in enumerate(run.reps):
            a0 = t0 + over; got[:] = False
            for j, (t, v) in enumerate(stp):
                e = stp[j + 1][0] if j + 1 < len(stp) else run.end
                if v and e > a0 and t < a0 + D: got[max(0, t - a0):min(D, e - a0)] = True
            bad = (on & ~got) | (~may & got)
            mon.count("auto-ns-on", int(on.sum())); mon.count("auto-ns-off", int((~may).sum()))
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation("switch-off-during-pulse" if on[j] else "switch-on-outside", f"{c.pc} repetition {k} t={j} of {D}, buffer {buf}, conditions {force}: switch {'on' if got[j] else 'off'}; pulses {[x for x in iv if x[0] - 300 < j < x[1] + 300]}; blocks {[b for b in blks if b[0] - 300 < j < b[2] + 300]}; "
                                f"{int(bad.sum())} ns differ\n" + st.sequence["program"][-2500:])
    return

def inside_later(a, e, b):
    """[a, e] lies inside one later pass of the loop b, away from its ends."""
    n = b[1] - b[0]
    k = (a - b[0]) // n
    s = b[0] + k * n
    return k >= 0 and s + n <= b[2] and a >= s + 4 and e <= s + n - 4
