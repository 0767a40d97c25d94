"""V02: circuit diagrams and timing tables, against an independent reading of the schedule."""
import math, re
from collections import Counter
from fractions import Fraction as F
from rtmon.core import rng_for, Violation
from rtmon import spec as S, canon
from rtmon.checks import v01

LEVEL = "exploration"
RULE = ("A circuit case is a schedule of gates, measurements, pulses and acquisitions (parallel tracks, nested schedules, loops of operations, schedules and loops, conditionals, items not in time order, ports of known and of unknown elements) "
        "drawn as a circuit diagram: every operation must be drawn once on the line of each of its device elements ('other' for ports of unknown elements), in the column of its turn, and nothing else. A table case is a pulse-level schedule "
        "whose timing table must list every pulse and acquisition of every iteration, at its time, with its port, clock and duration. Distinct by schedule.")
ASSUMPTIONS = ["the first operation is drawn at 0 and the columns are consecutive integers", "in a circuit diagram every operation lasts one step and the body of a loop is drawn once", "operations without a port are not drawn but take up a column",
               "parallel tracks contain gates only (the steps of tracks with loops or timed pulses are not comparable)"]
MINIMUM = {"glyphs": 12000, "lines": 2000, "other-line": 110, "loops": 700, "loop-of-loop": 60, "conds": 60, "tracks": 1600, "meters": 1400, "two-qubit": 1300, "pulses": 900, "portless": 130, "nested": 3000, "rows": 3000, "iterations": 1200, "untimed": 80}

def jobs(tier, seed):
    n = 2200 if tier == "quick" else 30000
    return [dict(i=i, seed=seed, kind="table" if i % 4 == 3 else "circuit") for i in range(n)]

def cleanup_job():
    import matplotlib.pyplot as plt
    plt.close("all")

GATE1 = ["Rxy", "Rxy", "Rxy", "X", "Y", "X90", "Y90", "Z", "Rz", "H", "S", "T"]

class Circ:
    """Builds spec nodes together with the glyphs that have to appear, as (kind, text, [elements], column)."""
    def __init__(self, r):
        self.r = r; self.q = r.sample(["q0", "q1", "q2", "q3", "qa", "D12"], r.randint(1, 4)); self.n = Counter(); self.gates = 0; self.fb = []
        self.other = ["zz:mw", "zz:fl", "fl0", "m1:res", "q9:mw"] if r.random() < 0.3 else []
        self.loops = []; self.conds = []
    def gate(self):
        r = self.r; self.gates += 1
        x = r.random(); q = r.choice(self.q)
        if x < 0.55:
            k = r.choice(GATE1)
            kw = dict(theta=r.randint(-170, 170), phi=r.randint(0, 350), qubit=q) if k == "Rxy" else dict(theta=r.randint(-170, 170), qubit=q) if k == "Rz" else dict(__args__=(q,)) if k == "H" else dict(qubit=q)
            n = S.OP(k, 1, **kw); el = [q]; kind = "text"
        elif x < 0.75 and len(self.q) > 1:
            a, b = r.sample(self.q, 2); k = r.choice(["CZ", "CNOT"]); n = S.OP(k, 1, qC=a, qT=b); el = [a, b]; kind = k; self.n["two-qubit"] += 1
        elif x < 0.85:
            el = r.sample(self.q, r.randint(1, len(self.q))); n = S.OP("Reset", 1, __args__=tuple(el)); kind = "text"
        else:
            el = r.sample(self.q, r.randint(1, len(self.q))); kw = {}
            if len(el) == 1 and r.random() < 0.6: kw = dict(acq_protocol="ThresholdedAcquisition", feedback_trigger_label=el[0])
            n = S.OP("Measure", 1, __args__=tuple(el), **kw); kind = "meter"; self.n["meters"] += 1
            if kw: self.fb.append(el[0])
        n["glyph"] = (kind, el); return n
    def pulse(self):
        r = self.r; x = r.random()
        port = r.choice(self.other) if self.other and r.random() < 0.5 else r.choice(self.q) + r.choice([":mw", ":fl", ":res"])
        el = port.split(":")[0]; clock = r.choice([{}, dict(clock="c0"), dict(clock="cl0.baseband"), dict(clock=el + ".01")])
        self.n["pulses"] += 1
        if x < 0.5:
            n = S.OP("SquarePulse", 1, amp=0.1, duration=S.ns(r.choice([20, 100, 1000])), port=port, **({"clock": "cl0.baseband"} | clock)); n["glyph"] = ("ptext", [el])
        elif x < 0.7: n = S.OP("DRAGPulse", 1, G_amp=0.1, D_amp=0.1, phase=0, duration=S.ns(20), port=port, clock=clock.get("clock", "c0")); n["glyph"] = ("ptext", [el])
        elif x < 0.85: n = S.OP("SSBIntegrationComplex", 1, port=port, clock=clock.get("clock", "c0"), duration=S.ns(100), acq_channel="a"); n["glyph"] = ("meter", [el]); self.n["meters"] += 1
        else: n = r.choice([S.OP("ShiftClockPhase", 1, phase_shift=20.0, clock="c0"), S.OP("IdlePulse", 1, duration=S.ns(40)), S.OP("SetClockFrequency", 1, clock="c0", clock_freq_new=5e9)]); n["glyph"] = None; self.n["portless"] += 1
        return n
    def emit(self, n, t, out):
        """Glyphs of a node that starts at step t; returns its length in steps."""
        if n["k"] == "op": out.append((t, n)); return 1
        if n["k"] == "sched": return max(s + self.emit(it["node"], t + s, out) for s, it in zip(n["at"], n["items"]))
        mine = []; d = self.emit(n["body"], t, mine); out += mine
        (self.loops if n["k"] == "loop" else self.conds).append((n, min(x for x, _ in mine), max(x for x, _ in mine)))
        return d
    def length(self, n):
        if n["k"] == "op": return 1
        if n["k"] == "sched": return max(s + self.length(it["node"]) for s, it in zip(n["at"], n["items"]))
        return self.length(n["body"])
    def track(self, depth=1):
        """Gates only."""
        r = self.r
        if r.random() < 0.5: return self.gate()
        items = []; at = []; self.n["nested"] += 1
        for i in range(r.randint(1, 3)):
            n = self.track(depth - 1) if depth and r.random() < 0.3 else self.gate()
            at.append(at[-1] + self.length(items[-1]["node"]) if at else 0); items.append(S.ITEM(n))
        s = S.SCHED(items, name=f"t{r.randrange(10**6)}"); s["at"] = at; return s
    def sched(self, depth, n):
        r = self.r; items = []; at = []; last = None; end = 0
        def put(node, t, con): items.append(S.ITEM(node, con)); at.append(t)
        first = lambda: S.CON() if last is None or (last == len(items) - 1 and r.random() < 0.7) else S.CON(ref=last, pt=r.choice([None, "end"]), ptn=r.choice([None, "start"]))
        for _ in range(n):
            x = r.random()
            if x < 0.35: put(self.gate(), end, first())
            elif x < 0.5: put(self.pulse(), end, first())
            elif x < 0.75:
                ns = [self.track() for _ in range(r.randint(2, 3))]; self.n["tracks"] += 1
                i0 = len(items); put(ns[0], end, first()); l0 = self.length(ns[0])
                for m in ns[1:]:
                    l = self.length(m)
                    pt, ptn, off = r.choice([("start", "start", 0), ("start", None, 0)] + ([("end", "end", l0 - l), ("center", "center", F(l0 - l, 2)), ("center", "start", F(l0, 2))] if l <= l0 else []))
                    put(m, end + off, S.CON(ref=i0, pt=pt, ptn=ptn))
                e = [at[j] + self.length(items[j]["node"]) for j in range(i0, len(items))]; m = max(e)
                last = i0 + e.index(m); end = m; continue
            elif depth == 0: continue
            elif x < 0.9:
                y = r.random()
                body = self.gate() if y < 0.2 else self.pulse() if y < 0.3 else S.LOOP(self.gate() if r.random() < 0.5 else self.sched(0, 2), r.randint(2, 4)) if y < 0.4 else self.sched(depth - 1, r.randint(1, 3))
                if body["k"] == "loop": self.n["loop-of-loop"] += 1
                if self.fb and r.random() < 0.3: node = S.COND(body, r.choice(self.fb), hb=0); self.n["conds"] += 1
                else: node = S.LOOP(body, r.randint(2, 20)); self.n["loops"] += 1
                put(node, end, first())
            else: put(self.sched(depth - 1, r.randint(1, 4)), end, first()); self.n["nested"] += 1
            last = len(items) - 1; end = at[last] + self.length(items[last]["node"])
        if not items: put(self.gate(), 0, S.CON())
        s = S.SCHED(items, name=f"s{r.randrange(10**6)}"); s["at"] = at
        return s

def tex(n):
    o = S.build(n)
    return o["gate_info"]["tex"] if n["glyph"][0] == "text" else o.name

def observed(ax, names):
    """Glyphs in the drawing as Counter of (kind, text, line name, column)."""
    from matplotlib.patches import Wedge
    c = Counter(); ends = []; mid = {}
    line = lambda y: names.get(round(y), f"line {y}") if abs(y - round(y)) < 1e-6 else f"line {y}"
    col = lambda x: round(x) if abs(x - round(x)) < 1e-6 else x
    for t in ax.texts:
        s = t.get_text(); x, y = t.get_position()
        if not s: continue
        if re.fullmatch(r"x\d+", s): ends.append((int(s[1:]), x)); continue
        if s == "m=1": mid[s] = mid.get(s, 0) + 1; continue
        if abs(y - round(y)) < 1e-6: c["text", s, line(y), col(x)] += 1
        else: c["ptext", s, line(y - 0.45), col(x)] += 1
    for w in ax.patches:
        if isinstance(w, Wedge): c["meter", "", line(round(w.center[1])), col(w.center[0])] += 1
    plus = [(col(l.get_xdata()[0]), line(float(list(_seq(l.get_ydata()))[0]))) for l in ax.lines if l.get_marker() == "+"]
    for l in ax.lines:
        if l.get_marker() != "o": continue
        x = list(_seq(l.get_xdata())); y = [line(v) for v in _seq(l.get_ydata())]
        if len(x) != 2 or x[0] != x[1]: c["two", "", tuple(y), tuple(x)] += 1; continue
        c["two", "", tuple(sorted(y)), col(x[0])] += 1
    for x, y in plus: c["target", "", y, x] += 1
    return c, ends, mid

def _seq(v):
    import numpy as np
    return np.atleast_1d(v)

def run_circuit(job, mon):
    import matplotlib.pyplot as plt
    r = rng_for("V02", job["seed"], job["i"])
    g = Circ(r); top = g.sched(2, r.randint(2, 7))
    out = []; g.loops = []; g.conds = []; g.emit(top, F(0), out)
    used = {e for _, n in out if n["c"] in GATE1 + ["CZ", "CNOT", "Reset", "Measure"] for e in n["glyph"][1]}
    rank = {t: i for i, t in enumerate(sorted({t for t, _ in out}))}
    want = Counter(); soft = set(); other = False
    for t, n in out:
        if n["glyph"] is None: continue
        kind, el = n["glyph"]; k = rank[t]
        el = [e if e in used else "other" for e in el]; other |= "other" in el
        if kind in ("CZ", "CNOT"):
            want["two", "", tuple(sorted(el)), k] += 1
            if kind == "CNOT": want["target", "", el[1], k] += 1
            continue
        for e in el:
            key = (kind, "" if kind == "meter" else tex(n), e, k); want[key] += 1
    lines = used | ({"other"} if other else set())
    for k in ("two-qubit", "pulses", "meters", "portless", "nested", "tracks", "loops", "loop-of-loop", "conds"): mon.count(k, g.n[k])
    if other: mon.count("other-line")
    if not lines: return
    top["clocks"] = {"c0": 5e9}
    sched = S.build(top); before = canon.plain(sched)
    if r.random() < 0.5: fig, ax = sched.plot_circuit_diagram()
    else: fig0, ax0 = plt.subplots(); fig, ax = sched.plot_circuit_diagram(ax=ax0); fig = fig0
    try:
        names = {}
        for y, t in zip(ax.get_yticks(), ax.get_yticklabels()): names[int(y)] = t.get_text()
        if sorted(names.values()) != sorted(lines) or len(set(names)) != len(lines): mon.fail("lines", f"lines {names}, expected {sorted(lines)}\n{S.describe(top)}", "lines"); return
        mon.count("lines", len(lines))
        got, ends, mid = observed(ax, names)
        mon.count("glyphs", sum(got.values())); mon.case(top, nontrivial=len(out) > 1)
        miss = [k for k in want if got[k] < want[k]]; extra = [k for k in got if got[k] > want[k]]
        if miss or extra: mon.fail("glyphs", f"missing {miss[:6]} extra {extra[:6]}\n{S.describe(top)}", "glyphs")
        xl, yl = ax.get_xlim(), ax.get_ylim()
        for k in got:
            if isinstance(k[3], (int, float)) and not (xl[0] < k[3] < xl[1]): mon.fail("outside", f"{k} outside the drawn range {xl}\n{S.describe(top)}", "outside"); break
        if not all(min(yl) < y < max(yl) for y in names): mon.fail("outside", f"lines {names} outside {yl}", "outside-y")
        for n, a, b in g.loops:
            ins = [m for t, m in out if a <= t <= b and m["glyph"]]
            if not n_glyphs(n["body"]): continue
            if not any(k == n["n"] and rank[b] < x < rank[b] + 1 for k, x in ends): mon.fail("loop", f"no mark x{n['n']} after column {rank[b]}: {ends}\n{S.describe(top)}", "loop-mark"); break
        if bool(mid) != any(n_glyphs(n["body"]) for n, _, _ in g.conds) : mon.fail("cond", f"conditional marks {mid}, {len(g.conds)} conditionals\n{S.describe(top)}", "cond-mark")
        if canon.plain(sched) != before: mon.fail("changed", "drawing changed the schedule: " + canon.diff(before, canon.plain(sched)), "changed")
    finally: plt.close("all")

def n_glyphs(n):
    if n["k"] == "op": return n["glyph"] is not None
    if n["k"] == "sched": return any(n_glyphs(i["node"]) for i in n["items"])
    return n_glyphs(n["body"])

def run_table(job, mon):
    from quantify_scheduler.backends.graph_compilation import SerialCompiler
    r = rng_for("V02", job["seed"], job["i"], "table")
    d = v01.Draw(r); top = dict(d.sched(2, True), clocks=dict(d.clocks), reps=r.choice([1, 1, 5]))
    sched = S.build(top)
    if r.random() < 0.3:
        mon.count("untimed")
        try: sched.timing_table
        except ValueError: pass
        else: mon.fail("untimed", "a schedule that was not compiled has a timing table", "untimed")
    comp = SerialCompiler("v02").compile(sched, config=v01.empty_cfg())
    before = canon.plain(comp)
    want = []
    memo = {}
    for t, n, path, _ in S.flatten(top):
        if id(n) not in memo: o = S.build(n); memo[id(n)] = ([(dict(i), k) for i, k in zip(o["pulse_info"], range(99))] + [(dict(i), k) for i, k in zip(o["acquisition_info"], range(99))], len(o["pulse_info"]), str(o))
        infos, np_, text = memo[id(n)]
        if any(path): mon.count("iterations")
        for j, (i, k) in enumerate(infos): want.append((float(t) + i["t0"] * 1e9, i["duration"] * 1e9, i["port"], i.get("clock"), j >= np_, k, text))
    if not want: return
    df = comp.timing_table.data
    cols = {"waveform_op_id", "port", "clock", "abs_time", "duration", "is_acquisition", "operation", "wf_idx", "operation_hash"}
    if not cols <= set(df.columns): mon.fail("columns", f"columns {list(df.columns)}", "columns"); return
    none = lambda v: None if v is None or v != v else v
    got = [(a * 1e9, b * 1e9, none(p), none(c), bool(q), int(w), o) for a, b, p, c, q, w, o in zip(df["abs_time"], df["duration"], df["port"], df["clock"], df["is_acquisition"], df["wf_idx"], df["operation"])]
    mon.count("rows", len(got)); mon.case(top, nontrivial=len(want) > 1)
    if [g[0] for g in got] != sorted(g[0] for g in got): mon.fail("order", "rows not in the order of time", "order")
    key = lambda x: (round(x[0], 3), round(x[1], 3)) + tuple(map(str, x[2:6]))
    a, b = Counter(map(key, want)), Counter(map(key, got))
    if a != b: mon.fail("rows", f"missing {list((a - b).items())[:4]} extra {list((b - a).items())[:4]}\n{S.describe(top)}", "rows")
    by = {}
    for h, o in zip(df["operation_hash"], df["operation"]): by.setdefault(h, set()).add(o)
    if any(len(v) > 1 for v in by.values()): mon.fail("hash", f"one hash for different operations: {[list(v)[:2] for v in by.values() if len(v) > 1][:2]}", "hash")
    ops = Counter(x[6] for x in want); ops2 = Counter(x[6] for x in got)
    if set(ops) != set(ops2): mon.fail("operation", f"operations not listed {list(set(ops) - set(ops2))[:2]} listed {list(set(ops2) - set(ops))[:2]}", "operation")
    if canon.plain(comp) != before: mon.fail("changed", "the table changed the schedule: " + canon.diff(before, canon.plain(comp)), "changed")

def run_job(job, mon):
    (run_table if job["kind"] == "table" else run_circuit)(job, mon)
