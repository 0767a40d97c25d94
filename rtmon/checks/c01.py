"""C01: what the pulses and compensation pulses of a compensated block add up to, and where they are."""
import copy, math
from rtmon.core import rng_for, Violation
from rtmon import spec as S, gd, wfref

LEVEL = "exploration"
RULE = ("A case is a random schedule with pulse compensated blocks (of operations, schedules, loops, conditionals and further compensated blocks; pulses of every library shape on listed and unlisted ports; blocks used "
        "several times; given by port or by device element; either scheduling strategy). The compiled schedule is flattened; per block and listed port the integral of everything played, the place, length and amplitude "
        "of the compensation pulse are checked, everything else must be as scheduled. Non-trivial: at least one compensation pulse; distinct by description.")
ASSUMPTIONS = ["pulses on listed ports are real and use the baseband clock, as the operation documents", "the integral is that of the waveform sampled at the given rate", "no voltage offsets and no conditional pulses on listed ports (both must be refused)"]
MINIMUM = {"blocks": 1500, "compensations": 1000, "unlisted": 500, "loops": 300, "nested": 150, "inner": 100, "shared": 100, "alap": 60, "elements": 60, "boundary": 100, "balanced": 10, "refused": 40, "clean_events": 3000}

def jobs(tier, seed):
    n = 2000 if tier == "quick" else 60000
    return [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

PORTS = ["q0:fl", "q1:fl", "q0:gt", "p", "q0:mw"]

class Gen:
    def __init__(self, r, alap, feat, d):
        self.r, self.alap, self.feat, self.d, self.sid, self.pool, self.counts = r, alap, feat, d, 0, [], {}
        self.rate = 1e9 if r.random() < 0.8 else r.choice([2e9, 5e8]); self.grid = r.choice([1, 4, 4, 10])
    def c(self, k): self.counts[k] = self.counts.get(k, 0) + 1
    def pulse(self):
        r = self.r; kind = r.choice(["SquarePulse"] * 4 + ["RampPulse", "SoftSquarePulse", "SuddenNetZeroPulse", "NumericalPulse", "GaussPulse"]); D = r.choice([r.randint(4, 60), 2 * r.randint(20, 300)]) if kind != "SuddenNetZeroPulse" else r.randint(30, 100)
        if self.rate == 5e8: D += D % 2
        kw = wfref.random_pulse(r, kind, D, complex_ok=False)
        if kind == "GaussPulse": kw["phase"] = 0
        if kind == "SquarePulse" and r.random() < 0.3: kw["amp"] = r.choice([0.1, -0.1, 0.2, 0.5])
        port = r.choice(PORTS); t0 = r.choice([0, 0, 0, r.randint(1, 30)])
        n = S.OP(kind, t0 + D, port=port, clock=gd.BB, t0=S.ns(t0), **kw); n["pulse"] = (kind, kw, port, t0, D)
        self.c("pulses"); return n
    def leaf(self):
        r = self.r; x = r.random()
        if x < 0.1: return S.IDLE(r.randint(1, 200))
        if x < 0.16:
            D = r.randint(4, 50); n = S.OP("SquarePulse", D, amp=0.3, duration=S.ns(D), port="other:mw", clock="q0.01"); n["pulse"] = None; return n
        return self.pulse()
    def node(self, depth):
        r = self.r
        if self.pool and r.random() < 0.15 and "share" in self.feat: self.c("shared"); return r.choice(self.pool)
        x = r.random()
        if depth <= 0 or x < 0.55: n = self.leaf()
        elif x < 0.7: n = self.sched(r.randint(1, 4), depth - 1); self.c("nested")
        elif x < 0.85: n = S.LOOP(self.node(depth - 1), r.randint(1, 4)); self.c("loops")
        elif x < 0.9: n = S.COND(S.SCHED([S.ITEM(S.IDLE(r.randint(4, 100)))], "c"), "q0", r.choice([0, 4]))
        elif "inner" in self.feat: n = self.comp(depth - 1); self.c("inner")
        else: n = self.leaf()
        if "share" in self.feat and r.random() < 0.3 and n["k"] != "cond": self.sid += 1; n = dict(n, sid=self.sid); self.pool.append(n)
        return n
    def sched(self, N, depth):
        r = self.r; items = []
        for i in range(N):
            n = self.node(depth)
            if not self.alap and i and r.random() < 0.3: con = S.CON(ref=r.randrange(i), pt=r.choice(["start", "end", None]), ptn=r.choice(["start", None, None]), rel=r.choice([0, 0, r.randint(0, 60), r.randint(-20, 0)]))
            else: con = S.CON(rel=r.choice([0, 0, 0, r.randint(0, 40)]) * (-1 if self.alap else 1))
            items.append(S.ITEM(n, con))
        return S.SCHED(items, f"s{r.randrange(10 ** 9)}")
    def comp(self, depth, boundary=False):
        r = self.r; body = self.node(depth) if not boundary else self.sched(r.randint(1, 3), depth)
        if boundary and r.random() < 0.4:
            p, D, a = r.choice(PORTS), r.choice([20, 40, 200]), r.choice([0.1, 0.3])
            for v, w in ((a, D), (-2 * a, D // 2)): x = S.OP("SquarePulse", w, port=p, clock=gd.BB, amp=v, duration=S.ns(w)); x["pulse"] = ("SquarePulse", dict(amp=v), p, 0, w); body["items"].append(S.ITEM(x))
            if r.random() < 0.6: body["items"] = body["items"][-2:]
        self.c("blocks")
        if "elements" in self.feat:
            qs = r.sample(list(self.d["q"]), r.randint(1, len(self.d["q"]))); n = dict(k="comp", body=body, kw=dict(qubits=qs if len(qs) > 1 or r.random() < 0.5 else qs[0]), grid=self.grid, rate=self.rate)
            n["max"] = {self.d["port"][q]: self.d["max"][q] for q in qs}; self.c("elements"); return n
        mx = {p: round(r.uniform(0.03, 0.9), 5) for p in r.sample(PORTS, r.randint(1, 4))}
        if boundary: mx = {p: 0 for p in r.sample(PORTS, r.randint(3, 5))}
        if boundary: mx = {p: r.choice([0.1, 0.2, 0.5, 1.0]) for p in mx}
        n = dict(k="comp", body=body, kw=dict(max_compensation_amp=mx, time_grid=S.ns(self.grid), sampling_rate=self.rate), max=mx, grid=self.grid, rate=self.rate)
        return n

def area(n, rate):
    kind, kw, port, t0, D = n["pulse"]
    if kind == "SquarePulse": return kw["amp"] * D
    return float(wfref.sample_pulse_spec(kind, kw, rate).mean().real) * D

class Unclear(Exception): pass

def expand(n, alap, cache, strict=True):
    """The description with every compensated block replaced by its body and the pulses that are expected."""
    if "sid" in n and n["sid"] in cache: return cache[n["sid"]]
    k = n["k"]
    if k == "op": o = n
    elif k in ("loop", "cond"): o = dict(n, body=expand(n["body"], alap, cache, strict))
    elif k == "sched": o = dict(n, items=[dict(i, node=expand(i["node"], alap, cache, strict)) for i in n["items"]])
    else:
        body = expand(n["body"], alap, cache, strict); tot, mag, end, port_ = {}, {}, {}, None
        for t, op, *_ in S.flatten(body, alap=alap):
            pu = op.get("pulse")
            if pu is None or pu[2] not in n["max"]: continue
            a = area(op, n["rate"]) if "comp" not in op else op["comp"]
            tot[pu[2]] = tot.get(pu[2], 0) + a; mag[pu[2]] = mag.get(pu[2], 0) + abs(a); end[pu[2]] = max(end.get(pu[2], 0), t + pu[3] + pu[4])
        items = []
        for p, s in tot.items():
            steps = abs(s) / n["grid"] / n["max"][p]
            if strict and (abs(s) < 1e-6 * mag[p] or abs(steps - round(steps)) < 1e-6 and steps > 0.5 or steps < 1e-6): raise Unclear()
            D = math.ceil(steps) * n["grid"]
            x = S.OP("comp", D); x["pulse"] = ("SquarePulse", dict(amp=-s / D if D else 0), p, 0, D); x["comp"] = -s; x["lim"] = (n["max"][p], n["grid"], mag[p]); items.append((x, end[p]))
        b = S.ITEM(body, S.CON())
        if alap: o = S.SCHED([S.ITEM(x, S.CON(ref=len(items), pt="start", ptn="start", rel=t)) for x, t in items] + [b], "comp")
        else: o = S.SCHED([b] + [S.ITEM(x, S.CON(ref=0, pt="start", ptn="start", rel=t)) for x, t in items], "comp")
    if "sid" in n: cache[n["sid"]] = o
    return o

def make(job):
    r = rng_for("C01", job["seed"], job["i"])
    mode = r.choice(["general"] * 7 + ["boundary", "refuse"])
    alap = r.random() < 0.2; feat = {f for f in ("share", "inner", "elements") if r.random() < (0.5 if f != "elements" else 0.25)}
    if mode != "general": feat -= {"elements", "share", "inner"}
    d = gd.device(r, types=["transmon", r.choice(["transmon", "spin"])]); names = list(d["q"]); d["e"] = {}
    for q in names: d["q"][q]["p"].pop("ports.microwave", None)
    g = Gen(r, alap, feat, d)
    d["port"] = {q: gd.port(d, q, "ports.microwave") for q in names}; d["max"] = {q: round(r.uniform(0.03, 0.9), 5) for q in names}
    for q in names: d["q"][q]["p"].update({"pulse_compensation.max_compensation_amp": d["max"][q], "pulse_compensation.time_grid": S.ns(g.grid), "pulse_compensation.sampling_rate": g.rate})
    if "elements" in feat: g_ports = list(d["port"].values())
    return r, mode, alap, feat, d, g

def observed(comp, elements):
    return [e for e in gd.observed(comp) if e[0] != "reset"]

def run_job(job, mon):
    import warnings; warnings.simplefilter("ignore")
    global PORTS
    r, mode, alap, feat, d, g = make(job)
    saved = PORTS
    if "elements" in feat: PORTS = list(d["port"].values()) + ["p", "q9:fl"]
    try:
        if mode == "boundary": top = S.SCHED([S.ITEM(g.leaf()), S.ITEM(g.comp(1, True))], "top") if not alap else S.SCHED([S.ITEM(g.comp(1, True))], "top")
        elif mode == "refuse": top = S.SCHED([S.ITEM(g.comp(2, True))], "top")
        else: top = S.SCHED([S.ITEM(g.comp(r.randint(0, 3)) if r.random() < 0.6 or i == 0 else g.node(2), S.CON(rel=r.choice([0, 0, 20]) * (-1 if alap else 1))) for i in range(r.randint(1, 4))], "top")
    finally: PORTS = saved
    if mode == "refuse": return refuse(r, d, top, alap, mon)
    try: exp = expand(top, alap, {}, strict=mode != "boundary")
    except Unclear: mon.count("skipped"); return
    for k, v in g.counts.items(): mon.count(k, v)
    comp = compile(top, d, alap, mon)
    got = observed(comp, feat)
    want = []
    for t, op, *_ in S.flatten(exp, alap=alap):
        if op["c"] == "IdlePulse": continue
        if op.get("pulse") is None: want.append(("other", int(t), "other:mw", op["dur"], 0.3 * op["dur"], op)); continue
        kind, kw, p, t0, D = op["pulse"]; want.append(("pulse" if "comp" not in op else "comp", int(t) + t0, p, D, op["comp"] if "comp" in op else area(op, 1e9), op))
    have = []
    for e in got:
        if e[0] != "play": raise Violation("unexpected-operation", e)
        have.append([e[1], e[2], e[5], float(e[6].mean().real) * e[5], e])
    if mode == "boundary": return boundary(top, exp, want, have, alap, mon)
    listed = {p for n in blocks(top) for p in n["max"]}
    left = list(have)
    for kind, t, p, D, a, op in sorted(want, key=lambda w: w[0] != "comp"):
        hit = [h for h in left if h[0] == t and h[1] == p and h[2] == D and abs(h[3] - a) <= 1e-7 * (abs(a) + 1) + (1e-9 * op["lim"][2] if kind == "comp" else 0)]
        if not hit: raise Violation("compensation-pulse" if kind == "comp" else "scheduled-pulse", f"expected {kind} at {t} ns on {p} for {D} ns with integral {a}; near: {[h[:4] for h in left if h[1] == p][:8]}; strategy {'alap' if alap else 'asap'}\n{describe(top)}")
        left.remove(hit[0])
        if kind == "comp":
            mon.count("compensations"); e = hit[0][4]; mx, grid, _ = op["lim"]
            if abs(e[6]).max() > mx * (1 + 1e-9) or D % grid or e[3] != gd.BB: raise Violation("compensation-pulse", f"{e[:6]} amplitude {abs(e[6]).max()}, at most {mx}, grid {grid}")
        else:
            mon.count("clean_events")
            if p not in listed: mon.count("unlisted")
    if left: raise Violation("extra-pulses", f"{[h[:4] for h in left]}\n{describe(top)}")
    if abs(comp.duration * 1e9 - float(S.duration(exp, alap))) > 1e-2: raise Violation("duration", f"{comp.duration} expected {S.duration(exp, alap)}")
    if alap: mon.count("alap")
    mon.case(describe(top) + repr((alap, d["max"])), any(w[0] == "comp" for w in want))

def blocks(n):
    if n["k"] == "comp": yield n
    if "body" in n: yield from blocks(n["body"])
    for i in n.get("items", ()): yield from blocks(i["node"])

def compile(top, d, alap, mon):
    qd = gd.realise(d)
    if alap: qd.scheduling_strategy("alap")
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.resources import ClockResource
    s = S.build(top)
    s.add_resource(ClockResource("q0.01", 5e9))
    return SerialCompiler("c").compile(s, qd.generate_compilation_config())

def boundary(top, exp, want, have, alap, mon):
    """Amplitudes that fill the grid exactly, and integrals that cancel: only the properties themselves are required."""
    blk = top["items"][-1]["node"]; mon.count("boundary")
    left = list(have); tot, mag, end = {}, {}, {}
    shift = None
    for kind, t, p, D, a, op in want:
        if kind == "comp": continue
        # as late as possible only moves everything by the compensation pulses' own lengths
        if kind == "other": hit = [h for h in left if h[1] == p and h[2] == D and h[0] == t]
        else: hit = [h for h in left if h[1] == p and h[2] == D and h[0] == t and abs(h[3] - a) <= 1e-7 * (abs(a) + 1)]
        if not hit: raise Violation("scheduled-pulse", f"{t} {p} {D} {a}: {[h[:4] for h in left]}\n{describe(top)}")
        left.remove(hit[0]); mon.count("clean_events")
    inside = [(t, op) for t, op, *_ in S.flatten(blk["body"], float(S.starts(exp, alap)[-1] if not alap else 0), alap=alap) if op.get("pulse")]
    for t, op in inside:
        _, _, p, t0, D = op["pulse"]
        if p in blk["max"]:
            a = area(op, blk["rate"]); tot[p] = tot.get(p, 0) + a; mag[p] = mag.get(p, 0) + abs(a); end[p] = max(end.get(p, 0), t + t0 + D)
    for h in left:
        p = h[1]; e = h[4]
        if p not in tot: raise Violation("extra-pulses", f"{h[:4]}\n{describe(top)}")
        if h[0] != end[p] or h[2] <= 0 or h[2] % blk["grid"] or abs(e[6]).max() > blk["max"][p] * (1 + 1e-9): raise Violation("compensation-pulse", f"{h[:4]} amplitude {abs(e[6]).max()}; block {blk['max']} grid {blk['grid']} pulses end {end[p]}\n{describe(top)}")
        tot[p] += h[3]; end[p] = -1; mon.count("compensations")
    for p, s in tot.items():
        if abs(s) > 1e-9 * mag[p] + 1e-9: raise Violation("net-integral", f"port {p}: {s} of {mag[p]}\n{describe(top)}")
        if end[p] != -1: mon.count("balanced")
    mon.case(describe(top), bool(left))

def refuse(r, d, top, alap, mon):
    """Voltage offsets and conditional pulses on a listed port cannot be compensated."""
    blk = top["items"][0]["node"]; p = r.choice(list(blk["max"]))
    what = r.choice(["offset", "conditional"])
    if what == "offset": bad = S.OP("VoltageOffset", 0, offset_path_I=0.1, offset_path_Q=0.0, port=p, clock=gd.BB)
    else: bad = S.COND(r.choice([lambda x: x, lambda x: S.SCHED([S.ITEM(x)], "y"), lambda x: S.LOOP(x, 2)])(S.OP("SquarePulse", 20, amp=0.2, duration=S.ns(20), port=p, clock=gd.BB)), "q0")
    wrap = r.choice([lambda x: x, lambda x: S.SCHED([S.ITEM(S.IDLE(20)), S.ITEM(x), S.ITEM(S.IDLE(20))], "z"), lambda x: S.LOOP(S.SCHED([S.ITEM(x), S.ITEM(S.IDLE(8))], "w"), 2)])
    blk["body"] = S.SCHED([S.ITEM(blk["body"]), S.ITEM(wrap(bad)), S.ITEM(S.IDLE(20))], "bad")
    try: compile(top, d, alap, mon)
    except ValueError: mon.count("refused"); mon.case(describe(top) + what, True); return
    raise Violation("not-refused", f"{what} on compensated port {p}\n{describe(top)}")

def describe(n, depth=0):
    if n["k"] == "comp": return "  " * depth + f"compensate {n['max']} grid {n['grid']} rate {n['rate']}\n" + describe(n["body"], depth + 1)
    if n["k"] == "op": return S.describe(n, depth)
    if n["k"] in ("loop", "cond"): return "  " * depth + f"{n['k']} {n.get('n', '')}\n" + describe(n["body"], depth + 1)
    return "\n".join(["  " * depth + "sched"] + [f"{'  ' * depth} {i['con']}\n" + describe(i["node"], depth + 1) for i in n["items"]])
