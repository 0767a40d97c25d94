"""G01: the compiled drive pulses implement the unitary of the circuit."""
import cmath, math
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, gd, wfref

LEVEL = "exploration"
RULE = ("A case is a random circuit (rotations, phase gates, Hadamards, CZ, in nested and re-used schedules and loops, with any timing and either scheduling strategy) on a random device of one to four transmon or "
        "spin elements; it is compiled to pulses, the pulses and phase shifts are turned back into rotations in time order, and the resulting matrix is compared with the product of the gates' matrices. "
        "Non-trivial: at least two gates on one element; distinct by device and circuit.")
ASSUMPTIONS = ["a drive pulse rotates in proportion to its area, the configured pi pulse by 180 degrees, about the axis given by the phase of the pulse",
               "a clock phase shift by an angle is the frame change that realises Rz of that angle for everything that follows (the sign of the shift itself is covered by a known finding)",
               "the square pulse of an edge is a CZ up to the configured phase corrections", "a phase shift acts on pulses that start at the same time or later"]
MINIMUM = {"gates": 8000, "pulses": 5000, "shifts": 3000, "cz": 300, "merged": 200, "loops": 150, "nested": 150, "shared": 150, "alap": 60, "twoqubit": 200, "hadamard": 300}

def jobs(tier, seed):
    n = 900 if tier == "quick" else 60000
    return [dict(i=-1, seed=seed)] + [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job():
    from rtmon import dev; dev.close_all()

class Circ:
    def __init__(self, r, d, feat, alap):
        self.r, self.d, self.feat, self.alap, self.names = r, d, feat, alap, list(d["q"]); self.counts = {}; self.pool = []; self.subs = []; self.sid = 0
    def c(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def gate(self):
        r = self.r
        if "share" in self.feat and self.pool and r.random() < 0.3: self.c("shared"); return r.choice(self.pool)
        x = r.random(); q = r.choice(self.names)
        if self.d["e"] and x < 0.12:
            a, b = r.choice(list(self.d["e"]))
            if r.random() < 0.5: a, b = b, a
            n = S.OP("CZ", 0, __args__=(a, b)); n["qs"] = (a, b); self.c("cz")
        elif x < 0.35:
            n = S.OP("Rxy", 0, theta=r.choice([float(r.randint(-360, 360)), round(r.uniform(-400, 400), 3), r.choice([180.0, -180.0, 540.0])]), phi=r.choice([0.0, 90.0, 45.0, -90.0, 400.0, round(r.uniform(-400, 400), 3)]), qubit=q); n["qs"] = (q,)
        elif x < 0.7:
            c = r.choice(["Rz"] * 3 + list(gd.PHASE))
            n = S.OP(c, 0, __args__=(q,)) if c != "Rz" else S.OP("Rz", 0, theta=r.choice([float(r.randint(-360, 360)), round(r.uniform(-800, 800), 3)]), qubit=q)
            n["qs"] = (q,)
            if "override" in self.feat and r.random() < 0.3: n["kw"]["note"] = r.choice([1, 2])     # an override of nothing, only keeps gates apart
        else:
            c = r.choice(["H", "H"] + list(gd.ROT)); n = S.OP(c, 0, __args__=(q,)); n["qs"] = (q,)
            if c == "H": self.c("hadamard")
        self.c("gates")
        n["dur"] = gd.meaning(dict(n, kw={k: v for k, v in n["kw"].items() if k != "note"}), self.d)[1]
        if "share" in self.feat and r.random() < 0.3: self.sid += 1; n["sid"] = self.sid; self.pool.append(n)
        return n
    def sched(self, size, depth, top=False):
        r = self.r; items = []; last = {}   # element -> index of its last item
        i = 0
        while len(items) < size:
            run = 1
            if depth and r.random() < 0.2 and ({"loops", "nested"} & self.feat):
                if "share" in self.feat and self.subs and r.random() < 0.3: node = r.choice(self.subs); self.c("shared")
                else:
                    node = self.sched(r.randint(1, 5), depth - 1)
                    if "share" in self.feat and r.random() < 0.4: self.sid += 1; node["sid"] = self.sid; self.subs.append(node)
                if "loops" in self.feat and (r.random() < 0.5 or "nested" not in self.feat):
                    if r.random() < 0.25: node = self.gate()
                    elif r.random() < 0.2: node = S.LOOP(node, r.randint(1, 3))
                    node = S.LOOP(node, r.randint(1, 3)); self.c("loops")
                else: self.c("nested")
            else: node = self.gate()
            qs = touched(node)
            prev = len(items) - 1
            if self.alap or "plain" in self.feat: cons = [S.CON()] if not (not self.alap and r.random() < 0.2) else [S.CON(rel=r.randint(0, 50))]
            else:
                # everything starts after the end of what was done last on its elements
                refs = sorted({last[q] for q in qs if q in last})
                if r.random() < 0.6: cons = [S.CON(rel=r.choice([0, 0, 0, 20]))] + [S.CON(ref=k, pt="end", rel=0) for k in refs if k != prev and r.random() < 2]
                else:
                    if not refs: refs = [prev] if prev >= 0 and r.random() < 0.5 else []
                    if not refs and prev >= 0: cons = [S.CON(ref=r.randint(0, prev), pt="start", rel=r.choice([0, 10]))]
                    elif refs:
                        cons = [S.CON(ref=k, pt="end", rel=r.choice([0, 0, 0, 24])) for k in refs]
                    else: cons = [S.CON()]
            items.append(S.ITEM(node, *cons))
            for q in qs: last[q] = len(items) - 1
        return S.SCHED(items, "top" if top else f"s{r.randrange(10 ** 9)}")

def touched(n):
    if n["k"] == "op": return set(n["qs"])
    if n["k"] == "loop": return touched(n["body"])
    return set().union(*[touched(i["node"]) for i in n["items"]])

def order(n):
    """Gates in the order of the program, loops unrolled."""
    if n["k"] == "op": yield n
    elif n["k"] == "loop":
        for _ in range(n["n"]): yield from order(n["body"])
    else:
        for i in n["items"]: yield from order(i["node"])

# ------------------------------------------------------------------ matrices (stacked 2x2 on axis of one element)
def RXY(th, ph):
    t, p = math.radians(th) / 2, math.radians(ph)
    return np.array([[math.cos(t), -1j * cmath.exp(-1j * p) * math.sin(t)], [-1j * cmath.exp(1j * p) * math.sin(t), math.cos(t)]])
def RZ(th): t = math.radians(th) / 2; return np.diag([cmath.exp(-1j * t), cmath.exp(1j * t)])
HAD = np.array([[1, 1], [1, -1]]) / math.sqrt(2)

class Reg:
    def __init__(self, names):
        self.n = len(names); self.ix = {q: i for i, q in enumerate(names)}; self.U = np.eye(2 ** self.n, dtype=complex).reshape((2,) * self.n + (2 ** self.n,))
    def one(self, q, m):
        i = self.ix[q]; self.U = np.moveaxis(np.tensordot(m, self.U, axes=(1, i)), 0, i)
    def cz(self, a, b):
        s = [slice(None)] * (self.n + 1); s[self.ix[a]] = 1; s[self.ix[b]] = 1
        self.U = self.U.copy(); self.U[tuple(s)] *= -1
    def mat(self): return self.U.reshape(2 ** self.n, 2 ** self.n)

def ideal(top, names):
    R = Reg(names)
    for n in order(top):
        c = n["c"]; kw = n["kw"]
        if c == "CZ": R.cz(*kw["__args__"])
        elif c == "H": R.one(n["qs"][0], HAD)
        elif c in gd.PHASE: R.one(n["qs"][0], RZ(gd.PHASE[c]))
        elif c == "Rz": R.one(n["qs"][0], RZ(kw["theta"]))
        else: R.one(n["qs"][0], RXY(*(gd.ROT[c] if c in gd.ROT else (kw["theta"], kw["phi"]))))
    return R.mat()

def realised(comp, d, mon):
    """The matrix of the compiled pulses, in time order.  Phase shifts act as frame changes."""
    names = list(d["q"]); R = Reg(names)
    drive, pi = {}, {}
    for q, e in d["q"].items():
        cl = q + (".01" if e["typ"] == "transmon" else ".f_larmor"); drive[cl] = q
        p = e["p"]; D = S.ns(p["rxy.duration"])
        nm = "DRAGPulse" if e["typ"] == "transmon" else "GaussPulse"
        w = wfref.sample_pulse_spec(nm, dict(G_amp=p["rxy.amp180"], D_amp=0, phase=0, duration=D))
        cols = [w] + ([wfref.sample_pulse_spec(nm, dict(G_amp=p["rxy.amp180"], D_amp=1.0, phase=0, duration=D)) - w] if e["typ"] == "transmon" else [])
        pi[q] = (gd.port(d, q, "ports.microwave"), cl, p["rxy.duration"], np.array(cols).T)
    flux = {}
    for (a, b), p in d["e"].items():
        pt = gd.port(d, a, "ports.flux") if d["q"][a]["typ"] == "transmon" else p.get("ports.gate", f"{a}_{b}:gt")
        flux.setdefault(pt, []).append((a, b, p))
    ev = gd.observed(comp)
    ev.sort(key=lambda e: (e[1], 0 if e[0] == "phase" else 1))
    busy = {}
    for e in ev:
        if e[0] == "phase":
            if e[2] not in drive: raise Violation("phase-of-unknown-clock", e)
            R.one(drive[e[2]], RZ(e[3])); mon.count("shifts")
        elif e[0] == "play":
            if e[2] in flux and e[3] == gd.BB:
                hit = [(a, b, p) for a, b, p in flux[e[2]] if p["cz.square_duration"] == e[5] and abs(e[6][0] - p["cz.square_amp"]) < 1e-12]
                if len(hit) != 1: raise Violation("unknown-flux-pulse", gd_brief(e))
                a, b, p = hit[0]
                R.cz(a, b); R.one(a, RZ(-p[f"cz.{a}_phase_correction"])); R.one(b, RZ(-p[f"cz.{b}_phase_correction"])); mon.count("pulses"); continue
            q = drive.get(e[3])
            if q is None or (e[2], e[3]) != pi[q][:2] or e[5] != pi[q][2]: raise Violation("unknown-pulse", gd_brief(e))
            if busy.get(q, 0) > e[1]: raise Violation("overlapping-pulses", gd_brief(e))
            busy[q] = e[1] + e[5]
            co, *_ = np.linalg.lstsq(pi[q][3], e[6], rcond=None); z = co[0]
            if np.abs(pi[q][3] @ co - e[6]).max() > 1e-9: raise Violation("unknown-pulse-shape", gd_brief(e))
            R.one(q, RXY(180 * abs(z), math.degrees(cmath.phase(z)) if z else 0)); mon.count("pulses")
        else: raise Violation("unexpected-operation", e[:4])
    return R.mat()

def gd_brief(e): return e[:6]

def make(job):
    r = rng_for("G01", job["seed"], job["i"])
    typ = r.choice(["transmon", "transmon", "spin"])
    d = gd.device(r, types=[typ] * r.choice([1, 2, 2, 3, 3, 4]))
    # edges that share a flux line need different pulses to be told apart
    seen = set()
    for k, p in list(d["e"].items()):
        if p["cz.square_duration"] in seen: del d["e"][k]
        seen.add(p["cz.square_duration"])
    alap = r.random() < 0.15
    feat = {f for f in ("loops", "nested", "share", "override", "plain") if r.random() < 0.5}
    g = Circ(r, d, feat, alap)
    top = g.sched(r.choice([2, 6, 12, 25]), r.randint(0, 3), True)
    return r, d, g, top, alap

def run_job(job, mon):
    import warnings; warnings.simplefilter("ignore")
    if job["i"] < 0: return sign(mon)
    r, d, g, top, alap = make(job)
    for k, v in g.counts.items(): mon.count(k, v)
    qd = gd.realise(d)
    if alap: qd.scheduling_strategy("alap"); mon.count("alap")
    sched = S.build(top)
    if r.random() < 0.3:
        sched.repetitions = r.randint(1, 5)
    from quantify_scheduler.backends import SerialCompiler
    comp = SerialCompiler("c").compile(sched, qd.generate_compilation_config())
    names = list(d["q"])
    V = realised(comp, d, mon); U = ideal(top, names)
    n = sum(1 for _ in order(top)); ns = sum(1 for e in gd.observed(comp) if e[0] == "phase"); want = sum(1 for x in order(top) if x["c"] in gd.PHASE or x["c"] in ("Rz", "H")) + 2 * sum(1 for x in order(top) if x["c"] == "CZ")
    mon.count("merged", want - ns)
    if any(x["c"] == "CZ" for x in order(top)): mon.count("twoqubit")
    f = abs(np.trace(U.conj().T @ V)) / len(U)
    if abs(f - 1) > 1e-7: raise Violation("different-unitary", f"overlap {f}; strategy {'alap' if alap else 'asap'}\n{S.describe(top)}\n{[x[:4] for x in gd.observed(comp)][:60]}")
    mon.count("evaluated"); mon.case(repr((d, S.describe(top), alap)), n > 1)

def sign(mon):
    """X90, S, Y90 takes the ground state to the excited state.  On the signal the phase of the second pulse is its own phase plus that of the clock."""
    r = rng_for("G01", "sign"); d = gd.device(r, types=["transmon"]); q = list(d["q"])[0]; qd = gd.realise(d)
    from quantify_scheduler import Schedule
    from quantify_scheduler.backends import SerialCompiler
    L = S.libs(); s = Schedule("x")
    for c in ("X90", "S", "Y90"): s.add(L[c](q))
    ev = gd.observed(SerialCompiler("c").compile(s, qd.generate_compilation_config()))
    ev.sort(key=lambda e: (e[1], e[0] != "phase"))
    ph = 0.0; R = Reg([q])
    p = d["q"][q]["p"]; area = wfref.sample_pulse_spec("DRAGPulse", dict(G_amp=p["rxy.amp180"], D_amp=0, phase=0, duration=S.ns(p["rxy.duration"]))).sum().real
    for e in ev:
        if e[0] == "phase": ph += e[3]
        else: z = e[6].sum() / area * cmath.exp(1j * math.radians(ph)); R.one(q, RXY(180 * abs(z), math.degrees(cmath.phase(z))))
    p1 = abs(R.mat()[1, 0]) ** 2
    mon.case("sign", True)
    if abs(p1 - 1) > 1e-6: mon.fail("virtual-z-sign", f"X90, S, Y90 on the ground state: the circuit gives excited-state probability 1, the signal played (pulse phase plus clock phase) gives {p1:.3f}", "virtual-z-sign")
