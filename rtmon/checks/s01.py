"""S01: compiled start times vs. an independent timing solver."""
from fractions import Fraction as F
from rtmon.core import rng_for, Violation
from rtmon import spec as S, dev

LEVEL = "exploration"
RULE = ("A case is a random schedule description (constraint graph with any reference points, relative times, several constraints, nested schedules, loops, conditionals, gates and "
        "pulses, objects used several times) compiled as soon or as late as possible; every schedulable's start, every duration and the timing table are compared with the description's own "
        "timeline. Non-trivial: at least two schedulables; distinct by the structure and times of the description.")
ASSUMPTIONS = ["durations of operations follow the device element parameters", "times agree to 1e-3 ns"]
MINIMUM = {"start_times": 3000, "rows": 2000, "alap": 40, "asap": 100, "nested": 100, "loops": 50, "conds": 20, "multi": 30, "default_ref_multi": 10, "shared": 20, "negative": 20}

def jobs(tier, seed):
    n = 800 if tier == "quick" else 6000
    return [dict(scenario="alap-measure", seed=seed)] + [dict(i=i, seed=seed) for i in range(n)]

def cleanup_job(): dev.close_all()

PT = [None, None, "start", "center", "end"]

class Gen:
    def __init__(self, r, P, alap):
        self.r, self.P, self.alap, self.n, self.feat, self.pool = r, P, alap, 0, set(), []
    def leaf(self):
        r = self.r; q = r.choice(["q0", "q1"]); p = self.P[q]; k = r.randrange(11)
        if k == 9 and self.alap: k = 10  # see the scenario alap-measure
        if k < 3: return S.IDLE(r.randint(0, 500))
        if k == 3:
            t0 = r.choice([0, 0, r.randint(1, 40)]); d = r.randint(4, 300)
            n = S.OP("SquarePulse", t0 + d, amp=0.1, duration=S.ns(d), port=f"{q}:mw", clock=f"{q}.01", t0=S.ns(t0)); n["rows"] = [(t0, d, f"{q}:mw")]; return n
        if k == 4:
            t0 = r.choice([0, r.randint(1, 40)]); d = r.randint(4, 300)
            n = S.OP("SSBIntegrationComplex", t0 + d, port=f"{q}:res", clock=f"{q}.ro", duration=S.ns(d), t0=S.ns(t0), acq_channel=r.randint(0, 3)); n["rows"] = [(t0, d, f"{q}:res")]; return n
        if k in (5, 6):
            n = S.OP("Rxy", p["rxy_dur"], theta=r.uniform(-179, 179), phi=r.uniform(0, 359), qubit=q); n["rows"] = [(0, p["rxy_dur"], f"{q}:mw")]; return n
        if k == 7:
            n = S.OP("Rz", 0, theta=r.uniform(-179, 179), qubit=q); n["rows"] = None; return n
        if k == 8:
            n = S.OP("Reset", p["reset"], __args__=(q,)); n["rows"] = [(0, p["reset"], None)]; return n
        if k == 9:
            d = max(p["ro_dur"], p["acq_delay"] + p["integ"])
            n = S.OP("Measure", d, __args__=(q,), acq_channel=q); n["rows"] = [(0, 0, None), (0, p["ro_dur"], f"{q}:res"), (p["acq_delay"], p["integ"], f"{q}:res")]; n["order"] = "set"; return n
        n = S.OP("X90", p["rxy_dur"], qubit=q); n["rows"] = [(0, p["rxy_dur"], f"{q}:mw")]; return n
    def node(self, depth):
        r = self.r
        if self.pool and r.random() < 0.12:
            self.feat.add("shared"); return r.choice(self.pool)
        x = r.random()
        if depth <= 0 or x < 0.62: n = self.leaf()
        elif x < 0.78: n = self.sched(depth - 1, r.randint(1, 4)); self.feat.add("nested")
        elif x < 0.91:
            self.feat.add("loops"); n = S.LOOP(self.node(depth - 1) if r.random() < 0.3 else self.sched(depth - 1, r.randint(1, 3)), r.randint(1, 4))
        else:
            self.feat.add("conds"); n = S.COND(self.node(depth - 1) if r.random() < 0.4 else self.sched(depth - 1, r.randint(1, 3)), r.choice(["q0", "q1"]), r.choice([0, 0, 4]))
        if r.random() < 0.3:
            self.n += 1; n = dict(n, sid=self.n); self.pool.append(n)
        return n
    def con(self, i, N):
        r = self.r
        rel = r.choice([0, 0, r.randint(0, 200), r.randint(-300, 300)])
        if rel < 0: self.feat.add("negative")
        if self.alap:
            ref = r.choice([None, None] + ([r.randint(i + 1, N - 1)] if i + 1 < N else []))
        else:
            ref = r.choice([None, None] + ([r.randint(0, i - 1)] if i else []))
        return dict(ref=ref, pt=r.choice(PT), ptn=r.choice(PT), rel=rel, bylabel=r.random() < 0.3)
    def sched(self, depth, N):
        r = self.r; items = []
        for i in range(N):
            node = self.node(depth)
            cons = [self.con(i, N)]
            if not self.alap and i > 1 and r.random() < 0.25:
                for _ in range(r.randint(1, 2)): cons.append(self.con(i, N))
                self.feat.add("multi")
                if any(c["ref"] is None for c in cons[1:]): self.feat.add("default_ref_multi")
            items.append(dict(node=node, con=cons, label=f"L{i}" if self.alap else (f"lab{i}" if r.random() < 0.3 else None)))
        if self.alap:
            for i, it in enumerate(items):
                if it["con"][0]["ref"] is not None: it["con"][0]["fwd"] = f"L{it['con'][0]['ref']}"
        return S.SCHED(items, name=f"s{self.n}")

def build_alap(node, cache):
    """ALAP references point to operations added later, so they are given by label."""
    sid = node.get("sid")
    if sid is not None and sid in cache: return cache[sid]
    if node["k"] == "sched":
        from quantify_scheduler.schedules.schedule import Schedule
        o = Schedule(node["name"], repetitions=node.get("reps", 1))
        for it in node["items"]:
            c = it["con"][0]
            o.add(build_alap(it["node"], cache), rel_time=S.ns(c["rel"]), ref_op=c.get("fwd"), ref_pt=c["pt"], ref_pt_new=c["ptn"], label=it["label"])
    elif node["k"] == "loop":
        from quantify_scheduler.operations.control_flow_library import LoopOperation
        o = LoopOperation(body=build_alap(node["body"], cache), repetitions=node["n"])
    elif node["k"] == "cond":
        from quantify_scheduler.operations.control_flow_library import ConditionalOperation
        o = ConditionalOperation(body=build_alap(node["body"], cache), qubit_name=node["q"], hardware_buffer_time=S.ns(node["hb"]))
    else: o = S.build({k: v for k, v in node.items() if k != "sid"})
    if sid is not None: cache[sid] = o
    return o

TOL = 1e-3
def near(a, b): return abs(a * 1e9 - float(b)) < TOL

def compare(node, obj, alap, mon, where):
    """Walk description and compiled object side by side."""
    from quantify_scheduler.operations.control_flow_library import LoopOperation, ConditionalOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase
    d = S.duration(node, alap)
    reps = node.get("reps", 1)
    if obj.duration is None or not near(obj.duration, d * reps): raise Violation("duration", f"{where}: {obj.duration} expected {float(d)} ns x{reps}")
    mon.count("durations")
    k = node["k"]
    if k == "op": return
    if k in ("loop", "cond"):
        cls = LoopOperation if k == "loop" else ConditionalOperation
        if not isinstance(obj, cls): raise Violation("structure", f"{where}: {type(obj)} for {k}")
        return compare(node["body"], obj.body, alap, mon, where + "/" + k)
    t = S.starts(node, alap)
    sch = list(obj.schedulables.values())
    if len(sch) != len(t): raise Violation("structure", f"{where}: {len(sch)} schedulables for {len(t)} items")
    if not near(obj.get_schedule_duration(), d * reps): raise Violation("get_schedule_duration", where)
    for i, (ti, it, s) in enumerate(zip(t, node["items"], sch)):
        mon.count("start_times")
        if not near(s["abs_time"], ti): raise Violation("start-time", f"{where}[{i}] {it['node'].get('c', it['node']['k'])}: starts {s['abs_time']*1e9} expected {float(ti)}")
        compare(it["node"], obj.operations[s["operation_id"]], alap, mon, f"{where}[{i}]")

def alap_measure(job, mon):
    """The parts of a measurement keep their relative timing whatever the scheduling strategy."""
    from quantify_scheduler import QuantumDevice, Schedule
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.enums import SchedulingStrategy
    from quantify_scheduler.operations import Measure
    r = rng_for("S01", job["seed"], "alap")
    rows = {}
    qd = QuantumDevice("qd"); e, p = dev.transmon("q0", r); qd.add_element(e)
    for st in (SchedulingStrategy.ASAP, SchedulingStrategy.ALAP):
        qd.scheduling_strategy(st)
        s = Schedule("s"); s.add(Measure("q0"))
        t = SerialCompiler("c").compile(s, qd.generate_compilation_config()).timing_table.data
        rows[st] = sorted((round(a * 1e9, 3), round(b * 1e9, 3)) for a, b in zip(t["abs_time"], t["duration"]))
    mon.count("start_times", 6); mon.case(("alap-measure", repr(rows)))
    want = sorted([(0, 0), (0, p["ro_dur"]), (p["acq_delay"], p["integ"])])
    if rows[SchedulingStrategy.ASAP] != want: mon.fail("measure-timing", f"{rows} expected {want}")
    if rows[SchedulingStrategy.ALAP] != want: mon.fail("measure-timing-alap", f"{rows} expected {want}", mechanism="alap-composite-gate")

def run_job(job, mon):
    if job.get("scenario"): return alap_measure(job, mon)
    from quantify_scheduler import QuantumDevice
    from quantify_scheduler.backends import SerialCompiler
    from quantify_scheduler.enums import SchedulingStrategy
    r = rng_for("S01", job["seed"], job["i"])
    alap = r.random() < 0.3
    qd = QuantumDevice("qd"); P = {}
    for q in ("q0", "q1"):
        e, p = dev.transmon(q, r); qd.add_element(e); P[q] = p
    qd.scheduling_strategy(SchedulingStrategy.ALAP if alap else SchedulingStrategy.ASAP)
    cfg = qd.generate_compilation_config()
    comp = SerialCompiler("c")
    for _ in range(2):
        g = Gen(r, P, alap)
        node = g.sched(r.randint(1, 3), r.randint(2, 7)); node["reps"] = r.choice([1, 1, r.randint(2, 1000)])
        obj = build_alap(node, {}) if alap else S.build(node)
        text = S.describe(node)
        mon.case((alap, text), len(node["items"]) > 1)
        for f in g.feat: mon.count(f)
        mon.count("alap" if alap else "asap")
        mon.sample(dict(alap=alap, schedule=text[:600]))
        try:
            c = comp.compile(obj, cfg)
            compare(node, c, alap, mon, "root")
            rows = []; free = 0
            for t, leaf, path, conds in S.flatten(node, 0, alap):
                if leaf["c"] == "IdlePulse": rows.append((float(t), float(leaf["dur"]), None))
                elif leaf.get("rows") is None: free += 1
                else: rows += [(float(t + a), float(b), port) for a, b, port in leaf["rows"]]
            tab = c.timing_table.data
            got = []
            for a, b, port, op in zip(tab["abs_time"], tab["duration"], tab["port"], tab["operation"]):
                got.append((a * 1e9, b * 1e9, None if port is None or port != port else port))
            mon.count("rows", len(rows))
            # virtual phase rows may be merged away into zero-length idles; every other row has to be there
            rest = list(got)
            for row in rows:
                for j, x in enumerate(rest):
                    if abs(x[0] - row[0]) < TOL and abs(x[1] - row[1]) < TOL and (x[2] == row[2]): del rest[j]; break
                else: raise Violation("timing-table", f"row {row} not in table {sorted(got, key=str)[:40]}")
            if len(rest) != free or any(x[1] > TOL for x in rest): raise Violation("timing-table", f"surplus rows {rest}, expected {free} virtual rows")
            at = [x * 1e9 for x in tab["abs_time"]]
            if at != sorted(at): raise Violation("timing-table", "not ordered in time")
        except Violation as v:
            v.detail = f"{v.detail}\n{'ALAP' if alap else 'ASAP'}\n{text}"
            raise
