"""Plain descriptions of schedules, their construction through the public API and an independent timeline.

Node forms (plain dicts):
  op    {"k":"op","c":ctor,"kw":{...},"dur":ns}            a library operation; dur in ns (Fraction/int)
  sched {"k":"sched","name":..., "items":[item]}           item = {"node":n,"con":[constraint],"label":str|None}
  loop  {"k":"loop","body":node,"n":int,"how":"op"|"spec"}
  cond  {"k":"cond","body":node,"q":str,"hb":ns}
constraint {"ref":index|None,"pt":..,"ptn":..,"rel":ns}; a node may carry "sid" (objects with equal sid are built once).
"""
from __future__ import annotations
from fractions import Fraction as F

def ns(x):
    """nanoseconds -> seconds, the way a user would write it"""
    return float(x) * 1e-9 if not isinstance(x, int) else float(f"{x}e-9")

OP = lambda c, dur=0, **kw: dict(k="op", c=c, kw=kw, dur=dur)
def IDLE(d): return OP("IdlePulse", d, duration=ns(d))
def SCHED(items, name="sub"): return dict(k="sched", name=name, items=items)
def LOOP(body, n, how="op"): return dict(k="loop", body=body, n=n, how=how)
def COND(body, q, hb=0): return dict(k="cond", body=body, q=q, hb=hb)
def ITEM(node, *con, label=None): return dict(node=node, con=list(con) or [dict(ref=None, pt=None, ptn=None, rel=0)], label=label)
def CON(ref=None, pt=None, ptn=None, rel=0): return dict(ref=ref, pt=pt, ptn=ptn, rel=rel)

_libs = None
def libs():
    global _libs
    if _libs is None:
        import quantify_scheduler.operations.pulse_library as p, quantify_scheduler.operations.acquisition_library as a
        import quantify_scheduler.operations.gate_library as g, quantify_scheduler.operations.control_flow_library as c
        import quantify_scheduler.operations.nv_native_library as nv, quantify_scheduler.operations.shared_native_library as sn
        ns_ = {}
        from quantify_scheduler.backends.qblox.operations import rf_switch_toggle as rf
        from quantify_scheduler.backends.qblox.operations import inline_q1asm as iq
        for m in (p, a, g, c, nv, sn, rf, iq):
            for k, v in vars(m).items():
                if isinstance(v, type): ns_.setdefault(k, v)
        try:
            import quantify_scheduler.backends.qblox.operations as qo
            for k in dir(qo): ns_.setdefault(k, getattr(qo, k))
        except Exception: pass
        _libs = ns_
    return _libs

def build(node, cache=None, copyshare=False):
    """Build the real object. cache: sid -> object."""
    if cache is None: cache = {}
    sid = node.get("sid")
    if sid is not None and sid in cache and not copyshare: return cache[sid]
    k = node["k"]
    if k == "op":
        kw = dict(node["kw"]); args = kw.pop("__args__", ())
        o = libs()[node["c"]](*args, **kw)
        for p in node.get("plus", ()): o.add_pulse(build({k: v for k, v in p.items() if k != "sid"}))
        if node.get("addacq"): o.add_acquisition(build(node["addacq"]))
    elif k == "sched":
        from quantify_scheduler.schedules.schedule import Schedule
        o = Schedule(node.get("name", "sub"), repetitions=node.get("reps", 1))
        from quantify_scheduler.resources import ClockResource
        for cn, cf in node.get("clocks", {}).items(): o.add_resource(ClockResource(cn, cf))
        made = []
        for it in node["items"]:
            b = build(it["node"], cache, copyshare)
            c0 = it["con"][0]
            ref = made[c0["ref"]] if c0["ref"] is not None else None
            if ref is not None and c0.get("bylabel"): ref = ref["name"]
            kw = {}
            if c0["rel"] or c0.get("explicit_rel"): kw["rel_time"] = ns(c0["rel"])
            if ref is not None: kw["ref_op"] = ref
            if c0["pt"] is not None: kw["ref_pt"] = c0["pt"]
            if c0["ptn"] is not None: kw["ref_pt_new"] = c0["ptn"]
            if it.get("label"): kw["label"] = it["label"]
            s = o.add(b, **kw)
            for c in it["con"][1:]:
                r = made[c["ref"]] if c["ref"] is not None else None
                if r is not None and c.get("bylabel"): r = r["name"]
                kw = dict(rel_time=ns(c["rel"]))
                if r is not None: kw["ref_schedulable"] = r
                if c["pt"] is not None: kw["ref_pt"] = c["pt"]
                if c["ptn"] is not None: kw["ref_pt_new"] = c["ptn"]
                s.add_timing_constraint(**kw)
            made.append(s)
    elif k == "loop":
        from quantify_scheduler.operations.control_flow_library import LoopOperation
        o = LoopOperation(body=build(node["body"], cache, copyshare), repetitions=node["n"])
    elif k == "cond":
        from quantify_scheduler.operations.control_flow_library import ConditionalOperation
        o = ConditionalOperation(body=build(node["body"], cache, copyshare), qubit_name=node["q"], hardware_buffer_time=ns(node.get("hb", 0)))
    elif k == "comp":
        from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
        o = PulseCompensation(build(node["body"], cache, copyshare), **node["kw"])
    else: raise KeyError(k)
    if sid is not None: cache[sid] = o
    return o

_off = {"start": lambda d: 0, "center": lambda d: F(d) / 2, "end": lambda d: d}

def duration(node, alap=False):
    k = node["k"]
    if k == "op": return node["dur"]
    if k == "loop": return node["n"] * duration(node["body"], alap)
    if k == "cond": return duration(node["body"], alap) + node.get("hb", 0)
    return max(t + duration(it["node"], alap) for t, it in zip(starts(node, alap), node["items"]))

def starts(node, alap=False):
    """Start time (ns) of each item of a sched node, relative to its own start."""
    items = node["items"]; n = len(items)
    t = [None] * n
    def resolve(i):
        if t[i] is not None: return t[i]
        it = items[i]; cand = []
        dur = duration(it["node"], alap)
        for c in it["con"]:
            ref = c["ref"]
            if ref is None: ref = (i + 1 if i + 1 < n else None) if alap else (i - 1 if i else None)
            if ref is None: continue
            r = resolve(ref)
            pt = c["pt"] or ("start" if alap else "end"); ptn = c["ptn"] or ("end" if alap else "start")
            cand.append(r + _off[pt](duration(items[ref]["node"], alap)) + c["rel"] - _off[ptn](dur))
        t[i] = max(cand) if cand else 0
        return t[i]
    for i in (range(n) if not alap else range(n - 1, -1, -1)): resolve(i)
    m = min(t)
    # the earliest operation defines time zero when something would start before
    if m < 0: t = [x - m for x in t]
    return t

def flatten(node, t=0, alap=False, path=(), conds=()):
    """All executed leaf operations: (time ns, op node, loop path, conditions)."""
    k = node["k"]
    if k == "op":
        yield (t, node, path, conds)
    elif k == "loop":
        d = duration(node["body"], alap)
        for i in range(node["n"]): yield from flatten(node["body"], t + i * d, alap, path + (i,), conds)
    elif k == "cond":
        yield from flatten(node["body"], t, alap, path, conds + ((node["q"], t),))
    else:
        for s, it in zip(starts(node, alap), node["items"]): yield from flatten(it["node"], t + s, alap, path, conds)

def describe(node, depth=0):
    k = node["k"]; pad = "  " * depth
    if k == "op": return f"{pad}{node['c']}({node['kw']}) dur={node['dur']}" + (f" plus {[(p['c'], p['kw']) for p in node['plus']]}" if node.get("plus") else "") + (f" sid={node['sid']}" if "sid" in node else "")
    if k == "loop": return f"{pad}loop x{node['n']}\n" + describe(node["body"], depth + 1)
    if k == "cond": return f"{pad}cond {node['q']}\n" + describe(node["body"], depth + 1)
    out = [f"{pad}sched" + (f" sid={node['sid']}" if "sid" in node else "")]
    for i, it in enumerate(node["items"]): out.append(f"{pad} [{i}] {it['con']}\n" + describe(it["node"], depth + 1))
    return "\n".join(out)
