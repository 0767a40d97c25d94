"""Comparable forms of objects and of compiled programs."""
from __future__ import annotations
import dataclasses, enum, functools, re
import numpy as np
from rtmon import q1sim, qb

def plain(o, depth=0, seen=None):
    """A nested tuple form of any library object, by content."""
    if depth > 60: return "..."
    if isinstance(o, (str, bytes, type(None), bool)): return o
    if isinstance(o, enum.Enum): return (type(o).__name__, o.name)
    if isinstance(o, (int, np.integer)): return int(o)
    if isinstance(o, (float, np.floating)): return "nan" if o != o else float(o)
    if isinstance(o, (complex, np.complexfloating)): return ("c", complex(o).real, complex(o).imag)
    if isinstance(o, np.ndarray): return ("array", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else tuple(plain(x, depth + 1) for x in o.ravel()))
    if isinstance(o, type): return ("type", o.__name__)
    if isinstance(o, functools.partial): return ("partial", plain(o.func), plain(o.args), plain(o.keywords))
    if callable(o) and hasattr(o, "__qualname__"): return ("fn", o.__qualname__)
    if isinstance(o, dict): return (type(o).__name__,) + tuple((plain(k, depth + 1), plain(v, depth + 1)) for k, v in o.items())
    if isinstance(o, (list, tuple)): return ("list",) + tuple(plain(x, depth + 1) for x in o)
    if isinstance(o, (set, frozenset)): return ("set",) + tuple(sorted((plain(x, depth + 1) for x in o), key=repr))
    if dataclasses.is_dataclass(o): return (type(o).__name__,) + tuple((f.name, plain(getattr(o, f.name), depth + 1)) for f in dataclasses.fields(o))
    if hasattr(type(o), "model_fields"): return (type(o).__name__,) + tuple((k, plain(getattr(o, k), depth + 1)) for k in type(o).model_fields)
    if hasattr(o, "data") and isinstance(getattr(o, "data"), dict): return (type(o).__name__, plain(o.data, depth + 1))
    return (type(o).__name__, repr(o) if "0x" not in repr(o) else "obj")

def diff(a, b, path=""):
    """Where two plain forms first differ."""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b): return f"{path}: length {len(a)} / {len(b)}: {str(a)[:150]} / {str(b)[:150]}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + (f".{x[0]}" if isinstance(x, tuple) and x and isinstance(x[0], str) else f"[{i}]"))
            if d: return d
        return None
    return None if a == b else f"{path}: {str(a)[:200]} / {str(b)[:200]}"

COMMENT = re.compile(r"\s*#.*$", re.M)

def seqs(comp, cluster="cluster0"):
    return {(slot, name): st for slot, name, st in qb.sequencers(comp, cluster)}

def settings(st):
    d = st.to_dict() if hasattr(st, "to_dict") else dict(vars(st))
    return {k: v for k, v in d.items() if k != "sequence"}

def program(st):
    s = st.sequence
    return (re.sub(r"[ \t]+", " ", COMMENT.sub("", s["program"])), plain(s.get("waveforms")), plain(s.get("weights")), plain(s.get("acquisitions")))

def events(st):
    """What the sequencer does, with the content of waveforms and weights."""
    s = st.sequence
    w = {x["index"]: tuple(x["data"]) for x in (s.get("waveforms") or {}).values()}
    v = {x["index"]: tuple(x["data"]) for x in (s.get("weights") or {}).values()}
    out = []
    run = q1sim.run(s)
    for e in run.events:
        if e.kind == "upd" and e.chg is None: continue
        a = e.arg
        if e.kind == "play": a = (w.get(a[0]), w.get(a[1]))
        elif e.kind == "acquire_weighed": a = (a[0], a[1], v.get(a[2]), v.get(a[3]))
        out.append((e.t, e.kind, a, repr(e.st)))
    return out, run.end, len(run.reps), run.conds

def hardware(comp, cluster="cluster0"):
    """Everything a compiled schedule says to a Qblox cluster: (settings part, {sequencer: text}, callable for events)."""
    ci = comp.compiled_instructions
    rest = []
    for m, v in sorted(ci.get(cluster, {}).items(), key=lambda x: str(x[0])):
        if str(m).startswith(cluster + "_module"):
            rest.append((m, plain({k: x for k, x in v.items() if k != "sequencers"}), tuple((s, plain(settings(st))) for s, st in sorted(v["sequencers"].items()))))
        else: rest.append((m, plain(v)))
    rest.append(plain(ci.get("generic")))
    return tuple(rest)

def near(a, b):
    """Equal up to the order of floating point additions."""
    if a is b: return True
    if a is None or b is None or len(a) != len(b): return False
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))

def same_event(x, y):
    if x == y: return True
    if x[0] != y[0] or x[1] != y[1] or x[3] != y[3]: return False
    if x[1] == "play": return near(x[2][0], y[2][0]) and near(x[2][1], y[2][1])
    if x[1] == "acquire_weighed": return x[2][:2] == y[2][:2] and near(x[2][2], y[2][2]) and near(x[2][3], y[2][3])
    return False

def same_events(a, b): return a[1:] == b[1:] and len(a[0]) == len(b[0]) and all(same_event(x, y) for x, y in zip(a[0], b[0]))

def same_hardware(a, b, cluster="cluster0"):
    """None if two compiled schedules tell the hardware the same, else what differs."""
    d = diff(hardware(a, cluster), hardware(b, cluster))
    if d: return "settings " + d
    sa, sb = seqs(a, cluster), seqs(b, cluster)
    if set(sa) != set(sb): return f"sequencers {sorted(sa)} / {sorted(sb)}"
    for k in sa:
        if program(sa[k]) == program(sb[k]): continue
        ea, eb = events(sa[k]), events(sb[k])
        if not same_events(ea, eb):
            for x, y in zip(ea[0], eb[0]):
                if not same_event(x, y): return f"{k}: {x} / {y}"[:700]
            return f"{k}: {len(ea[0])} events, end {ea[1]} / {len(eb[0])} events, end {eb[1]}"
    return None

def table(comp):
    """The timing table of a compiled schedule, without names."""
    t = comp.timing_table.data
    return sorted((round(a * 1e12), round(b * 1e12), str(p), str(c), bool(q)) for a, b, p, c, q in zip(t["abs_time"], t["duration"], t["port"], t["clock"], t["is_acquisition"]))
