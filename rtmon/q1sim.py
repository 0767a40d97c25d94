"""Executes Q1ASM sequencer programs and records what the real-time part of the sequencer does.

Time zero is the release of wait_sync.  Parameters (gain, offset, frequency, phase, markers, digital output, ...) are
latched: they take effect at the next upd_param / play / acquire* instruction.  Nothing of quantify_scheduler is used.
"""
from __future__ import annotations
import re
from bisect import bisect_right

M32 = 0xFFFFFFFF
LINE = re.compile(r"^\s*(?:([A-Za-z_]\w*):)?\s*([a-z_]+)?\s*([^#]*?)\s*(?:#.*)?$")

class SimError(Exception): pass

def parse(program):
    instrs, labels = [], {}
    for ln, line in enumerate(program.splitlines()):
        m = LINE.match(line)
        if not m: raise SimError(f"unparsable line {ln}: {line!r}")
        lab, op, args = m.groups()
        if lab:
            if lab in labels: raise SimError(f"label {lab} defined twice")
            labels[lab] = len(instrs)
        if op:
            a = []
            for x in (args.split(",") if args else []):
                x = x.strip()
                if x.startswith("R"): a.append(("R", int(x[1:])))
                elif x.startswith("@"): a.append(("L", x[1:]))
                else: a.append(("I", int(x)))
            instrs.append((op, tuple(a)))
        elif args: raise SimError(f"unparsable line {ln}: {line!r}")
    return instrs, labels

def s32(x):
    x &= M32
    return x - (1 << 32) if x & 0x80000000 else x

class Run:
    """What one sequencer did."""
    __slots__ = ("events", "reps", "end", "conds", "limits", "steps", "stopped", "latch_rsts", "latch_en", "ninstr", "maxreg", "thres")
    def __init__(self):
        self.events, self.reps, self.end, self.conds, self.limits, self.steps, self.stopped = [], [], None, [], [], 0, False
        self.latch_rsts, self.latch_en, self.ninstr, self.maxreg, self.thres = [], False, 0, -1, {}

class Event:
    __slots__ = ("t", "kind", "arg", "st", "chg")
    def __init__(self, t, kind, arg, st, chg): self.t, self.kind, self.arg, self.st, self.chg = t, kind, arg, st, chg
    def __repr__(self): return f"<{self.t} {self.kind} {self.arg} {self.st} {self.chg}>"

class State:
    """Latched real-time parameters."""
    __slots__ = ("g0", "g1", "o0", "o1", "freq", "ph", "mrk", "dig", "fine", "scope", "nreset", "treset")
    def __init__(self):
        self.g0 = self.g1 = 0; self.o0 = self.o1 = 0; self.freq = None; self.ph = 0; self.mrk = 0; self.dig = 0; self.fine = 0; self.scope = 0; self.nreset = 0; self.treset = None
    def copy(self):
        s = State.__new__(State)
        for k in State.__slots__: setattr(s, k, getattr(self, k))
        return s
    def __repr__(self): return "{" + ",".join(f"{k}={getattr(self,k)}" for k in State.__slots__) + "}"

TIMED = {"play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags", "upd_param", "wait", "wait_sync", "latch_rst", "set_latch_en", "acquire_digital", "upd_thres"}

def run(sequence, triggers=(), trig_cfg=None, max_steps=3_000_000, force=None):
    """Execute sequence = {"program","waveforms","weights","acquisitions"}.

    triggers: sorted list of (time, address).  trig_cfg: address -> (threshold count, invert).
    force: optional callable(index of set_cond enable) -> bool overriding condition evaluation.
    """
    out = Run()
    prog, labels = parse(sequence["program"])
    out.ninstr = len(prog)
    wfs = {w["index"]: w["data"] for w in sequence.get("waveforms", {}).values()}
    wts = {w["index"]: w["data"] for w in (sequence.get("weights") or {}).values()}
    acqs = {a["index"]: a["num_bins"] for a in (sequence.get("acquisitions") or {}).values()}
    lim = out.limits
    seen_lim = set()
    def limit(msg):
        if msg not in seen_lim:
            seen_lim.add(msg); lim.append(msg)
    # repetition loop: the last loop instruction before stop
    rep_target = None
    for op, a in prog:
        if op == "loop": rep_target = labels.get(a[1][1])
    R = {}
    t = 0
    st = State()
    pend = []        # pending parameter changes, in program order
    pc = 0
    tt = [x[0] for x in triggers]
    latch_from = None
    active = True    # conditional state
    cond_on = False; else_t = 4
    nset = 0
    ev = out.events
    synced = False
    n = len(prog)
    steps = 0
    for op, a in prog:
        for k, v in a:
            if k == "R": out.maxreg = max(out.maxreg, v)
    def latch(kind, arg, dur):
        nonlocal st, t
        chg = None
        if pend:
            st = st.copy(); chg = []
            ndelta = 0
            for p in pend:
                k = p[0]
                if k == "gain": st.g0, st.g1 = p[1], p[2]
                elif k == "offs": st.o0, st.o1 = p[1], p[2]
                elif k == "freq": st.freq = p[1]
                elif k == "ph": st.ph = p[1] % 1000000000
                elif k == "dph":
                    ndelta += 1
                    if ndelta > 1: limit("two set_ph_delta latched by one update")
                    st.ph = (st.ph + p[1]) % 1000000000
                elif k == "rph": st.ph = 0; st.nreset += 1; st.treset = t
                elif k == "mrk": st.mrk = p[1]
                elif k == "dig": st.dig, st.fine = p[1], p[2]
                elif k == "scope": st.scope = p[1]
                chg.append(p)
            pend.clear()
        ev.append(Event(t, kind, arg, st, chg))
        t += dur
    while True:
        if pc >= n: raise SimError("program runs past its end without stop")
        if pc == rep_target: out.reps.append(t)
        op, a = prog[pc]
        steps += 1
        if steps > max_steps: raise SimError("too many steps")
        pc += 1
        v = []
        for k, x in a:
            if k == "I": v.append(x)
            elif k == "R":
                if x not in R and not (op in ("move", "add", "sub", "not", "and", "or", "xor", "asl", "asr") and (k, x) == a[-1]):
                    limit(f"register R{x} read before it is written ({op})"); R[x] = 0
                v.append(R.get(x, 0))
            else: v.append(x)
        # classical part
        if op == "move": R[a[1][1]] = v[0] & M32; continue
        if op == "add": R[a[2][1]] = (v[0] + v[1]) & M32; continue
        if op == "sub": R[a[2][1]] = (v[0] - v[1]) & M32; continue
        if op == "and": R[a[2][1]] = v[0] & v[1]; continue
        if op == "or": R[a[2][1]] = v[0] | v[1]; continue
        if op == "xor": R[a[2][1]] = v[0] ^ v[1]; continue
        if op == "asl": R[a[2][1]] = (v[0] << v[1]) & M32; continue
        if op == "asr": R[a[2][1]] = v[0] >> v[1]; continue
        if op == "not": R[a[1][1]] = ~v[0] & M32; continue
        if op == "loop":
            c = (R[a[0][1]] - 1) & M32; R[a[0][1]] = c
            if c:
                if a[1][1] not in labels: raise SimError(f"unknown label {a[1][1]}")
                pc = labels[a[1][1]]
            continue
        if op == "jmp": pc = labels[a[0][1]]; continue
        if op == "jge":
            if v[0] >= v[1]: pc = labels[a[2][1]]
            continue
        if op == "jlt":
            if v[0] < v[1]: pc = labels[a[2][1]]
            continue
        if op == "nop": continue
        if op == "stop": out.stopped = True; break
        if op == "set_cond":
            en, mask, oper, els = v
            if en:
                if force is not None: c = force(nset, mask, oper, t)
                else:
                    c = _cond(mask, oper, t, triggers, tt, latch_from, trig_cfg or {})
                active = bool(c); cond_on = True; else_t = els
                out.conds.append((t, mask, oper, bool(c)))
                nset += 1
                if not 4 <= els <= 65535: limit(f"set_cond else duration {els}")
                if mask == 0: limit("set_cond with empty mask")
            else: active = True; cond_on = False
            continue
        if not active:
            if op in TIMED: t += else_t
            continue
        if op == "wait":
            if not 4 <= v[0] <= 65535: limit(f"wait {v[0]}")
            t += v[0]
        elif op == "wait_sync":
            if synced: limit("second wait_sync")
            if t or ev: limit("instructions with duration before wait_sync")
            synced = True; t = v[0]
        elif op == "upd_param": latch("upd", None, v[0])
        elif op == "play":
            for x in v[:2]:
                if x not in wfs: limit(f"play of unknown waveform {x}")
            latch("play", (v[0], v[1]), v[2])
            if v[2] < 4: limit(f"play duration {v[2]}")
        elif op == "acquire":
            _bin(limit, acqs, v[0], v[1], op); latch("acquire", (v[0], v[1]), v[2])
        elif op == "acquire_weighed":
            _bin(limit, acqs, v[0], v[1], op)
            for x in v[2:4]:
                if x not in wts: limit(f"unknown weight {x}")
            latch("acquire_weighed", (v[0], v[1], v[2], v[3]), v[4])
        elif op == "acquire_ttl":
            _bin(limit, acqs, v[0], v[1], op); latch("acquire_ttl", (v[0], v[1], v[2]), v[3])
        elif op == "acquire_timetags":
            _bin(limit, acqs, v[0], v[1], op); latch("acquire_timetags", (v[0], v[1], v[2], v[3]), v[4])
        elif op == "set_awg_gain":
            g = (s32(v[0]), s32(v[1])); pend.append(("gain",) + g)
            if not all(-32768 <= x <= 32767 for x in g): limit(f"gain {g}")
        elif op == "set_awg_offs":
            g = (s32(v[0]), s32(v[1])); pend.append(("offs",) + g)
            if not all(-32768 <= x <= 32767 for x in g): limit(f"offset {g}")
        elif op == "set_freq":
            f = s32(v[0]); pend.append(("freq", f))
            if not -2000000000 <= f <= 2000000000: limit(f"frequency {f}")
        elif op == "set_ph": pend.append(("ph", v[0]))
        elif op == "set_ph_delta":
            pend.append(("dph", v[0]))
            if not 0 <= v[0] <= 1000000000: limit(f"phase {v[0]}")
        elif op == "reset_ph": pend.append(("rph",))
        elif op == "set_mrk": pend.append(("mrk", v[0]))
        elif op == "set_digital": pend.append(("dig", v[0], v[2]))
        elif op == "set_scope_en": pend.append(("scope", v[0]))
        elif op == "set_time_ref": pend.append(("tref",))
        elif op == "set_latch_en":
            out.latch_en = bool(v[0]); latch_from = t if v[0] else None; t += v[1] if synced else 0
        elif op == "upd_thres":
            out.thres[v[0]] = v[1]; t += v[2] if synced else 0
        elif op == "latch_rst":
            latch_from = t; out.latch_rsts.append(t); ev.append(Event(t, "latch_rst", None, st, None)); t += v[0]
        else: raise SimError(f"unknown instruction {op}")
    out.end = t; out.steps = steps
    if pend and any(p[0] not in ("mrk", "scope") for p in pend): limit(f"parameters never applied: {pend}")
    return out

def _bin(limit, acqs, i, b, op):
    if i not in acqs: limit(f"{op} of undeclared acquisition {i}")
    elif not 0 <= b < acqs[i]: limit(f"{op} bin {b} outside the {acqs[i]} declared bins")

def _cond(mask, oper, t, triggers, tt, latch_from, cfg):
    bits = []
    for k in range(16):
        if mask >> k & 1:
            addr = k + 1
            cnt = 0
            if latch_from is not None:
                for j in range(bisect_right(tt, t)):
                    if triggers[j][0] >= latch_from and triggers[j][1] == addr: cnt += 1
            thr, inv = cfg.get(addr, (1, False))
            bits.append((cnt >= thr) != bool(inv))
    r = {0: any, 1: lambda b: not any(b), 2: all, 3: lambda b: not all(b), 4: lambda b: sum(b) % 2 == 1, 5: lambda b: sum(b) % 2 == 0}[oper](bits)
    return r

def envelope(run, wfs, t0, t1, bound=None):
    """Sampled (path 0, path 1) AWG output between t0 and t1 (ns), before modulation."""
    import numpy as np
    n = t1 - t0
    y0, y1 = np.zeros(n), np.zeros(n)
    ev = [e for e in run.events if e.kind != "latch_rst"]
    play = None   # (start, w0, w1)
    for i, e in enumerate(ev):
        if e.kind == "play": play = (e.t, wfs[e.arg[0]], wfs[e.arg[1]])
        a = e.t
        b = ev[i + 1].t if i + 1 < len(ev) else t1
        lo, hi = max(a, t0), min(b, t1)
        if hi <= lo: continue
        s = e.st
        y0[lo - t0:hi - t0] = s.o0 / 32768; y1[lo - t0:hi - t0] = s.o1 / 32768
        if play:
            for y, w, g in ((y0, play[1], s.g0), (y1, play[2], s.g1)):
                k0, k1 = lo - play[0], min(hi - play[0], len(w))
                if k1 > k0: y[lo - t0:lo - t0 + k1 - k0] += w[k0:k1] * (g / 32768)
    return y0, y1
