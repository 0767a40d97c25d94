"""Q11: inline Q1ASM programs run as written, at their time, without disturbing the rest of the schedule."""
import re
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import spec as S, qb
from rtmon.checks import q01

LEVEL = "exploration"
RULE = ("A case is a random pulse schedule with InlineQ1ASM operations (plays of their own waveforms, gains from immediates or computed in registers, offsets, nested and conditional jumps, register names and labels that also occur elsewhere in the program, comments) "
        "between pulses, long pulses, loops, nested schedules on a random cluster, compiled; the sequencer programs are executed and the output compared sample by sample with pulses and inline programs (own model of what the generated text does); or a contradictory use that has to be refused. "
        "Non-trivial: at least one inline operation is executed; distinct by schedule and hardware description.")
ASSUMPTIONS = q01.ASSUMPTIONS + ["an inline program takes the time given as its duration, restores offsets, and uses only its own waveform indices"]
MINIMUM = {"inline": 600, "inline-loop": 150, "inline-play": 300, "inline-reg": 150, "inline-offs": 80, "inline-jump": 80, "inline-shared": 25, "loops": 50, "samples": 200000, "refused": 60, "inline-unsafe": 30}

def jobs(tier, seed):
    return [dict(i=i, seed=seed) for i in range(500 if tier == "quick" else 30000)]

cleanup_job = q01.cleanup_job
NAMES = ["start", "loop", "a", "wait", "lbl_1", "_x", "END", "R", "inj8_a", "loop10"]

def inline(g, ci, maxdur):
    r = g.r; ch = g.rig["chans"][ci]
    pool = g.__dict__.setdefault("ipool", {}).setdefault(ci, [])
    if pool and r.random() < 0.2:
        n = r.choice(pool)
        if n["dur"] <= maxdur and not 0 < maxdur - n["dur"] < 4 and not (n["offs"] and g.hold.get(ci)): g.c("inline"); g.c("inline-shared"); return n
    safe = "share" in g.feat or r.random() < 0.7
    g.nlab = getattr(g, "nlab", 0) + 1
    ln = r.sample(NAMES, 4); lab = lambda k: ln[k] if safe else f"u{g.nlab}_{k}"
    regs = [f"R{x}" for x in r.sample(range(64), 8)]; reg = iter(regs)
    out = []; D = r.randint(8, min(maxdur, r.choice([40, 400, 1500]))); w = np.zeros(D, complex); t = 0; wfs = {}; uses = False; offs = False
    def emit(x, label=None):
        pad = " " * r.randint(0, 6); sep = r.choice([",", ", ", ",  "]); c = r.choice(["", "", " # R1 @start: comment", " #x", f" # {lab(0)}: jmp @{lab(0)}"])
        op, _, a = x.partition(" ")
        out.append(f"{pad}{label + ': ' if label else ''}{op} {sep.join(a.split(',')) if a else ''}{c}")
        if r.random() < 0.1: out.append(r.choice(["", "   ", "# only a comment", "  # R3"]))
    def wait(d):
        nonlocal t
        if d >= 4: emit(f"wait {d}"); t += d
    def wave(maxlen):
        L = r.randint(1, maxlen); a = np.round(np.array([r.uniform(-1, 1) for _ in range(L)]), 3)
        if getattr(g, "widx", None) is None: g.widx = {}
        k = g.widx.setdefault(ci, r.sample(range(0, 1000), 60) if r.random() < 0.5 else list(range(60)))
        if not k: return None
        i = k.pop(); wfs[f"{r.choice(['w', 'block', 'wf_'])}{i}"] = dict(data=[float(x) for x in a], index=i); g.mem[ci] = g.mem.get(ci, 0) + L
        return i, a
    def gain(): return r.choice([32767, -32768, 16384, r.randint(-32768, 32767)])
    if r.random() < 0.2: wait(min(r.randint(4, 20), D - 4) if D >= 8 else 0)
    while D - t >= 12 and len(out) < 40:
        k = r.choice(["play", "play", "loop", "loop", "offs", "jump", "nest"]); left = D - t
        if k in ("play", "loop") and g.mem.get(ci, 0) < 9000:
            x = wave(min(left - 4, 60)); y = wave(min(left - 4, 60)) if ch.cplx and r.random() < 0.7 else x
            if x is None or y is None: break
            g0, g1 = gain(), gain(); m = max(len(x[1]), len(y[1])); step = max(4, m, r.randint(4, max(4, min(left - 4, m + 20)))); uses = True; g.c("inline-play")
            def put(at):
                for q, gg, u in ((x, g0, 1), (y, g1, 1j if ch.cplx else 0)): w[at:at + len(q[1])] += u * q[1] * gg / 32768
            rep = 1 if k == "play" else r.randint(1, max(1, min(6, (left - 4) // step)))
            if k == "play" or step * rep > left: rep = 1
            if step > left: break
            if r.random() < 0.6: emit(f"set_awg_gain {g0},{g1}")
            else:
                a, b = r.choice(regs), r.choice(regs)
                if a == b: g1 = g0
                p = r.randint(-500, 500)
                for q, v in ([(a, g0)] if a == b else [(a, g0), (b, g1)]):
                    how = r.random()
                    if how < 0.4: emit(f"move {v % 2**32},{q}")
                    elif how < 0.7: emit(f"move {(v - p) % 2**32},{q}"); emit("nop "); emit(f"add {q},{p % 2**32},{q}" if p >= 0 else f"sub {q},{-p},{q}")
                    else: emit(f"move {(v ^ 1023) % 2**32},{q}"); emit("nop "); emit(f"xor {q},1023,{q}")
                emit("nop "); emit(f"set_awg_gain {a},{b}"); g.c("inline-reg")
            if k == "play": emit(f"play {x[0]},{y[0]},{step}")
            else:
                q = r.choice(regs); lb = lab(0) + (f"_{len(out)}" if t or out else ""); emit(f"move {rep},{q}"); emit(f"play {x[0]},{y[0]},{step}", lb); emit(f"loop {q},@{lb}"); g.c("inline-loop")
            for j in range(rep): put(t + j * step)
            t += rep * step
        elif k == "offs" and not g.hold.get(ci) and left >= 16:
            d = r.randint(4, left - 8); v0, v1 = gain() // 2, gain() // 2; w[t:t + d] += complex(v0 / 32768, v1 / 32768 if ch.cplx else 0); offs = True; uses = True; g.c("inline-offs")
            emit(f"set_awg_offs {v0},{v1}"); emit(f"upd_param {d}"); emit("set_awg_offs 0,0"); emit("upd_param 4"); t += d + 4
        elif k == "jump":          # counts up in steps and leaves when the counter reaches a bound
            a, bound, st = r.choice(regs), r.randint(1, 9), r.randint(1, 4); n = -(-bound // st); d = 4
            if n * d > left: continue
            lb = lab(1) + f"_{len(out)}"; le = lb + "e"
            emit(f"move 0,{a}"); emit("nop ", lb)
            if r.random() < 0.5: emit(f"wait {d}"); emit(f"add {a},{st},{a}"); emit("nop "); emit(f"jlt {a},{bound},@{lb}")
            else: emit(f"jge {a},{bound},@{le}"); emit(f"wait {d}"); emit(f"add {a},{st},{a}"); emit(f"jmp @{lb}"); emit("nop ", le)
            t += n * d; g.c("inline-jump")
        elif k == "nest":
            a, b = r.sample(regs, 2); n1, n2, d = r.randint(1, 5), r.randint(1, 5), r.randint(4, 12)
            if n1 * n2 * d > left: continue
            l1, l2 = lab(2) + f"_{len(out)}", lab(3) + f"_{len(out)}"
            emit(f"move {n1},{a}"); emit(f"move {n2},{b}", l1); emit(f"wait {d}", l2); emit(f"loop {b},@{l2}"); emit(f"loop {a},@{l1}"); t += n1 * n2 * d; g.c("inline-loop")
    if D - t >= 4: wait(D - t)
    D = t
    if D < 8 or 0 < maxdur - D < 4: return None
    if not safe: g.c("inline-unsafe")
    n = S.OP("InlineQ1ASM", D, program=r.choice(["\n", "\n\n    "]).join(out) + r.choice(["", "\n"]), duration=S.ns(D), port=ch.port, clock=ch.clock, safe_labels=safe)
    if wfs: n["kw"]["waveforms"] = wfs
    n.update(ch=ci, what="pulse", wave=w[:D], offs=offs); g.c("inline")
    if not wfs and safe:
        if r.random() < 0.5: g.sid += 1; n["sid"] = g.sid
        pool.append(n)
    return n

def run_job(job, mon):
    r = rng_for(job["seed"], "Q11", job["i"])
    if job["i"] % 6 == 5: return refuse(r, mon)
    rig = qb.make_rig(r)
    feat = {"pulses", "inline"} | {f for f in ("loops", "nested", "long", "offsets", "share", "overlap") if r.random() < 0.5}
    g = qb.Gen(r, rig, feat, total=r.choice([600, 3000, 3000, 8000])); g.inline = inline
    top = qb.with_clocks(g.frame(g.total, r.randint(0, 3), "top"), rig, r.randint(1, 3))
    if r.random() < 0.4:
        for ci in g.used:
            if r.random() < 0.6: rig["latency"][rig["chans"][ci].pc] = r.choice([-1, 1]) * r.randint(0, 120)
    for k, v in g.counts.items(): mon.count(k, v)
    q01.judge(rig, top, mon)

def refuse(r, mon):
    """Contradictory uses have to be reported."""
    rig = qb.make_rig(r); ci = r.randrange(len(rig["chans"])); ch = rig["chans"][ci]; kind = r.choice(["name", "index", "port", "line", "memory", "label"])
    def op(prog="wait 20", wf=None, port=ch.port): return S.OP("InlineQ1ASM", 20, program=prog, duration=S.ns(20), port=port, clock=ch.clock, **({"waveforms": wf} if wf else {}))
    i, j = r.sample(range(100), 2); d = [0.1] * r.randint(1, 10)
    if kind == "name": ops = [op(wf={"x": dict(data=d, index=i)}), op("wait 20 ", wf={"x": dict(data=[0.2], index=j)})]
    elif kind == "index": ops = [op(wf={"x": dict(data=d, index=i)}), op("wait 20 ", wf={"y": dict(data=[0.2], index=i)})]
    elif kind == "port": ops = [op(port="nowhere:" + ch.port.split(":")[-1])]
    elif kind == "line": ops = [op(prog="wait 20\n" + r.choice(["move 1 R1 : R2", "1a: nop", "move ,, R1", "a: b: nop", "@x", "wait 4; wait 4"]))]
    elif kind == "label": ops = [op(prog="a: wait 8\na: wait 12")]; return       # the assembler's business: not claimed
    else: ops = [op(wf={"x": dict(data=[0.0] * 16385, index=i)})]
    S_ = S.SCHED([S.ITEM(o) for o in ops]); S_["items"][1:] = [S.ITEM(o["node"], S.CON(ref=k, pt="end", rel=r.choice([0, 20]))) for k, o in enumerate(S_["items"][1:])]
    for o in ops: o["ch"] = ci
    top = qb.with_clocks(dict(S_, dur=200, name="s"), rig, 1)
    try: qb.compile_schedule(S.build(top), qb.config(rig))
    except Exception: mon.count("refused"); mon.case(repr((kind, S.describe(top))), True); return
    raise Violation("contradiction accepted", f"{kind}: {[o['kw'] for o in ops]}"[:600])
