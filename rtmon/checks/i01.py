"""I01: instrument coordination follows prepare, start, wait, retrieve, stop."""
import warnings
import numpy as np
from rtmon.core import rng_for, Violation
from rtmon import dev

LEVEL = "exploration"
RULE = ("A case is one history of user calls (add, remove, get, prepare, start, stop, wait, retrieve, is_running, last_schedule) on a coordinator with one to six recording components, faults injected into component calls; every call's "
        "outcome and component call log are compared with a reference model, merged results value by value with what every component returned. Further cases: histories of parameter settings through the generic component. "
        "Non-trivial: at least one schedule was prepared, started and read; distinct by history content.")
ASSUMPTIONS = ["a component that the prepared schedule uses is not removed before the next preparation", "the coordinator used is InstrumentCoordinator (not the ZI variant)", "coordinates named by the user differ between components that share an acquisition channel"]
MINIMUM = {"histories": 1400, "calls": 30000, "prepare": 7000, "start": 3500, "retrieve": 3500, "stop": 3500, "faults": 4500, "merged-channels": 3500, "shared-channels": 300, "conflicts": 22, "refusals": 7000, "generic-sets": 13000, "generic-lazy-skips": 1800, "profiled": 450}
JOB_LIMIT_S = 200

def jobs(tier, seed):
    n = 24 if tier == "quick" else 600
    out = []
    for i in range(n): out += [dict(kind="history", i=i, seed=seed), dict(kind="generic", i=i, seed=seed)]
    return out

def cleanup_job(): dev.close_all()

class Fault(Exception): pass

def recorder(name, log):
    from qcodes.instrument import Instrument
    from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase
    class Rec(InstrumentCoordinatorComponentBase):
        def _call(self, what, *args):
            log.append((what, self.instrument.name) + args)
            e = self.faults.pop(what, None)
            if e is not None: raise e
        @property
        def is_running(self): return self.running
        def start(self): self._call("start")
        def stop(self): self._call("stop")
        def prepare(self, program): self._call("prepare", program)
        def retrieve_acquisition(self):
            self._call("retrieve"); return self.result
        def wait_done(self, timeout_sec=10): self._call("wait", timeout_sec)
        def get_hardware_log(self, compiled_schedule): return None
    c = Rec(Instrument(name)); c.faults = {}; c.running = False; c.result = None
    return c

def compiled(instr, r):
    from quantify_scheduler.schedules.schedule import Schedule, CompiledSchedule
    s = Schedule(f"s{r.randrange(10**6)}")
    s["compiled_instructions"] = instr
    return CompiledSchedule(s)

# --- results ------------------------------------------------------------------------------------------------
def results(r, names, mon):
    """Datasets for every component: own channels, channels shared with disjoint indices, sometimes conflicting."""
    import xarray as xr
    data = {n: {} for n in names}; conflict = False
    reps = r.choice([1, 2, 5])
    def array(kind, ch, idx, coords=None):
        d = f"acq_index_{ch}"
        if kind == "average": a = xr.DataArray(np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in idx]), dims=[d], coords={d: list(idx)})
        elif kind == "append": a = xr.DataArray(np.array([[complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in idx] for _ in range(reps)]), dims=["repetition", d], coords={d: list(idx)})
        elif kind == "int": a = xr.DataArray(np.array([[float(r.randrange(100)) for _ in idx] for _ in range(reps)]), dims=["repetition", d], coords={d: list(idx)})
        else: a = xr.DataArray(np.array([[complex(r.random(), r.random()) for _ in range(7)] for _ in idx]), dims=[d, f"trace_index_{ch}"], coords={d: list(idx)})
        if coords: a = a.assign_coords({coords: (d, [r.random() for _ in idx])})
        a.attrs["acq_protocol"] = kind
        return a
    for n in names:
        for k in range(r.choice([0, 1, 1, 2, 3])):
            ch = r.choice([f"{n}_{k}", hash(n) % 1000 * 10 + k])
            m = r.choice([1, 2, 5])
            data[n][ch] = array(r.choice(["average", "append", "int", "trace"]), ch, range(m), r.choice([None, f"amp_{n}_{k}"]))
    if len(names) > 1 and r.random() < 0.75:
        ch = r.choice(["shared", 0]); kind = r.choice(["average", "append", "int", "trace"])
        part = r.sample(list(names), r.randrange(2, len(names) + 1))
        idx = list(range(len(part) * 3)); r.shuffle(idx)
        mode = r.choice(["disjoint", "disjoint", "nan", "conflict"])
        for k, n in enumerate(part): data[n][ch] = array(kind, ch, sorted(idx[3 * k: 3 * k + r.choice([1, 2, 3])]))
        if mode == "nan":     # an index defined twice, only once with a value
            a, b = data[part[0]][ch], data[part[1]][ch]
            i = b.coords[f"acq_index_{ch}"].values[0]
            extra = array(kind, ch, [i]); extra[:] = np.nan
            data[part[0]][ch] = xr.concat([a, extra], dim=f"acq_index_{ch}").sortby(f"acq_index_{ch}")
        if mode == "conflict":
            a, b = r.sample(part, 2)
            i = data[b][ch].coords[f"acq_index_{ch}"].values[-1]
            new = array(kind, ch, [i])
            if new.ndim == 2 and kind != "trace" and reps > 1: new[0] = np.nan          # only some repetitions conflict
            data[a][ch] = xr.concat([data[a][ch], new], dim=f"acq_index_{ch}").sortby(f"acq_index_{ch}")
            conflict = True
        mon.count("shared-channels")
    out = {}
    for n in names:
        items = list(data[n].items()); r.shuffle(items)
        out[n] = None if not items and r.random() < 0.5 else xr.Dataset(dict(items))
    return out, conflict

def compare(merged, parts, mon):
    seen = {}
    for n, ds in parts.items():
        if ds is None: continue
        for ch, a in ds.items():
            if ch not in merged: raise Violation("data-lost", f"channel {ch!r} of {n} is not in the merged result {list(merged)}")
            m = merged[ch]; mon.count("merged-channels")
            if set(m.dims) != set(a.dims): raise Violation("data-shape", f"channel {ch!r}: {m.dims} instead of {a.dims}")
            d = f"acq_index_{ch}"
            got = m.sel({d: a.coords[d]}).transpose(*a.dims).values; want = a.values
            ok = np.isnan(want) | (got == want)
            if got.shape != want.shape or not ok.all(): raise Violation("data-changed", f"channel {ch!r} of {n}: {want} became {got}")
            seen.setdefault(ch, [0, []]); seen[ch][0] += int((~np.isnan(want)).sum()); seen[ch][1] += list(a.coords[d].values)
            for c in a.coords:
                if c == d: continue
                if c not in m.coords or not np.array_equal(m.coords[c].sel({d: a.coords[d]}).values, a.coords[c].values): raise Violation("coordinate-changed", f"coordinate {c} of channel {ch!r} of {n}")
    if set(seen) != set(merged.data_vars): raise Violation("data-invented", f"channels {list(merged)} instead of {list(seen)}")
    for ch, (k, idx) in seen.items():
        if int((~np.isnan(merged[ch].values)).sum()) != k: raise Violation("data-invented", f"channel {ch!r} has {int((~np.isnan(merged[ch].values)).sum())} values, the components returned {k}")
        if sorted(set(idx)) != sorted(merged[ch].coords[f"acq_index_{ch}"].values): raise Violation("data-invented", f"channel {ch!r} has indices {merged[ch].coords[f'acq_index_{ch}'].values}, the components {idx}")

# --- one history --------------------------------------------------------------------------------------------
def history(r, mon, tag, profiled=False):
    from qcodes.instrument import Instrument
    from quantify_scheduler.schedules.schedule import Schedule
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components.base import instrument_to_component_name
    log = []
    ic = top = InstrumentCoordinator("coordinator", add_default_generic_icc=False)
    names = r.sample(["awg", "magic_box", "uhf", "ic_1", "cluster0", "dev0", "dev1", "a", "lo_ic_2"], r.choice([1, 2, 3, 3, 4, 5, 6]))
    comp = {n: recorder(n, log) for n in names}
    added = []; prepared = None; started = False; trace = []; full = False; last = None
    inst = None
    def call(f, *a, **k):
        del log[:]
        mon.count("calls")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try: return f(*a, **k), None, w
            except Exception as e: return None, e, w
    def bad(what, exc=None): raise Violation("call-order" if exc is None else "outcome", f"{what}; components {added}, prepared {list(prepared) if prepared is not None else None}; calls seen {[x[:2] for x in log]}; outcome {exc!r}; history {trace}")
    def faults(where, among):
        """Arm a fault in some component of `among`; gives {name: exception}."""
        out = {}
        if among and r.random() < 0.3:
            for n in r.sample(among, r.choice([1, 1, min(2, len(among))])):
                e = r.choice([Fault(n), RuntimeError(n), AttributeError(n), KeyError(n), TimeoutError(n)]); out[n] = e; comp[n].faults[where] = e; mon.count("faults")
        return out
    def clear():
        for c in comp.values(): c.faults.clear()
    for step in range(r.randrange(12, 36)):
        ops = ["add", "prepare", "prepare", "start", "start", "retrieve", "retrieve", "stop", "stop", "wait", "running", "remove", "get", "last", "timeout"]
        op = "add" if not added and r.random() < 0.7 else "prepare" if added and prepared is None and r.random() < 0.5 else r.choice(ops)
        trace.append(op)
        if op == "add":
            what = r.choice(["new", "new", "new", "again", "other", "object"])
            rest = [n for n in names if n not in added]
            if what == "again" and added:
                _, e, _ = call(ic.add_component, comp[r.choice(added)]); mon.count("refusals")
                if not isinstance(e, ValueError): bad("a component was added twice", e)
            elif what in ("other", "object"):
                o = Instrument("plain") if what == "other" and not Instrument.exist("plain") else r.choice([object(), "dev0", None, 3, comp[names[0]].instrument])
                _, e, _ = call(ic.add_component, o); mon.count("refusals")
                if not isinstance(e, TypeError): bad(f"{o!r} was added as a component", e)
            elif rest:
                n = r.choice(rest); _, e, _ = call(ic.add_component, comp[n])
                if e: bad(f"component {n} was refused", e)
                added.append(n)
            if [instrument_to_component_name(n) for n in added] != list(ic.components()): bad(f"components {ic.components()} after adding")
        elif op == "remove":
            free = [n for n in added if prepared is None or n not in prepared]
            if r.random() < 0.3 and free:
                n = r.choice(free); _, e, _ = call(ic.remove_component, instrument_to_component_name(n))
                if e: bad(f"component {n} could not be removed", e)
                added.remove(n)
                if [instrument_to_component_name(n) for n in added] != list(ic.components()): bad(f"components {ic.components()} after removing")
        elif op == "get":
            n = r.choice(names + ["ghost"]); x, e, _ = call(ic.get_component, instrument_to_component_name(n))
            if n in added and x is not comp[n]: bad(f"get_component gave {x} for {n}", e)
            if n not in added:
                mon.count("refusals")
                if not isinstance(e, KeyError) or n not in str(e): bad(f"unknown component {n}: the error does not name it", e)
            _, e, _ = call(ic.get_component, r.choice(["ghost", n]))
            if not isinstance(e, KeyError): bad("a name without component was not a KeyError", e)
        elif op == "prepare":
            use = r.sample(added, max(r.randrange(len(added) + 1), r.randrange(len(added) + 1)))
            ghost = [n for n in names + ["ghost"] if n not in added] if r.random() < 0.15 else []
            what = r.choice(["ok"] * 9 + ["schedule", "other"])
            if ghost: use.insert(r.randrange(len(use) + 1), r.choice(ghost))
            instr = {n: {"program": r.randrange(10**6), "of": n} if r.random() < 0.8 else r.choice([{}, None, [n], n]) for n in use}
            f = faults("prepare", [n for n in use if n in added])
            if what == "schedule": obj = Schedule("raw"); obj["compiled_instructions"] = dict(instr)
            elif what == "other": obj = r.choice([None, dict(compiled_instructions=dict(instr)), "schedule"])
            else: obj = compiled(dict(instr), r)
            _, e, _ = call(ic.prepare, obj); clear(); mon.count("prepare")
            prepared = None; started = False
            if what != "ok":
                mon.count("refusals")
                if e is None or log: bad(f"{obj!r} was prepared", e)
                if what == "schedule" and not isinstance(e, TypeError): bad("an uncompiled schedule was not refused with a TypeError", e)
            elif any(n not in added for n in use):
                mon.count("refusals")
                if f and e is not None and any(e is x for x in f.values()): pass
                elif not isinstance(e, KeyError): bad(f"instructions for unknown instruments in {use} were accepted", e)
            elif f:
                if not any(e is x for x in f.values()): bad(f"a failing preparation of {list(f)} was not reported", e)
            else:
                if e is not None: bad(f"preparing {use} failed", e)
                if sorted(x[1] for x in log) != sorted(use) or any(x[0] != "prepare" for x in log): bad(f"prepare of {use}")
                for x in log:
                    if x[2] != instr[x[1]]: bad(f"{x[1]} was prepared with {x[2]} instead of {instr[x[1]]}")
                prepared = instr; last = obj
            if e is not None and any(x[0] != "prepare" or x[1] not in use or x[2] != instr[x[1]] for x in log): bad(f"calls during a failing prepare of {use}", e)
        elif op == "start":
            use = [n for n in added if prepared is not None and n in prepared]
            f = faults("start", use)
            _, e, _ = call(ic.start); clear(); mon.count("start")
            if prepared is None:
                mon.count("refusals")
                if not isinstance(e, ValueError) or log: bad("started without a prepared schedule", e)
            elif f:
                if not any(e is x for x in f.values()): bad(f"a failing start of {list(f)} was not reported", e)
                if any(x[0] != "start" or x[1] not in use for x in log): bad("start", e)
            else:
                if e: bad("start failed", e)
                if log != [("start", n) for n in use]: bad(f"start of {use}")
                started = True
        elif op == "stop":
            f = faults("stop", added); allow = r.random() < 0.5
            _, e, w = call(ic.stop, allow_failure=allow) if allow or r.random() < 0.5 else call(ic.stop); clear(); mon.count("stop")
            if log != [("stop", n) for n in added]: bad(f"stop (allow_failure={allow}, faults {f})", e)
            left = [x for x in f.values() if not (allow and isinstance(x, AttributeError))]
            if left and not any(e is x for x in left): bad(f"stop with faults {f} gave no error", e)
            if not left and e is not None: bad(f"stop with faults {f}, allow_failure={allow}", e)
            soft = [n for n, x in f.items() if allow and isinstance(x, AttributeError)]
            for n in soft:
                if not any(n in str(x.message) for x in w): bad(f"no warning about the failing stop of {n}", e)
        elif op == "wait":
            f = faults("wait", added); t = r.choice([1, 0.5, 10, 33])
            _, e, _ = call(ic.wait_done, t); clear()
            if f and not any(e is x for x in f.values()): bad(f"a failing wait of {list(f)} was not reported", e)
            if not f and (e is not None or sorted(log) != sorted(("wait", n, t) for n in added)): bad(f"wait_done({t})", e)
        elif op == "timeout":
            ic.timeout(r.choice([1, 7, 60, 0.25]))
        elif op == "running":
            for c in comp.values(): c.running = r.random() < 0.4
            x, e, _ = call(lambda: ic.is_running)
            if e or bool(x) != any(comp[n].running for n in added): bad(f"is_running is {x} for {[(n, comp[n].running) for n in names]}", e)
        elif op == "last":
            x, e, _ = call(lambda: ic.last_schedule)
            if last is None:
                pass
            elif prepared is not None and x is not last: bad("last_schedule is not the prepared schedule", e)
        elif op == "retrieve":
            use = [n for n in added if prepared is not None and n in prepared]
            parts, conflict = results(r, list(prepared) if prepared is not None else [], mon)
            for n in names: comp[n].result = parts.get(n) if n in parts else results(r, [n], mon)[0][n]
            where = r.choice(["wait", "retrieve"]); f = faults(where, use)
            before = {n: (None if p is None else p.copy(deep=True)) for n, p in parts.items()}
            x, e, _ = call(ic.retrieve_acquisition); clear(); mon.count("retrieve")
            if prepared is None:
                mon.count("refusals")
                if not isinstance(e, ValueError) or log: bad("results without a prepared schedule", e)
                continue
            for n in use:
                ks = [k for k, c in enumerate(log) if c[1] == n]
                kinds = [log[k][0] for k in ks]
                if kinds.count("retrieve") > 1 or (e is None and kinds.count("retrieve") != 1): bad(f"{n} was read {kinds.count('retrieve')} times", e)
            rd = [k for k, c in enumerate(log) if c[0] == "retrieve"]
            if any(c[0] == "retrieve" and c[1] not in use for c in log) or any(c[0] not in ("wait", "retrieve") for c in log): bad("retrieve", e)
            if any(c[0] == "wait" and c[2] != ic.timeout() for c in log): bad(f"waited with another timeout than {ic.timeout()}: {log}", e)
            if rd and not set(use) <= {c[1] for c in log[:rd[0]] if c[0] == "wait"}: bad("data was read before every used component was awaited", e)
            if f:
                if not any(e is y for y in f.values()) and not (conflict and isinstance(e, RuntimeError)): bad(f"a failing {where} of {list(f)} was not reported", e)
                continue
            if conflict:
                mon.count("conflicts")
                if not isinstance(e, RuntimeError): bad("two components defined the same channel and index", e)
                continue
            if e is not None: bad("retrieve failed", e)
            compare(x, parts, mon); full = full or bool(parts)
            for n, p in parts.items():
                if p is not None and not p.identical(before[n]): bad(f"the data of {n} was changed while merging")
    mon.count("histories"); mon.case(tuple(trace) + tuple(names), full)

# --- generic component --------------------------------------------------------------------------------------
def generic(r, mon):
    import qcodes
    from qcodes.instrument import Instrument, InstrumentChannel
    from qcodes import validators as V
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    from quantify_scheduler.instrument_coordinator.components.generic import GenericInstrumentCoordinatorComponent
    log = []
    ic = InstrumentCoordinator("coordinator")
    g = ic.get_component("ic_generic")
    state = {}; special = {}
    def setter(key): return lambda v: log.append((key, v))
    for k in range(r.randrange(1, 4)):
        n = f"inst{k}"; root = Instrument(n)
        nodes = [(n, root)]
        for c in range(r.randrange(0, 3)):
            ch = InstrumentChannel(nodes[r.randrange(len(nodes))][1], f"ch{c}")
            path = [p for p, o in nodes if o is ch.parent][0]
            ch.parent.add_submodule(f"ch{c}", ch); nodes.append((f"{path}.ch{c}", ch))
        for path, o in nodes:
            for q in range(r.randrange(1, 4)):
                key = f"{path}.p{q}"
                o.add_parameter(f"p{q}", set_cmd=setter(key), get_cmd=None, **({"initial_value": 0.0} if r.random() < 0.3 else {}))
                del log[:]
                state[key] = o.parameters[f"p{q}"]
            if r.random() < 0.4:
                key = f"{path}.lim"; o.add_parameter("lim", set_cmd=setter(key), get_cmd=None, vals=V.Numbers(0, 1)); special[key] = "limited"
            if r.random() < 0.4:
                key = f"{path}.fun"; o.add_function("fun", call_cmd=setter(key), args=[V.Numbers()]); special[key] = "function"
        if r.random() < 0.5:
            setattr(root, "method", setter(f"{n}.method")); special[f"{n}.method"] = "method"
    want = {}
    for step in range(r.randrange(4, 14)):
        what = r.choice(["set"] * 6 + ["outside", "bad"])
        force = r.random() < 0.4; g.force_set_parameters(force)
        if what == "outside":
            k = r.choice(list(state)); v = r.random(); state[k].set(v); want[k] = v; continue
        keys = r.sample(list(state), r.randrange(1, len(state) + 1)) + [k for k in special if r.random() < 0.3]
        r.shuffle(keys)
        cfg = {}
        for k in keys:
            v = r.choice([r.random() * 1e10, 0.0, float(r.randrange(3)), True, False, r.randrange(-30, 30), "on", np.float64(r.random()), [1.0, r.random()]]) if k not in special else r.random()
            if k in want and r.random() < 0.4: v = want[k]
            if k not in special and r.random() < 0.1: v = np.array([r.random(), 1.0, float(r.randrange(3))])
            cfg[k] = v
        if what == "bad":
            key, exc = r.choice([("frequency", KeyError), ("ghost.p0", KeyError), ("inst0.ghost", Exception), ("inst0", KeyError), ("inst0.ch9.p0", Exception), ("inst0.p0.x", Exception)])
            del log[:]
            try: ic.get_component("ic_generic").prepare({key: 0.5})
            except exc: mon.count("refusals")
            else: raise Violation("unknown-parameter", f"{key} was accepted")
            if log: raise Violation("unknown-parameter", f"{key} set {log}")
            lim = [k for k, s in special.items() if s == "limited"]
            if lim:
                try: g.prepare({lim[0]: 3.0})
                except Exception: mon.count("refusals")
                else: raise Violation("invalid-value", f"{lim[0]} accepted 3.0 although limited to 0..1")
                if log: raise Violation("invalid-value", f"{lim[0]} set {log}")
            continue
        def eq(a, b): return np.array_equal(a, b) if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)) else a == b
        known = {k: (state[k].cache.valid and eq(want[k], v)) if k in state and k in want else False for k, v in cfg.items()}
        del log[:]
        if r.random() < 0.5: g.prepare(dict(cfg))
        else: ic.prepare(compiled({"generic": dict(cfg)}, r))
        calls = {}
        for k, v in log: calls.setdefault(k, []).append(v)
        for k in calls:
            if k not in cfg: raise Violation("other-parameter", f"{k} was set to {calls[k]}; requested {cfg}")
        for k, v in cfg.items():
            mon.count("generic-sets")
            vs = calls.get(k, [])
            if any(not eq(x, v) for x in vs): raise Violation("wrong-value", f"{k} was set to {vs} instead of {v}")
            if k in special and special[k] != "limited" and len(vs) != 1: raise Violation("not-called", f"{special[k]} {k} was called {len(vs)} times with force {force}")
            if force and len(vs) != 1: raise Violation("not-forced", f"{k} was set {len(vs)} times although setting is forced")
            if k in state:
                if not eq(state[k].get(), v): raise Violation("wrong-value", f"{k} is {state[k].get()} after setting {v} (force {force})")
                if known[k] and not force: mon.count("generic-lazy-skips")
                want[k] = v
    mon.case(repr(sorted(map(str, want.items())))[:400], len(want) > 0)

def profiled(r, mon):
    """The profiled coordinator passes every call on and returns the same results."""
    from quantify_scheduler.gettables_profiled import ProfiledInstrumentCoordinator
    from quantify_scheduler.instrument_coordinator import InstrumentCoordinator
    log = []
    parent = InstrumentCoordinator("parent", add_default_generic_icc=False)
    names = [f"dev{k}" for k in range(r.randrange(1, 4))]
    comp = {n: recorder(n, log) for n in names}
    for n in names: parent.add_component(comp[n])
    pic = ProfiledInstrumentCoordinator("profiled", parent)
    for k in range(3):
        use = r.sample(names, r.randrange(1, len(names) + 1)); instr = {n: {"x": r.random()} for n in use}
        parts, conflict = results(r, use, mon)
        for n in names: comp[n].result = parts.get(n)
        del log[:]
        try: pic.prepare(compiled(dict(instr), r)); pic.start(); pic.wait_done(5); x = pic.retrieve_acquisition(); pic.stop()
        except RuntimeError:
            if conflict: continue
            raise
        if conflict: raise Violation("outcome", "profiled coordinator merged conflicting data")
        compare(x, parts, mon)
        if sorted(c[1] for c in log if c[0] == "prepare") != sorted(use) or any(c[0] == "prepare" and c[2] != instr[c[1]] for c in log): raise Violation("call-order", f"profiled prepare of {use}: {log}")
        if [c[1] for c in log if c[0] == "start"] != [n for n in names if n in use]: raise Violation("call-order", f"profiled start of {use}: {log}")
        if [c[1] for c in log if c[0] == "stop"] != names: raise Violation("call-order", f"profiled stop: {log}")
        mon.count("profiled")

def run_job(job, mon):
    if job["kind"] == "history":
        for k in range(120):
            r = rng_for("i01", "history", job["i"], k, job["seed"])
            history(r, mon, (job["i"], k)); dev.close_all()
            if k % 9 == 0: profiled(rng_for("i01", "profiled", job["i"], k, job["seed"]), mon); dev.close_all()
    else:
        for k in range(30):
            generic(rng_for("i01", "generic", job["i"], k, job["seed"]), mon); dev.close_all()
