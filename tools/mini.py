"""Development helper: shrink a failing generated schedule.  usage: mini.py PROP '{job}' """
import sys, os, json, copy, importlib, warnings, logging, tempfile
warnings.simplefilter("ignore"); logging.disable(50)
sys.path.insert(0, "/verif")
from rtmon import spec as S
from rtmon.core import Monitor, Violation
m = importlib.import_module("rtmon.checks." + sys.argv[1].lower()); job = json.loads(sys.argv[2])
os.chdir(tempfile.mkdtemp()); os.makedirs("data")
from quantify_core.data.handling import set_datadir; set_datadir(os.getcwd() + "/data")
parts = m.make(job); top = [x for x in parts if isinstance(x, dict) and x.get("k")][0]; rig = [x for x in parts if isinstance(x, dict) and "modules" in x][0]
def sig(t):
    try: m.judge(rig, t, Monitor())
    except Violation as e: return (e.kind, None), str(e.detail)
    except Exception as e: return (type(e).__name__, str(e)[:18]), str(e)
    finally: m.cleanup_job()
    return None, ""
s0, d0 = sig(top)
print("initial", s0)
def scheds(n):
    if n["k"] == "sched":
        yield n
        for it in n["items"]: yield from scheds(it["node"])
    elif "body" in n: yield from scheds(n["body"])
changed = s0 is not None
while changed:
    changed = False
    for path in range(len(list(scheds(top)))):
        for chunk in (16, 4, 1):
            i = 1
            while True:
                t = copy.deepcopy(top); L = list(scheds(t))
                if path >= len(L) or i >= len(L[path]["items"]): break
                if L[path]["items"][i:i + chunk] == []: break
                del L[path]["items"][i:i + chunk]
                if sig(t)[0] == s0: top = t; changed = True
                else: i += chunk
    t = copy.deepcopy(top)
    if t.get("reps", 1) > 1:
        t["reps"] = 1
        if sig(t)[0] == s0: top = t; changed = True
s, d = sig(top)
print(s); print(d[:3000]); print(S.describe(top)); print({k: v for k, v in rig.items() if k not in ("chans",)}); print([dict(c) for c in rig["chans"]])
