"""Development helper: run the jobs of a check and list every violation.  usage: dbg.py PROP [tier] [seed] [maxjobs]"""
import sys, os, json, importlib, warnings, logging, tempfile, collections, multiprocessing as mp, traceback
def one(a):
    mod, job = a
    warnings.simplefilter("ignore"); logging.disable(50)
    from rtmon.core import Monitor, Violation, Skip
    m = importlib.import_module("rtmon.checks." + mod); mon = Monitor(); out = []
    try: m.run_job(job, mon)
    except Skip: pass
    except Violation as e: out.append((e.kind, e.detail, e.mechanism))
    except Exception as e: out.append(("EXC " + type(e).__name__, str(e)[:300] + "\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]), None))
    finally:
        try: m.cleanup_job()
        except Exception: pass
    out += [(v["kind"], v["detail"], v["mechanism"]) for v in mon.violations]
    return job, out, dict(mon.counts)
if __name__ == "__main__":
    p = sys.argv[1].lower(); tier = sys.argv[2] if len(sys.argv) > 2 else "quick"; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
    if tier.startswith("{"): jobs = [json.loads(tier)]
    else: jobs = list(importlib.import_module("rtmon.checks." + p).jobs(tier, seed))[:mx]
    os.chdir(tempfile.mkdtemp()); os.makedirs("data", exist_ok=True)
    from quantify_core.data.handling import set_datadir; set_datadir(os.getcwd() + "/data")
    tot = collections.Counter(); by = collections.defaultdict(list)
    def init():
        os.chdir(tempfile.mkdtemp())
        if len(jobs) > 1: dn = open(os.devnull, "w"); os.dup2(dn.fileno(), 1); os.dup2(dn.fileno(), 2)
    with mp.Pool(8, initializer=init, maxtasksperchild=400) as pool:
        for job, out, c in pool.imap_unordered(one, [(p, j) for j in jobs]):
            tot.update(c)
            for k, d, m in out: by[k, m].append((job, str(d)))
    for k, v in sorted(by.items(), key=lambda x: -len(x[1])):
        print("=====", k, len(v))
        for j, d in v[:3 if len(jobs) > 1 else 30]: print("  JOB", json.dumps(j), "\n     ", d[:700 if len(jobs) > 1 else 8000].replace("\n", "\n      "))
    print(dict(tot))
    if len(jobs) == 1 and os.environ.get("DUMP"):
        from rtmon import spec as S
        m = importlib.import_module("rtmon.checks." + p)
        for x in m.make(jobs[0]):
            if isinstance(x, dict) and x.get("k"): print(S.describe(x)[:6000])
