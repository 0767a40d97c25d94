from __future__ import annotations
import collections, importlib, json, os, shutil, signal, sys, tempfile, time, traceback, warnings, logging, hashlib, multiprocessing as mp

VERIF = os.environ.get("RTMON_VERIF", "/verif")
REPO = os.environ.get("RTMON_REPO", "/repo")

class JobTimeout(BaseException):
    pass

def _alarm(*_):
    raise JobTimeout()

def _run_one(args):
    modname, job, limit = args
    from rtmon.core import Monitor, Violation, Skip
    mod = sys.modules[modname]
    mon = Monitor()
    res = dict(job=job, error=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t0 = time.time()
    try:
        mod.run_job(job, mon)
    except Violation as e:
        mon.violations.append(dict(kind=e.kind, detail=str(e.detail)[:6000], mechanism=e.mechanism))
    except Skip as e:
        mon.counts["skipped"] += 1
    except JobTimeout:
        res["error"] = "timeout"
    except MemoryError:
        res["error"] = "memory"
    except Exception as e:
        # The workloads are valid inputs of the library; an execution that cannot be completed or
        # whose result cannot be interpreted refutes the property on that input.
        tb = traceback.format_exc()
        mon.violations.append(dict(kind="exception:" + type(e).__name__, detail=tb[-6000:], mechanism=None))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        cl = getattr(mod, "cleanup_job", None)
        if cl:
            try: cl()
            except Exception: pass
    res.update(counts=dict(mon.counts), keys=list(mon.keys), samples=mon.samples[:1], violations=mon.violations, t=time.time() - t0)
    return res

def main(argv):
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    tmp = tempfile.mkdtemp(prefix="rtmon_")
    os.chdir(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    code = 2
    try:
        code = _main(prop, tier, argv, seed, t_start)
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)

def _main(prop, tier, argv, seed, t_start):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.path[:] = [p for p in sys.path if p not in ("", os.getcwd())]
    import quantify_scheduler
    if not os.path.realpath(quantify_scheduler.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("wrong tree imported:", quantify_scheduler.__file__); return 2
    from quantify_core.data.handling import set_datadir
    os.makedirs("data", exist_ok=True); set_datadir(os.path.join(os.getcwd(), "data"))
    modname = "rtmon.checks." + prop.lower()
    mod = importlib.import_module(modname)
    limit = getattr(mod, "JOB_LIMIT_S", 120)
    evdir = os.path.join(VERIF, "evidence"); repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    replay = None
    if tier == "replay":
        replay = json.load(open(argv[2])); seed = replay["seed"]
        jobs = [replay["job"]]
    else:
        jobs = list(mod.jobs(tier, seed))
    budget = float(os.environ.get("RTMON_BUDGET", {"quick": 240, "thorough": 780}.get(tier, 600)))
    only = os.environ.get("RTMON_ONLY")
    if only: jobs = [j for j in jobs if only in json.dumps(j)]
    known = {}
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf))["findings"]:
            if e["property"] == prop: known[e["mechanism"]] = e
    hit = {}
    counts = collections.Counter(); keys = set(); samples = []; viols = []; errors = []; njobs = 0; slow = []
    nproc = int(os.environ.get("RTMON_PROCS", "8"))
    truncated = False
    def absorb(r):
        nonlocal njobs
        njobs += 1
        counts.update(r["counts"]); keys.update(r["keys"])
        if len(samples) < 6 and r["samples"]: samples.extend(r["samples"])
        for v in r["violations"]:
            if v["mechanism"] and v["mechanism"] in known: hit.setdefault(v["mechanism"], v)
            else: viols.append((r["job"], v))
        if r["error"]: errors.append((r["job"], r["error"]))
        slow.append((r["t"], json.dumps(r["job"])[:100]))
    args = [(modname, j, limit) for j in jobs]
    if nproc <= 1 or len(args) <= 1:
        for a in args: absorb(_run_one(a))
    else:
        import gc; gc.collect(); gc.freeze()
        def init():
            d = tempfile.mkdtemp(prefix="w_"); os.chdir(d)
            dn = open(os.devnull, "w"); os.dup2(dn.fileno(), 1); os.dup2(dn.fileno(), 2)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(nproc, len(args)), initializer=init, maxtasksperchild=getattr(mod, "MAXTASKS", 400)) as pool:
            it = pool.imap_unordered(_run_one, args, chunksize=1)
            while True:
                try:
                    r = it.next(timeout=max(1.0, t_start + budget - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    truncated = True; pool.terminate(); break
                absorb(r)
                if len(viols) > 60: pool.terminate(); truncated = True; break
                if time.time() - t_start > budget: truncated = True; pool.terminate(); break
    real = viols
    for m in hit: print(f"KNOWN-FINDING: property={prop} {m}: {known[m]['what']}")
    cov = dict(evaluations=int(counts.get("evaluations", 0)), distinct_nontrivial=len(keys), rule=mod.RULE,
               samples=samples[:6] or ["(none)"], jobs=njobs,
               observed={k: int(v) for k, v in sorted(counts.items()) if k != "evaluations"}, truncated=truncated,
               known_findings_seen=sorted(hit))
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t_start, 2), violations=len(real))
    from rtmon.core import jdump
    if tier in ("quick", "thorough") and not only:
        with open(os.path.join(evdir, prop + ".json"), "w") as f: f.write(jdump(ev))
    if os.environ.get("RTMON_VERBOSE"):
        print(json.dumps(cov["observed"], indent=1)); print("evals", cov["evaluations"], "distinct", len(keys), "wall", ev["wall_s"], "slowest", sorted(slow)[-3:])
    if real:
        seen = set()
        for job, v in real:
            sig = (v["kind"], v["mechanism"])
            if sig in seen and len(seen) > 0: continue
            seen.add(sig)
            h = hashlib.sha1(jdump([job, v["kind"]]).encode()).hexdigest()[:10]
            path = os.path.join(repdir, f"{prop}-{h}.json")
            with open(path, "w") as f: f.write(jdump(dict(property=prop, seed=seed, job=job, violation=v)))
            print(f"VIOLATION property={prop} replay={path}")
            print("  ", v["kind"], "|", str(v["detail"])[-1500:] if tier != "replay" else v["detail"])
            if len(seen) >= 6: break
        return 1
    if errors:
        print("INCONCLUSIVE: jobs not completed:", errors[:3]); return 2
    if replay: print("replay: no violation"); return 0
    mins = dict(getattr(mod, "MINIMUM", {}))
    low = {k: (int(counts.get(k, 0)), m) for k, m in mins.items() if counts.get(k, 0) < m}
    if not only and (low or cov["evaluations"] == 0 or len(keys) == 0):
        print("INCONCLUSIVE: monitors observed too little:", low); return 2
    print(f"OK property={prop} evaluations={cov['evaluations']} distinct={len(keys)} wall={ev['wall_s']}s" + (" truncated" if truncated else ""))
    return 0

if __name__ == "__main__":
    main(sys.argv[1:])
