"""Runs this worker's share of a property's cases under the monitors."""
import importlib, json, os, sys, time, traceback, random, zlib, warnings

warnings.simplefilter("ignore")


def main():
    job = json.loads(sys.argv[1])
    import numpy as np
    np.seterr(all="ignore")
    from mon import Monitor, Violation
    mod = importlib.import_module(job["prop"].lower())
    mon = Monitor()
    head = "finding: property=%s " % job["prop"].upper()
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")) as f:
        mon.listed = set(l.strip()[len(head):] for l in f if l.startswith(head))
    tier = job["tier"]
    cases = []
    for kind, (func, nq, nt) in sorted(mod.KINDS.items()):
        # modules whose cases are cheap run more of them
        n = int(nq*getattr(mod, "QUICK", 1)) if tier == "quick" else nt
        cases += [(kind, i, job["seed"]) for i in range(n)]
    random.Random("order").shuffle(cases)
    cases = [c for k, c in enumerate(cases) if k % job["workers"] == job["worker"]]
    if job["only"]:
        cases = [tuple(job["only"])]
    violations = []
    evaluations = 0
    budget = time.time() + (420 if tier == "quick" else 780)
    for kind, i, seed in cases:
        if time.time() > budget:
            mon.count("cases_not_run")
            continue
        with open(job["beat"], "w") as f:
            json.dump(dict(kind=kind, index=i, seed=seed, pid=os.getpid()), f)
        key = "%s:%s:%d:%d" % (job["prop"], kind, seed, i)
        rng = random.Random(key)
        np.random.seed(zlib.crc32(key.encode()) & 0x7fffffff)
        mon.begin()
        try:
            mod.KINDS[kind][0](rng, mon, tier)
        except Violation as e:
            violations.append(dict(kind=kind, index=i, seed=seed, message=str(e)[:1500], where=where()))
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            violations.append(dict(kind=kind, index=i, seed=seed,
                message="%s: %s (at %s)" % (type(e).__name__, str(e)[:500], where()), where=traceback.format_exc()[-3000:]))
        mon.end()
        evaluations += 1
        if len(violations) >= 3:
            break
    # Whole-worker statistics, if the module pools any:
    if hasattr(mod, "finish") and not violations:
        try:
            mod.finish(mon)
        except Violation as e:
            violations.append(dict(kind="finish", index=0, seed=job["seed"], message=str(e)[:1500], where=None))
    with open(job["out"] + ".tmp", "w") as f:
        json.dump(dict(violations=violations, evaluations=evaluations, counters=mon.counters,
            states=sorted(mon.states), inputs=sorted(mon.inputs), samples=mon.samples,
            known_seen=sorted(mon.known_seen), rule=mod.RULE, minimum=getattr(mod, "MINIMUM", {}),
            assumptions=getattr(mod, "ASSUMPTIONS", [])), f, default=str)
    os.rename(job["out"] + ".tmp", job["out"])


def where():
    tb = sys.exc_info()[2]
    frames = traceback.extract_tb(tb)
    tree = os.environ.get("VERIF_TREE", "")
    inside = [f for f in frames if f[0].startswith(tree)]
    f = (inside or frames)[-1]
    return "%s:%s in %s" % (os.path.relpath(f[0], tree) if inside else os.path.basename(f[0]), f[1], f[2])


main()
