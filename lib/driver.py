"""Translates /repo/tracer into a scratch folder, runs a property's workload there
in several PyPy workers and turns what the monitors saw into a verdict.

    driver.py ID [quick|thorough] [--replay FILE]

Exit: 0 held, 1 violated (VIOLATION line), 2 could not build, 3 inconclusive.
"""
import concurrent.futures, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("TRACER_REPO", "/repo")
PYPY = "/opt/venvpp/bin/python"
TRANSLATOR = "/opt/vp/py3/translate.py"
CASE_LIMIT = 240        # s; normal cases take well below 5 s


def _translate_one(job):
    src, out = job
    sys.path.insert(0, os.path.dirname(TRANSLATOR))
    import translate as tr
    if not src.endswith(".py"):
        shutil.copyfile(src, out)
        return None
    try:
        text = tr.translate(src)
    except (SyntaxError, ValueError, RecursionError) as e:
        shutil.copyfile(src, out)
        return "does not parse: %s: %s" % (src, e)
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
    return None


def build(scratch):
    jobs = []
    base = os.path.join(REPO, "tracer")
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d != "__pycache__")
        dest = os.path.join(scratch, "tracer", os.path.relpath(root, base))
        os.makedirs(dest, exist_ok=True)
        for name in sorted(files):
            if not name.startswith(".") and not name.endswith(".pyc"):
                jobs.append((os.path.join(root, name), os.path.join(dest, name)))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
        return [p for p in ex.map(_translate_one, jobs) if p]


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        k = args.index("--replay")
        replay = json.load(open(args[k + 1]))
        del args[k:k + 2]
    prop = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="tracer-check-")
    code = 2
    try:
        problems = build(scratch)
        if problems:
            print("\n".join(problems), file=sys.stderr)
            return 2
        code = run(prop, tier, seed, replay, scratch, t0)
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, replay, scratch, t0):
    workers = 1 if replay else max(1, min(8, os.cpu_count() or 1))
    env = dict(os.environ)
    env.update(PYTHONPATH=scratch + os.pathsep + LIB + os.pathsep + os.path.join(VERIF, "checks"),
        VERIF_TREE=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", HOME=scratch)
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, "out%d.json" % w)
        beat = os.path.join(scratch, "beat%d" % w)
        job = dict(prop=prop, tier=tier, seed=seed, worker=w, workers=workers, out=out, beat=beat,
            only=None if replay is None else [replay["kind"], replay["index"], replay["seed"]])
        procs.append((subprocess.Popen([PYPY, os.path.join(LIB, "worker.py"), json.dumps(job)],
            env=env, cwd=scratch, stdout=sys.stderr, stderr=sys.stderr, start_new_session=True), out, beat))
    hung = []
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.05)
        for p, out, beat in procs:
            if p.poll() is None and os.path.exists(beat) and time.time() - os.path.getmtime(beat) > CASE_LIMIT:
                try:
                    hung.append(json.load(open(beat)))
                except ValueError:
                    continue
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
    results, broken = [], []
    for p, out, beat in procs:
        if os.path.exists(out):
            results.append(json.load(open(out)))
        elif not any(h.get("pid") == p.pid for h in hung):
            broken.append(p.returncode)

    violations = [v for r in results for v in r["violations"]]
    for h in hung:
        violations.append(dict(kind=h["kind"], index=h["index"], seed=h["seed"],
            message="the case did not finish within %d s" % CASE_LIMIT, where=None))
    counters, states, inputs, samples = {}, set(), set(), []
    evaluations = 0
    for r in results:
        evaluations += r["evaluations"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        states.update(r["states"])
        inputs.update(r["inputs"])
        if len(samples) < 4:
            samples.extend(r["samples"][:1])
    rule = results[0]["rule"] if results else "no worker finished"
    minimum = results[0]["minimum"] if results else {}
    short = {k: (counters.get(k, 0), m) for k, m in minimum.items() if counters.get(k, 0) < m}

    code, lines = 0, []
    if violations:
        code = 1
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in violations[:1]:
            v["property"] = prop
            name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12])
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            lines.append("  %s case %s: %s" % (v["kind"], v["index"], v["message"]))
        if len(violations) > 1:
            lines.append("  (%d violations in all; further: %s)" % (len(violations),
                "; ".join(sorted({v["message"][:100] for v in violations[1:]})[:6])))
    elif replay is None and (broken or short or not results):
        code = 3
        lines.append("INCONCLUSIVE property=%s workers lost=%s below minimum=%s" % (prop, broken, short))
    if replay is None:
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(evaluations=evaluations, distinct_nontrivial=len(inputs), rule=rule,
                samples=samples or ["none"], events=dict(sorted(counters.items())),
                distinct_states_observed=len(states)),
            assumptions=results[0]["assumptions"] if results else [],
            wall_s=round(time.time() - t0, 2), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if code == 0:
        known = results[0].get("known", []) if results else []
        for k in sorted({k for r in results for k in r.get("known_seen", [])}):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k))
        lines.append("held: %s %s seed=%d cases=%d nontrivial=%d states=%d wall=%.1fs %s" % (prop, tier, seed,
            evaluations, len(inputs), len(states), time.time() - t0,
            " ".join("%s=%d" % kv for kv in sorted(counters.items()))))
    print("\n".join(lines))
    return code


if __name__ == "__main__":
    sys.exit(main())
