"""Runs one check: seeded cases over worker processes, minimisation, replay, evidence."""
import argparse, hashlib, json, multiprocessing as mp, os, queue, re, subprocess, sys, time, traceback

VF = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(VF)
sys.path.insert(0, VF)
import build as B
import runner as RN

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

COMPONENTS = {
    "real": ["all of /repo/src: main, settings, expression parser, mesh reader, time integration, solvers, algebra, "
             "energies, recentering, spin accumulation, savers and readers (compiled from the working tree)",
             "libyaml-cpp, duktape, gmsh, ANN, Eigen, libstdc++ algorithms and iostreams"],
    "stub": ["ScalFMM (not installed here): the demagnetizing potential is the direct sum over the same charges",
             "libstdc++ PSTL back end (TBB): simulated threads, one runs at a time",
             "clocks, host name, process id, random_device, signals' arrival, disk errors: simulated"]}


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class Out:
    """What a case reports: violations [(class, message)], keys of the distinct behaviours it reached."""

    def __init__(self):
        self.violations = []
        self.keys = []
        self.evals = 0
        self.info = None

    def bad(self, cls, msg):
        self.violations.append((cls, msg))

    def key(self, k):
        self.keys.append(k if isinstance(k, str) else json.dumps(k, sort_keys=True))


class Check:
    id = None
    level = "exploration"
    variants = {"plain": ("plain", None)}   # name -> (build variant, driver)
    rule = ""
    assumptions = []
    quick_n, thorough_n = 100, 2000
    quick_cap, thorough_cap = 200.0, 7200.0   # wall-clock safety limits of the search

    def case(self, seed, i, tier):
        raise NotImplementedError

    def run(self, R, case):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def describe(self, case):
        return json.loads(json.dumps(case))


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"class": m.group(2), "match": [m.group(3)], "what": m.group(4)})
    return out


def known_match(known, cls, msg):
    for e in known:
        if e["class"] == cls and all(x in msg for x in e.get("match", [])):
            return e
    return None


def _worker(check, exes, wid, seed, tier, jobs, results):
    try:
        R = RN.Runner(exes, wid)
    except Exception:
        results.put(("error", -1, traceback.format_exc()))
        return
    while True:
        i = jobs.get()
        if i is None:
            break
        try:
            case = check.case(seed, i, tier)
            if case is None:
                results.put(("skip", i, None))
                continue
            before = R.stats["runs"]
            o = check.run(R, case)
            results.put(("done", i, (o.violations, o.keys, o.evals or (R.stats["runs"] - before), o.info)))
        except Exception:
            results.put(("error", i, traceback.format_exc()))
    R.close()
    results.put(("stats", wid, R.stats))


def run_one(check, exes, case, wid=900):
    R = RN.Runner(exes, wid)
    try:
        return check.run(R, case), R.stats
    finally:
        R.close()


def minimise(check, exes, case, cls, limit_s):
    t0 = time.time()
    R = RN.Runner(exes, 901)
    tried = 0
    try:
        if hasattr(check, "concrete"):
            c = check.concrete(R, case)   # with the schedule written out
            if c is not None and any(v[0] == cls for v in check.run(R, c).violations):
                case = c
        again = True
        while again and time.time() - t0 < limit_s:
            again = False
            for c in check.shrink(case):
                if time.time() - t0 > limit_s:
                    break
                tried += 1
                try:
                    o = check.run(R, c)
                except Exception:
                    continue
                if any(v[0] == cls for v in o.violations):
                    case = c
                    again = True
                    break
    finally:
        R.close()
    return case, tried


def build_all(check):
    exes = {}
    for name, (variant, driver) in check.variants.items():
        exes[name] = B.build(variant, driver)
    return exes


def replay_main(check, path):
    rep = json.load(open(path))
    assert rep["property"] == check.id, "replay file of another property"
    exes = build_all(check)
    R = _Tee(exes, 900)
    try:
        o = check.run(R, rep["case"])
    finally:
        R.close()
    if rep.get("executions") is not None:
        print("the executions are %s" % ("those recorded" if R.digests == rep["executions"] else "not those recorded"))
    known = load_known(check.id)
    left = []
    for cls, msg in o.violations:
        e = known_match(known, cls, msg)
        if e:
            print("KNOWN-FINDING: property=%s %s" % (check.id, e["what"]))
        else:
            left.append((cls, msg))
    for cls, msg in left:
        print("%s: %s" % (cls, msg))
    if left:
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    print("no violation in %s" % path)
    return 0


def main(check, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--case", type=int, help="run this one case and print what it reports")
    ap.add_argument("--all", action="store_true", help="report every violating case (development)")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    if a.replay:
        return replay_main(check, a.replay)
    try:
        exes = build_all(check)
    except B.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    t_build = time.time() - t0
    if a.case is not None:
        case = check.case(a.seed, a.case, a.tier)
        o, st = run_one(check, exes, case)
        print(json.dumps(case)[:3000])
        print(o.violations, o.keys, o.info, st)
        return 1 if o.violations else 0
    n = a.n or (check.quick_n if a.tier == "quick" else check.thorough_n)
    cap = check.quick_cap if a.tier == "quick" else check.thorough_cap
    RN.scratch_root()
    ctx = mp.get_context("fork")
    jobs, results = ctx.Queue(), ctx.Queue()
    nw = max(1, min(a.jobs, n))
    ws = [ctx.Process(target=_worker, args=(check, exes, k, a.seed, a.tier, jobs, results), daemon=True) for k in range(nw)]
    for w in ws:
        w.start()
    t1 = time.time()
    known = load_known(check.id)
    nxt, done, pend = 0, 0, 0
    viol, errors, keys, evals, infos = {}, [], {}, 0, []
    known_hit = {}
    stop = False
    while pend or (nxt < n and not stop):
        while pend < 2 * nw and nxt < n and not stop:
            jobs.put(nxt)
            nxt += 1
            pend += 1
        if not pend:
            break
        try:
            kind, i, val = results.get(timeout=700)
        except queue.Empty:
            errors.append("no answer from the workers")
            break
        pend -= 1
        if kind == "error":
            errors.append("case %d: %s" % (i, val))
            if i < 0 or len(errors) >= 20:
                stop = True
        elif kind == "done":
            vs, ks, ev, info = val
            evals += ev
            done += 1
            for k in ks:
                keys.setdefault(hashlib.md5(k.encode()).hexdigest(), i)
            if info is not None:
                infos.append(info)
            fresh = []
            for cls, msg in vs:
                e = known_match(known, cls, msg)
                if e:
                    known_hit[e["what"]] = known_hit.get(e["what"], 0) + 1
                else:
                    fresh.append((cls, msg))
            if fresh:
                viol[i] = fresh
                if a.all:
                    print("case %d: %s" % (i, "; ".join("%s: %s" % v for v in fresh)[:600]), flush=True)
                else:
                    stop = True
        if time.time() - t1 > cap:
            stop = True
    for _ in ws:
        jobs.put(None)
    stats = {"runs": 0, "sim_time_s": 0.0, "switches": 0, "accepted_steps": 0, "faults": {}, "attempts": 0}
    left = nw
    while left and not (errors and not any(w.is_alive() for w in ws)):
        try:
            kind, i, val = results.get(timeout=60)
        except queue.Empty:
            break
        if kind == "stats":
            left -= 1
            for k, v in val.items():
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        stats[k][kk] = stats[k].get(kk, 0) + vv
                else:
                    stats[k] += v
    search_s = time.time() - t1
    # determinism: the same cases again, in another process, must give the same executions
    det = {"cases_run_twice": 0, "different": 0}
    if not viol and not errors:
        det = determinism(check, exes, a)
    rc = 0
    replay = None
    if viol:
        rc, why = 2, ""
        t2 = time.time()
        for i in sorted(viol)[:5]:
            if time.time() - t2 > (200 if a.tier == "quick" else 1200):
                break
            ok, text = report(check, exes, a, i, viol[i])
            if ok:
                rc = 1
                print(text)
                break
            why = why or text
        if rc == 2:
            print("ERROR in check %s: %s" % (check.id, why), file=sys.stderr)
    elif errors:
        print("ERROR in check %s:\n%s" % (check.id, errors[0]), file=sys.stderr)
        rc = 2
    for what in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (check.id, what))
    samples = []
    for i in range(min(3, n)):
        c = check.case(a.seed, i, a.tier)
        if c is not None:
            samples.append({"case": i, "what": check.describe(c)})
    cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": check.rule, "samples": samples,
           "cases": done, "cases_planned": n, "simulated_executions": stats["runs"],
           "executions_per_hour": round(stats["runs"] / max(search_s, 1e-9) * 3600),
           "seeds_per_hour": round(done / max(search_s, 1e-9) * 3600),
           "simulated_physical_time_s": stats["sim_time_s"], "accepted_time_steps": stats["accepted_steps"],
           "solver_attempts": stats["attempts"], "context_switches": stats["switches"],
           "faults_injected": dict(sorted(stats["faults"].items())), "determinism": det,
           "components": COMPONENTS, "build_s": round(t_build, 1), "search_s": round(search_s, 1)}
    extra = check.extra(infos) if hasattr(check, "extra") else {}
    cov.update(extra)
    ev = {"property": check.id, "tier": a.tier, "seed": a.seed, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % check.id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, check.id + ".json"))
    if rc == 0:
        print("%s: held on %d cases, %d executions, %d distinct non-trivial, %.1f s" % (check.id, done, stats["runs"], len(keys), time.time() - t0))
        if done == 0:
            print("ERROR: nothing was explored", file=sys.stderr)
            rc = 2
    return rc


def report(check, exes, a, i, found):
    """Minimises a violation, writes its replay file and replays that in a fresh process."""
    cls, msg = found[0]
    case = check.case(a.seed, i, a.tier)
    small, tried = minimise(check, exes, case, cls, 60.0 if a.tier == "quick" else 300.0)
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    replay = os.path.join(EVID, "replays", "%s-%d-%d.json" % (check.id, a.seed, i))
    out = ""
    for c in ([small] if small is case else [small, case]):
        R = _Tee(exes, 902)
        try:
            o = check.run(R, c)
        finally:
            R.close()
        ms = [m for k, m in o.violations if k == cls]
        if not ms:
            continue
        rep = {"property": check.id, "class": cls, "message": ms[0], "found_by": {"seed": a.seed, "case": i, "tier": a.tier},
               "shrink_attempts": tried, "executions": R.digests, "case": c}
        with open(replay, "w") as f:
            json.dump(rep, f, indent=1)   # not sorted: the order of the settings is part of the case
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.id, "--replay", replay],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = p.stdout
        if p.returncode == 1 and "VIOLATION property=%s" % check.id in out:
            return True, "%s: %s\nVIOLATION property=%s replay=%s" % (cls, ms[0], check.id, replay)
    return False, "the violation of case %d does not replay: %s\n%s" % (i, msg, out)


class _Tee(RN.Runner):
    def __init__(self, *a):
        RN.Runner.__init__(self, *a)
        self.digests = []

    def run(self, *a, **k):
        r = RN.Runner.run(self, *a, **k)
        self.digests.append(r.digest())
        return r


def determinism(check, exes, a):
    """Runs a few cases twice, in two workers with different scratch paths and processes."""
    n = 2 if a.tier == "quick" else 10
    det = {"cases_run_twice": 0, "executions_compared": 0, "different": 0}
    for i in range(n):
        ds = []
        for wid in (950, 951):
            R = _Tee(exes, wid)
            try:
                c = check.case(a.seed, i, a.tier)
                if c is None:
                    break
                check.run(R, c)
                ds.append(R.digests)
            finally:
                R.close()
        if len(ds) == 2:
            det["cases_run_twice"] += 1
            det["executions_compared"] += len(ds[0])
            det["different"] += ds[0] != ds[1]
    return det
