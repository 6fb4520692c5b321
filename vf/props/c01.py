"""C01: the results do not depend on the number of threads or on how they are interleaved."""
import copy, math, random
import numpy as np
import common as C, scen, shrink
from harness import Check, Out
from props.c09 import worst

TOL = 1e-7


def sensitive(R, sc, kw, ref, exe="plain"):
    """Does a change of the initial state far below what is judged show in the results? Then rounding errors do too."""
    if "init" not in sc or not isinstance(sc["init"], dict) or "b" not in sc["init"]:
        return False
    s2 = copy.deepcopy(sc)
    s2["init"]["b"] = [b + e for b, e in zip(s2["init"]["b"], (1e-8, -7e-9, 5e-9))]
    s2["cfg"]["initial_magnetization"] = scen.init_cfg(s2["init"])
    r = R.run(scen.files_of(s2), scen.plan_of(s2, **kw), exe=exe)
    if r.status != ref.status or len(r.states) != len(ref.states):
        return True
    return any(not np.nanmax(np.abs(x.u - y.u), initial=0.0) <= 1e-6 for x, y in zip(r.states, ref.states) if x.u is not None)


class P(Check):
    id = "C01"
    variants = {"race": ("race", None), "plain": ("plain", None)}
    quick_n, thorough_n = 480, 12000
    quick_cap = 330.0
    rule = ("a case counts as non-trivial when the threads of the compared execution were switched at least 20 times; distinct by (threads, kind of "
            "scheduler, regions, spin, recentering, switches, preemptions at conflicting accesses)")
    assumptions = ["memory accesses are sequentially consistent and indivisible up to 16 bytes; with the instrumented build, preemption may happen before any "
                   "access of the program's own code, otherwise at chunk boundaries and locks",
                   "TBB's work distribution is replaced by the simulator's: arbitrary contiguous chunks, taken in order by 2 to 6 threads",
                   "finite_element_solver.tolerance is 1e-10 in these scenarios; results may differ by %g, which covers rounding" % TOL]

    def case(self, seed, i, tier):
        r = random.Random("C01/%d/%d" % (seed, i))
        deep = i % 6 == 0
        sc = scen.generate("C01/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]) if deep else r.choice(["small", "small", "medium"]),
                           spin=r.random() < 0.2, nout=2 if deep else r.randint(2, 5), tol=1e-10, rare=0 if deep else 0.02)
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18 if r.random() < 0.3 else 1e-15
        if not deep and r.random() < 0.3:
            scen.provoke(sc, r)
            sc["cfg"]["outputs"]["final_time"] = min(sc["cfg"]["outputs"]["final_time"], 2 * sc["cfg"]["outputs"]["evol_time_step"])
        rec = None
        if r.random() < 0.15:
            sc["cfg"]["recentering"] = {"enable": True, "direction": "XYZ"[r.randrange(3)], "threshold": r.choice([0.9, 0.99])}
        runs = []
        for _ in range(1 if deep else 2):
            if deep:
                m = r.choice(["race", "race", "rand"])
                runs.append({"exe": "race", "threads": r.randint(2, 5), "sched": [m, r.choice([0.05, 0.2, 0.5]), r.choice([0.0003, 0.001, 0.01])]})
            else:
                runs.append({"exe": "plain", "threads": r.randint(2, 6), "sched": ["chunk", 1.0, 0]})
            runs[-1]["seed"] = r.randrange(1 << 30)
        return {"sc": sc, "runs": runs, "fail": [a for a in range(1, 30) if r.random() < 0.15] if r.random() < 0.3 else []}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        kw = {"maxattempts": 20000, "snap": 1, "solverfail": [["llg_solver", a, a] for a in case["fail"]], "cpu": 120}
        exe = case["runs"][0]["exe"]
        ref = R.run(files, scen.plan_of(sc, threads=1, **kw), exe="plain")
        o.trace = []
        if ref.died:
            return o
        big = 0.0
        for q in case["runs"]:
            p = dict(kw, threads=q["threads"], sched=q["sched"], seed=q["seed"])
            if "pre" in q:
                p["pre"] = q["pre"]
            if q.get("trace"):
                p["trace"] = 1
            r = R.run(files, scen.plan_of(sc, **p), exe=q["exe"])
            o.trace.append(r.trace)
            what = "with %d threads (%s schedule)" % (q["threads"], q["sched"][0])
            if r.died or r.status != ref.status:
                o.bad("status", "%s the program ended with %s %s, with one thread %s" % (what, C.status_text(r.status), r.died or "", C.status_text(ref.status)))
            else:
                d = self.compare(sc, ref, r, o, what)
                big = max(big, d)
            if o.violations and (sensitive(R, sc, dict(kw, threads=1), ref)
                                 or C.tipped(ref, r) and C.fragile(R, files, scen.plan_of(sc, threads=1, **kw), ref)):
                # a motion that amplifies rounding errors, or a solve on the verge of failing, whatever the threads do
                o = Out()
                o.trace = []
                return o
            if o.violations:
                break
            if r.end.get("switches", 0) >= 20:
                o.key([q["threads"], q["sched"][0], [x[0] for x in sc["mesh"]["regions"]], "spin_accumulation" in sc["cfg"], "recentering" in sc["cfg"],
                       r.end["switches"], r.end["conflicts"]])
        o.info = big
        return o

    @staticmethod
    def compare(sc, ref, r, o, what, tol=TOL, loose=1.0, than="with one thread"):
        a, b = ref.states, r.states
        if len(a) != len(b):
            # a rounding error can tip the acceptance of a step, but then the times show it
            o.bad("steps", "%s %d time steps were accepted, %s %d" % (what, len(b) - 1, than, len(a) - 1))
            return 0.0
        big = 0.0
        for k, (x, y) in enumerate(zip(a, b)):
            if C.rel(x.t, y.t, 1e-18) > tol or (k and C.rel(x.dt, y.dt, 1e-18) > loose * 1e-5):
                o.bad("time", "%s the step %d leads to t=%r (dt=%r), %s to %r (dt=%r)" % (what, k, y.t, y.dt, than, x.t, x.dt))
                return big
            d = worst(x.u, y.u)
            big = max(big, d)
            if d > tol:
                o.bad("state", "%s the magnetization at t=%r differs by %.3g from that computed %s" % (what, y.t, d, than))
                return big
        base = scen.base(sc)
        fa, fb = C.masked(ref.files), C.masked(r.files)
        if sorted(fa) != sorted(fb):
            o.bad("files", "%s the files written are not those written %s: %s" % (what, than, sorted(set(fa) ^ set(fb))))
            return big
        if base + ".evol" not in fa:
            return big
        e, g = C.Evol(fa[base + ".evol"]), C.Evol(fb[base + ".evol"])
        if e.header != g.header or len(e.rows) != len(g.rows) or e.columns != g.columns:
            o.bad("evol", "%s the .evol file is not that obtained %s" % (what, than))
            return big
        scale = {}
        for c in e.columns:
            v = [abs(x) for x in e.col(c) if math.isfinite(x)]
            scale[c] = max(v, default=0.0)
        E = max([scale[c] for c in e.columns if c.startswith("E_")] + [0.0])
        V = max([scale[c] for c in e.columns if "<dM" in c] + [0.0])
        vd = max([x.dt and 1.0 / x.dt for x in a[1:]] + [0.0])
        for c in e.columns:
            if c == "max_angle":
                lim = loose * 1e-4
            elif "<M" in c:
                lim = loose * 1e-6
            elif "<dM" in c:
                lim = loose * 1e-5 * max(V, 1e9)
            elif c.startswith("E_"):
                lim = loose * 1e-5 * max(E, 1e-22)
            elif c == "max_dm":
                lim = loose * 1e-5 * scale[c] + 1e-8
            elif c == "dt":
                lim = loose * 1e-5 * scale[c]
            else:
                lim = loose * 1e-6 * scale[c]
            for k, (x, y) in enumerate(zip(e.col(c), g.col(c))):
                if (math.isnan(x) and math.isnan(y)) or x == y or ("Thiele" in c and min(x, y) > 1e-3):
                    continue
                if not abs(x - y) <= lim:
                    o.bad("evol", "%s %s is %r in row %d, %s %r" % (what, c, y, k, than, x))
                    return big
        for f in sorted(fa):
            if f.endswith(".sol"):
                x, y = C.Sol(fa[f]), C.Sol(fb[f])
                if x.header != y.header or len(x.rows) != len(y.rows):
                    o.bad("sol", "%s %s is not that obtained %s" % (what, f, than))
                    return big
                p, q = x.array(), y.array()
                for j in range(p.shape[1]):
                    m = np.nanmax(np.abs(p[:, j])) if np.isfinite(p[:, j]).any() else 0.0
                    if worst(p[:, j:j + 1], q[:, j:j + 1]) > loose * 1e-5 * m + (loose * 3e-7 if j < 3 and p.shape[1] > 2 else 0):
                        o.bad("sol", "%s column %d of %s differs from that obtained %s" % (what, j + 2, f, than))
                        return big
        return big

    def extra(self, infos):
        return {"largest_difference_between_schedules": max(infos) if infos else None}

    def concrete(self, R, case):
        c = copy.deepcopy(case)
        for q in c["runs"]:
            q["trace"] = 1
        o = self.run(R, c)
        c["runs"] = c["runs"][:len(o.trace)]
        for q, t in zip(c["runs"], o.trace):
            q["pre"] = [list(x) for x in t]
            q["sched"] = ["replay", 0, 0]
            q.pop("trace")
        if sum(len(q["pre"]) for q in c["runs"]) > 60000:
            return None
        return c

    def shrink(self, case):
        if len(case["runs"]) > 1:
            for i in range(len(case["runs"])):
                c = copy.deepcopy(case)
                del c["runs"][i]
                yield c
        q = case["runs"][0]
        if "pre" not in q:
            if case["fail"]:
                c = copy.deepcopy(case)
                c["fail"] = []
                yield c
            yield from shrink.scenario(case)
            return
        p = q["pre"]
        k = max(1, len(p) // 2)
        while k >= 1:
            for a in range(0, len(p), k):
                c = copy.deepcopy(case)
                c["runs"][0]["pre"] = p[:a] + p[a + k:]
                yield c
            if k == 1 or len(p) / k > 64:
                break
            k //= 2


CHECK = P()
