"""C20: what a run holds (memory, open files) does not grow with its length."""
import copy, random
import common as C, scen, shrink
from harness import Check, Out


class P(Check):
    id = "C20"
    quick_n, thorough_n = 2500, 100000
    rule = ("a case counts as non-trivial when at least 40 steps were attempted; distinct by (regions, field, spin, recentering, verbosity, periods of the faults, "
            "outputs, rejected attempts)")
    assumptions = ["memory is what the program, and the libraries it is linked to, hold from malloc and operator new when a step is attempted; descriptors are counted by the number the "
                   "system would give next",
                   "a run is cut in four; growth is an increase of the largest amount from the second quarter to the third and again to the fourth"]

    def case(self, seed, i, tier):
        r = random.Random("C20/%d/%d" % (seed, i))
        deep = tier == "thorough" and r.random() < 0.2
        sc = scen.generate("C20/%d/%d" % (seed, i), size=r.choice(["tiny", "tiny", "small"]), spin=r.random() < 0.3,
                           nout=r.choice([20, 40, 60, 200] if deep else [15, 25, 40]), tol=1e-7, save=r.choice([1, 1, 2, 5, False]))
        if r.random() < 0.3:
            scen.provoke(sc, r)
        cfg = sc["cfg"]
        if r.random() < 0.25:
            cfg["recentering"] = {"enable": True, "direction": "XYZ"[r.randrange(3)], "threshold": r.choice([0.01, 0.2, 0.9])}
        case = {"sc": sc, "fail": r.choice([0, 0, 3, 5, 8]), "spinfail": r.choice([0, 0, 2, 3])}
        if r.random() < 0.3:    # many small steps
            cfg["time_integration"]["max(dt)"] = cfg["outputs"]["evol_time_step"] / r.choice([3, 7])
        return case

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        bad = []
        if case["fail"]:
            bad += [["llg_solver", a, a] for a in range(case["fail"], 3000, case["fail"])]
        if case["spinfail"]:
            bad += [["spin_solver", a, a] for a in range(case["spinfail"], 3000, case["spinfail"])]
        p = scen.plan_of(sc, live=1, snap=0, maxattempts=3000, cpu=120, solverfail=bad)
        r = R.run(scen.files_of(sc), p)
        if r.initial is None:
            o.bad("no-start", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
            return o
        L = [tuple(map(int, t.split()[1:])) for _, k, t in r.events if k == "LINE" and t.startswith("LIVE ")]
        if r.status[0] == "signal" or r.status[0] == "exit" and r.status[1] in (86, 134):
            o.bad("end", "after %d time steps tried: %s: %s" % (len(L), C.status_text(r.status), r.stderr[-300:]))
            return o
        n = len(L) // 4
        if n < 3:
            return o
        q = [[max(x[j] for x in L[k * n:(k + 1) * n if k < 3 else len(L)]) for k in range(4)] for j in range(3)]
        for j, (what, cls) in enumerate((("bytes of memory", "memory"), ("blocks of memory", "memory"), ("open files", "descriptors"))):
            if q[j][1] < q[j][2] < q[j][3]:
                o.bad(cls, "the program holds more and more %s as the run goes on: at most %s in each quarter of its %d time steps" % (what, ", ".join(map(str, q[j])), len(L)))
                break
        if len(L) >= 40:
            cfg = sc["cfg"]
            o.key([[x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], "spin_accumulation" in cfg, "recentering" in cfg, p["args"], case["fail"], case["spinfail"],
                   len(r.files), len(L) - len(r.accepted)])
        o.info = len(L)
        return o

    def extra(self, infos):
        return {"steps_attempted": sum(infos), "longest_run": max(infos, default=0)}

    def shrink(self, case):
        for key in ("fail", "spinfail"):
            if case[key]:
                c = copy.deepcopy(case)
                c[key] = 0
                yield c
        yield from shrink.scenario(case)


CHECK = P()
