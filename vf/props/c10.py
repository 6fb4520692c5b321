"""C10: the magnetization has unit length on every magnetic node and is undefined on every other, always."""
import copy, random
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out

TOL = 1e-13


class P(Check):
    id = "C10"
    variants = {"plain": ("plain", None), "first": ("first", None), "gauss1": ("gauss1", None)}
    quick_n, thorough_n = 3000, 30000
    rule = ("a case counts as non-trivial when a step was taken after a failed or rejected one, a recentering, a signal or a restart; distinct by (variant, "
            "regions, spin, recentering, failed attempts, steps, restarts, how it ended)")
    assumptions = ["states are observed when they are accepted, and in the .sol files"]

    def case(self, seed, i, tier):
        r = random.Random("C10/%d/%d" % (seed, i))
        sc = scen.generate("C10/%d/%d" % (seed, i), size=r.choice(["tiny", "tiny", "small"]), spin=r.random() < 0.15,
                           nout=r.randint(2, 8), tol=r.choice([1e-3, 1e-6, 1e-10]), save=1)
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        if r.random() < 0.5:
            scen.provoke(sc, r)
        sc["init"]["b"] = [scen.rnd(x * 10 ** r.uniform(-3, 3)) for x in sc["init"]["b"]]
        sc["cfg"]["initial_magnetization"] = scen.init_cfg(sc["init"])
        if r.random() < 0.2:
            sc["cfg"]["recentering"] = {"enable": True, "direction": "XYZ"[r.randrange(3)], "threshold": scen.rnd(r.uniform(0.1, 0.9))}
        if r.random() < 0.15:
            sc["cfg"]["time_integration"]["max(du)"] = r.choice([0.5, 1.5, 5.0])     # long steps
            sc["cfg"]["time_integration"]["max(dt)"] = 1e-11
        plan = {}
        if r.random() < 0.6:
            p = r.choice([0.03, 0.1])
            plan["solverfail"] = [["llg_solver", a, a] for a in range(1, 100) if r.random() < p]
            if "spin_accumulation" in sc["cfg"] and r.random() < 0.5:
                plan["solverfail"] += [["spin_solver", a, a] for a in range(3, 100) if r.random() < p]
        legs = r.choice([1, 1, 2, 3])
        return {"sc": sc, "plan": plan, "legs": legs, "sig": [[r.choice([2, 15]), r.randint(20, 300)] for _ in range(legs)],
                "exe": r.choice(["plain", "plain", "first", "gauss1"]), "scribble": r.choice([0, 0, 1])}

    def run(self, R, case):
        o = Out()
        sc = copy.deepcopy(case["sc"])
        M = model.Model(sc)
        out = sc["cfg"]["outputs"]
        dur = out["final_time"]
        extra = {}
        big = 0.0
        tot = bad = 0
        for leg in range(case["legs"]):
            plan = dict(case["plan"])
            if leg + 1 < case["legs"] or case["scribble"]:
                plan["sig"] = [[case["sig"][leg][0], "hook", case["sig"][leg][1]]]
            f = scen.files_of(sc)
            f.update(extra)
            r = R.run(f, scen.plan_of(sc, snap=1, maxattempts=1500, cpu=60, **plan), exe=case["exe"])
            for s in r.states:
                big = max(big, self.look(o, M, s.u, "the state %s at t=%r" % (s.what, s.t), 1e-6 if leg and s.what == "initial" else TOL))
            for k in sorted(r.files):
                if k.endswith(".sol") and not k.endswith("_V.sol"):
                    sol = C.Sol(r.files[k])
                    if sol.complete(len(M.p)):
                        self.look(o, M, sol.u(), k, 5e-7)
            h = C.history(r)
            tot += len(r.accepted)
            bad += len(h) - len(r.accepted)
            if o.violations or r.initial is None:
                break
            if leg + 1 < case["legs"]:
                sols = [k for k in r.files if k.endswith(".sol") and not k.endswith("_V.sol")]
                if not sols:
                    break
                ae = [k for k in sols if "at_exit" in k]
                k = ae[0] if ae else sorted(sols)[-1]
                extra = {"start.sol": r.files[k]}
                sc["cfg"]["initial_magnetization"] = "start.sol"
                sc["cfg"]["outputs"]["final_time"] = C.Sol(r.files[k]).time + dur
        o.info = big
        if bad or case["legs"] > 1 or "recentering" in sc["cfg"]:
            o.key([case["exe"], [x[0] for x in sc["mesh"]["regions"]], "spin_accumulation" in sc["cfg"], "recentering" in sc["cfg"], bad, tot, case["legs"], list(r.status)])
        return o

    @staticmethod
    def look(o, M, u, what, tol):
        if o.violations:
            return 0.0
        n = np.sqrt((u[M.magn] ** 2).sum(1))
        d = np.abs(n - 1)
        if not (d <= tol).all():
            k = int(np.argmax(~(d <= tol)))
            o.bad("norm", "%s: the magnetization of node %d, which is magnetic, has length %r" % (what, M.mn[k], float(n[k])))
        elif not np.isnan(u[~M.magn]).all():
            o.bad("non-magnetic", "%s: a node that is not magnetic has a magnetization" % what)
        return float(d.max())

    def extra(self, infos):
        return {"largest_deviation_from_unit_length": max(infos) if infos else None}

    def shrink(self, case):
        if case["legs"] > 1:
            c = copy.deepcopy(case)
            c["legs"] -= 1
            yield c
        yield from shrink.drop_faults(case)
        yield from shrink.scenario(case)


CHECK = P()
