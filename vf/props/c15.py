"""C15: recentering moves the magnetization along the configured axis, when and only when the threshold is reached."""
import copy, random
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out


def wall(r, axis, mid, w):
    """A wall across `axis`: the component along it changes sign at mid (metres)."""
    q = "((%s-(%r))/%r)" % ("xyz"[axis], mid, w)
    s = r.choice([1, -1])
    import math
    a = r.uniform(0, 6.28)
    e = [None] * 3
    e[axis] = "%d*%s/Math.sqrt(1+%s*%s)" % (s, q, q, q)
    e[(axis + 1) % 3] = "%r/Math.sqrt(1+%s*%s)" % (scen.rnd(math.cos(a)), q, q)
    e[(axis + 2) % 3] = "%r/Math.sqrt(1+%s*%s)" % (scen.rnd(math.sin(a)), q, q)
    return e


class P(Check):
    id = "C15"
    quick_n, thorough_n = 1800, 40000
    rule = ("a case counts as non-trivial when the magnetization was recentered at least once, or the run stopped because there was no wall; distinct by "
            "(axis, regions, number of recenterings, failed attempts around them, steps, how it ended)")
    assumptions = ["what the next step starts from is observed through that step's result: it may differ from the moved magnetization by max(du), which is at "
                   "most 0.02; equidistant nearest nodes are all accepted"]

    def case(self, seed, i, tier):
        r = random.Random("C15/%d/%d" % (seed, i))
        sc = scen.generate("C15/%d/%d" % (seed, i), size="small", nout=r.randint(2, 6), tol=1e-8, fieldkind="const", spin=r.random() < 0.1)
        m = sc["mesh"]
        axis = r.randrange(3)
        n = m["n"]
        grow = max(0, r.randint(3, 7) - n[axis])
        n[axis] += grow
        if axis == m["axis"] and grow:
            m["regions"][[k for k, (g, _) in enumerate(m["regions"]) if g != "air"][0]][1] += grow
        h, sh = m["h"][axis], m.get("shift", [0, 0, 0])[axis]
        L = n[axis] * h
        mid = scen.rnd((sh + L * r.uniform(-0.05, 1.05)) * 1e-9)
        sc["cfg"]["initial_magnetization"] = wall(r, axis, mid, scen.rnd(h * r.uniform(0.2, 1.0) * 1e-9))
        sc["cfg"]["recentering"] = {"enable": r.random() < 0.93, "direction": "XYZ"[axis if r.random() < 0.85 else r.randrange(3)],
                                    "threshold": scen.rnd(r.choice([1, 1, 1, -1]) * r.uniform(0.02, 0.5))}
        b = scen.vec(r, 0.2)
        b[axis] = scen.rnd(r.choice([1, -1]) * r.uniform(0.2, 2.0))
        sc["field"] = {"kind": "const", "b": b}
        sc["cfg"]["Bext"] = scen.field_cfg(sc["field"])
        ti = sc["cfg"]["time_integration"]
        ti["max(du)"], ti["min(dt)"] = r.choice([0.005, 0.01, 0.02]), r.choice([1e-18, 1e-16])
        sc["cfg"]["outputs"]["final_time"] = scen.rnd(min(sc["cfg"]["outputs"]["final_time"], 1.5e-12), 12)
        sc["cfg"]["outputs"]["evol_time_step"] = scen.rnd(sc["cfg"]["outputs"]["final_time"] / r.randint(1, 3), 12)
        return {"sc": sc, "fail": [a for a in range(1, 60) if r.random() < 0.06] if r.random() < 0.5 else []}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        rc, ti = sc["cfg"]["recentering"], sc["cfg"]["time_integration"]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, maxattempts=400, solverfail=[["llg_solver", a, a] for a in case["fail"]], cpu=60))
        if r.initial is None:
            o.bad("no-start", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
            return o
        M = model.Model(sc)
        d = "XYZ".index(rc["direction"])
        thr = abs(rc["threshold"])
        dumax = ti["max(du)"] * 1.001 + 1e-9
        p = M.p
        mg = M.mn
        half, cen = 0.5 * M.l[d], M.c
        tiny = 1e-9 * max(M.l.max(), np.abs(p).max())

        def near(q):
            """the magnetic nodes nearest to q, ties included"""
            x = np.linalg.norm(p[mg] - q, axis=1)
            return mg[x <= x.min() + tiny]

        e = np.zeros(3)
        e[d] = 1.0
        lo, hi = near(cen - half * e), near(cen + half * e)
        st = r.states
        moved = 0
        retries = 0
        h = C.history(r)
        for k in range(len(st) - 1):
            u, w = st[k].u, st[k + 1].u
            m = M.avg(u, d)
            must, may = False, False
            if rc["enable"] and k:
                must, may = abs(m) >= thr + 1e-9, abs(m) >= thr - 1e-9
            stay = np.nanmax(np.abs(w - u)) <= dumax
            if np.isnan(w[mg]).any():
                o.bad("undefined", "the state at t=%r is undefined on a magnetic node" % st[k + 1].t)
                break
            if not may:
                if not stay:
                    o.bad("moved", "the average along %s is %.4g, below the threshold %g, and the step from t=%r changed the magnetization by %.3g (max(du)=%g)"
                          % (rc["direction"], m, thr, st[k].t, np.nanmax(np.abs(w - u)), ti["max(du)"]))
                    break
                continue
            if must:
                moved += 1
                L, H = u[lo][:, d], u[hi][:, d]
                if min(a * b for a in L for b in H) > 1e-12:
                    o.bad("no-wall", "the state at t=%r has no wall across %s, and the run went on" % (st[k].t, rc["direction"]))
                    break
            good = True
            for j in mg:
                best = np.inf
                for uL in set(u[lo][:, d]):
                    q = p[j] + m * half * uL * e
                    if q[d] - cen[d] > half:
                        q = cen + half * e
                    elif q[d] - cen[d] < -half:
                        q = cen - half * e
                    best = min(best, min(np.abs(w[j] - u[x]).max() for x in near(q)))
                if best > dumax:
                    good = False
                    if must:
                        o.bad("not-centered", "the average along %s is %.4g at t=%r, the threshold %g: node %d goes on from a magnetization %.3g away from the recentered one"
                              % (rc["direction"], m, st[k].t, thr, j, best))
                    break
            if not good and (must or not stay):
                if not o.violations:
                    o.bad("moved", "the step from t=%r starts neither from its state nor from the recentered one" % st[k].t)
                break
        last = st[-1]
        if not o.violations and not r.died:
            if "No Domain Wall" in r.stderr:
                # the state that has no wall was not reported: it is one step after the last
                L, H = last.u[lo][:, d], last.u[hi][:, d]
                # (after a recentering the ends are those of the moved magnetization)
                prev = abs(M.avg(last.u, d)) >= thr - 1e-9 and len(st) > 1
                if not rc["enable"]:
                    o.bad("status", "stopped for want of a wall, recentering is not enabled")
                if r.status != ("exit", 1):
                    o.bad("status", "no wall: %s instead of an exit status of 1" % C.status_text(r.status))
                if not prev and (max(a * b for a in L for b in H) < -2.1 * dumax or abs(M.avg(last.u, d)) < thr - dumax):
                    o.bad("wall", "stopped for want of a wall just after t=%r, where the average along %s is %.4g and the ends have %s and %s"
                          % (last.t, rc["direction"], M.avg(last.u, d), list(L), list(H)))
            elif not r.ok() and not (case["fail"] and "ABORTED" in r.stdout):
                o.bad("status", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
        elif r.died and "attempts" not in str(r.died):
            o.bad("stuck", str(r.died))
        if moved or "No Domain Wall" in r.stderr:
            o.key([rc["direction"], [x[0] for x in sc["mesh"]["regions"]], moved, len(h) - len(st) + 1, len(st), list(r.status)])
        return o

    def shrink(self, case):
        if case["fail"]:
            c = copy.deepcopy(case)
            c["fail"] = []
            yield c
        yield from shrink.scenario(case)


CHECK = P()
