"""C14: the spin torque at a step is that of the magnetization at that step, whatever the spin solves before it did."""
import copy, random, re
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out
from props.c09 import worst

TOL = 5e-6        # of the length of the step


class P(Check):
    id = "C14"
    variants = {"plain": ("plain", None), "gauss1": ("gauss1", None)}
    quick_n, thorough_n = 1600, 20000
    rule = ("a case counts as non-trivial when a spin accumulation solve was made to fail, or a time step was; distinct by (regions, variant, failed spin "
            "solves, failed time steps, steps compared, how it ended)")
    assumptions = ["a failed spin solve is one whose convergence status the simulator overrides; the reference model solves the same finite-element equations densely"]

    def case(self, seed, i, tier):
        r = random.Random("C14/%d/%d" % (seed, i))
        sc = scen.generate("C14/%d/%d" % (seed, i), size=r.choice(["tiny", "small"]), spin=True, nout=r.randint(2, 5), tol=1e-10, save=1)
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        if r.random() < 0.3:
            scen.provoke(sc, r)
        for v in (sc["cfg"]["mesh"].get("surface_regions") or {}).values():
            if "jn" in v:
                v["jn"] = scen.rnd(r.choice([1, -1]) * 10 ** (r.uniform(10, 11.7) if "s" in v else r.uniform(4, 5.7)))     # a torque that shows
        sf = []
        x = r.random()
        if x < 0.7:
            p = r.choice([0.05, 0.2, 0.5])
            sf = [a for a in range(2, 120) if r.random() < p]
        elif x < 0.78:
            sf = [1]
        lf = [a for a in range(1, 60) if r.random() < 0.1] if r.random() < 0.4 else []
        sig = [[r.choice([2, 15]), "hook", r.randint(5, 200)]] if r.random() < 0.3 else []
        return {"sc": sc, "sf": sf, "lf": lf, "sig": sig, "exe": r.choice(["plain", "plain", "plain", "gauss1"]), "pick": r.randrange(1 << 30)}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        fl = [["llg_solver", a, a] for a in case["lf"]] + [["spin_solver", a, a] for a in case["sf"]]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, solverfail=fl, sig=case["sig"], maxattempts=1000, cpu=60), exe=case["exe"])
        if r.died and "attempts" not in str(r.died):
            o.bad("stuck", str(r.died))
            return o
        if 1 in case["sf"]:
            if r.status == ("exit", 0) or r.status[0] != "exit" or r.states:
                o.bad("first", "the first spin accumulation solve failed, the program ended with %s after %d states" % (C.status_text(r.status), len(r.states)))
            o.key(["first", C.status_text(r.status)])
            return o
        if r.initial is None:
            if not case["sig"]:
                o.bad("no-start", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
            return o
        M = model.Model(sc, one_gauss=case["exe"] == "gauss1")
        h = C.history(r)
        dtmax = sc["cfg"]["time_integration"]["max(dt)"]
        acc = [k for k, a in enumerate(h) if a.state is not None]
        st = [r.initial] + [h[k].state for k in acc]
        failed = {a - 2 for a in case["sf"]}        # the state whose solve failed: the second solve is that of the first state
        zero = np.zeros_like(r.initial.u)

        def spin(j):
            return zero if j in failed else M.spin(st[j].u)

        hot = [j for j in range(len(acc)) if j in failed or j - 1 in failed]
        rr = random.Random(case["pick"])
        sel = set(rr.sample(hot, min(len(hot), 10))) | set(rr.sample(range(len(acc)), min(len(acc), 5)))
        big = 0.0
        for j in sorted(sel):
            s0, s1 = st[j], st[j + 1]
            v = M.velocity(st[j - 1].u, s0.u, s0.dt) if j else zero
            u1, _, vm = M.step(s0.u, v, s0.t, h[acc[j]].dt, dtmax, spin(j))
            d = worst(s1.u, u1)
            lim = h[acc[j]].dt * vm + 1e-9
            big = max(big, d / lim)
            if d > TOL * lim:
                o.bad("torque", "the step from t=%r (spin solve %s, %d failed before) differs by %.3g from the step of the scheme with the spin accumulation of that state"
                      % (s0.t, "failed" if j in failed else "done", sum(1 for x in failed if 0 <= x < j), d))
                break
        o.info = big
        base = scen.base(sc)
        t0, ts = r.initial.t, sc["cfg"]["outputs"]["evol_time_step"]
        idx = {s.t: k for k, s in enumerate(st)}
        nsol = 0
        for f in sorted(r.files):
            m = re.match(re.escape(base) + r"_(iter(\d+)|at_exit)\.sol$", f)
            if not m or o.violations:
                continue
            k = len(st) - 1 if m.group(2) is None else idx.get(t0 + int(m.group(2)) * ts)
            sol = C.Sol(r.files[f])
            if k is None or not sol.complete(r.initial.n) or sol.columns[-3:] != ["sx", "sy", "sz"]:
                continue        # the subject of other properties
            a = sol.array()[:, 4:7]
            w = spin(k)
            ref = np.abs(M.spin(st[k].u)).max()
            nsol += 1
            if not (np.abs(a - w) <= 1e-5 * ref).all():
                o.bad("saved", "%s does not hold the spin accumulation of the state at t=%r (spin solve %s)" % (f, st[k].t, "failed" if k in failed else "done"))
        nf = sum(1 for _, x in r.fired if "spin_solver" in x)
        if nf or case["lf"]:
            o.key([[x[0] for x in sc["mesh"]["regions"]], case["exe"], nf, len(h) - len(acc), len(sel), nsol, list(r.status)])
        return o

    def extra(self, infos):
        return {"largest_difference_from_the_model_relative_to_the_step": max(infos) if infos else None}

    def shrink(self, case):
        for key in ("sf", "lf", "sig"):
            v = case[key]
            n = len(v)
            if n > 3:
                for a, b in ((0, n // 2), (n // 2, n)):
                    c = copy.deepcopy(case)
                    c[key] = v[:a] + v[b:]
                    yield c
            for i in range(min(n, 12)):
                c = copy.deepcopy(case)
                del c[key][i]
                yield c
        yield from shrink.scenario(case)


CHECK = P()
