"""C09: every accepted step is the scheme's step from the last accepted state, whatever was tried in between."""
import copy, random
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out

TOL = 3e-6        # of the length of the step


class P(Check):
    id = "C09"
    variants = {"plain": ("plain", None), "gauss1": ("gauss1", None), "first": ("first", None)}
    quick_n, thorough_n = 700, 30000
    rule = ("a case counts as non-trivial when the model was compared with a step that followed a failed or rejected attempt; "
            "distinct by (build variant, regions, field, spin, failed and rejected attempts, steps compared)")
    assumptions = ["the reference model (vf/model.py) is written from the equations of the scheme; the demagnetizing potential is the direct "
                   "sum in the model and in the ScalFMM stand-in", "finite_element_solver.tolerance is 1e-10 in these scenarios"]

    def case(self, seed, i, tier):
        r = random.Random("C09/%d/%d" % (seed, i))
        sc = scen.generate("C09/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.15, nout=r.randint(2, 5), tol=1e-10)
        if r.random() < 0.5:
            scen.provoke(sc, r)
            if sc["field"]["kind"] == "rot" and r.random() < 0.3:
                sc["field"] = scen.field(r, "st")
                sc["cfg"]["Bext"] = scen.field_cfg(sc["field"])
        if r.random() < 0.2:
            sc["cfg"]["initial_time"] = scen.rnd(r.uniform(-1e-10, 1e-10), 6)
            o = sc["cfg"]["outputs"]
            o["final_time"] = scen.rnd(sc["cfg"]["initial_time"] + o["final_time"], 14)
        x = random.Random("C09s/%d/%d" % (seed, i))
        if x.random() < 0.25:       # a strong field along the magnetization, little damping: the effective damping reaches its limits
            b = sc["init"]["b"]
            sc["init"]["a"] = [scen.rnd(0.1 * k) for k in sc["init"]["a"]]
            sc["cfg"]["initial_magnetization"] = scen.init_cfg(sc["init"])
            sc["field"] = {"kind": "const", "b": [scen.rnd(k * s) for s in [x.choice([1, 1, -1]) * x.uniform(1, 4)] for k in b]}
            sc["cfg"]["Bext"] = scen.field_cfg(sc["field"])
            for v in sc["cfg"]["mesh"]["volume_regions"].values():
                if v.get("Ms", 1) > 0:
                    v["alpha_LLG"] = scen.rnd(x.uniform(0.005, 0.1))
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        if r.random() < 0.15:       # solves that do not converge by themselves
            sc["cfg"]["finite_element_solver"]["max(iter)"] = r.randint(3, 14)
        fail = []
        if r.random() < 0.7:
            p = r.choice([0.05, 0.2, 0.35])
            fail = [a for a in range(1, 70) if r.random() < p]
        exe = r.choice(["plain"] * 4 + ["gauss1", "first"])
        return {"sc": sc, "fail": fail, "exe": exe, "pick": r.randrange(1 << 30)}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, solverfail=[["llg_solver", a, a] for a in case["fail"]], maxattempts=3000),
                  exe=case["exe"])
        if r.initial is None:
            o.bad("no-start", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
            return o
        M = model.Model(sc, one_gauss=case["exe"] == "gauss1", first_order=case["exe"] == "first")
        u0 = r.initial.u
        want = scen.init_at(sc, M.p)
        want[~M.magn] = np.nan
        d = worst(u0, want)
        if d > 1e-9:
            o.bad("initial", "the initial magnetization differs by %.3g from the configured one" % d)
            return o
        spin_on = "spin_accumulation" in sc["cfg"]
        h = C.history(r)
        dtmax = sc["cfg"]["time_integration"]["max(dt)"]
        # which accepted steps to compare: those after a failure first
        acc = [k for k, a in enumerate(h) if a.state is not None]
        hot = [k for k in acc if k and h[k - 1].state is None]
        hot += [acc[acc.index(k) + 1] for k in hot if acc.index(k) + 1 < len(acc)]
        rr = random.Random(case["pick"])
        sel = set(acc[:2] + acc[-1:]) | set(rr.sample(hot, min(len(hot), 14))) | set(rr.sample(acc, min(len(acc), 6)))
        states = [r.initial] + [h[k].state for k in acc]
        n_hot = 0
        worst_d = 0.0
        for j, k in enumerate(acc):
            if k not in sel:
                continue
            a = h[k]
            s0, s1 = states[j], states[j + 1]
            v = M.velocity(states[j - 1].u, s0.u, s0.dt) if j else np.zeros_like(u0)
            spin = None
            if spin_on:
                spin = M.spin(s0.u)
            u1, _, vm = M.step(s0.u, v, s0.t, a.dt, dtmax, spin)
            d = worst(s1.u, u1)
            worst_d = max(worst_d, d / (a.dt * vm + 1e-9))
            before = 0
            while k - before > 0 and h[k - 1 - before].state is None:
                before += 1
            n_hot += before > 0
            if d > TOL * (a.dt * vm + 1e-9):
                o.bad("step", "the state accepted at t=%r (dt=%r, after %d failed attempts) differs by %.3g from a step of the scheme from the last accepted state, %.3g long"
                      % (s1.t, a.dt, before, d, a.dt * vm))
                break
        o.info = worst_d
        inj = sum(1 for a in h if a.injected)
        if n_hot:
            o.key([case["exe"], [x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], spin_on, inj, len(h) - len(acc) - inj, len(sel)])
        return o

    def extra(self, infos):
        return {"largest_difference_from_the_model_relative_to_the_step": max(infos) if infos else None}

    def shrink(self, case):
        n = len(case["fail"])
        if n > 4:
            for a, b in ((0, n // 2), (n // 2, n)):
                c = copy.deepcopy(case)
                c["fail"] = case["fail"][:a] + case["fail"][b:]
                yield c
        for i in range(min(n, 20)):
            c = copy.deepcopy(case)
            del c["fail"][i]
            yield c
        yield from shrink.scenario(case)


def worst(a, b):
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return float("inf")
    d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    return float(d.max()) if d.size else 0.0


CHECK = P()
