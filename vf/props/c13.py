"""C13: in a constant field the total energy does not increase."""
import copy, random
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out

TOL = 5e-3


class P(Check):
    id = "C13"
    quick_n, thorough_n = 1800, 20000
    rule = ("a case counts as non-trivial when the energy was compared over at least five outputs; distinct by (regions, field, anisotropies, failed and "
            "rejected attempts, rows)")
    assumptions = ["one magnetic material, without cubic anisotropy nor suppressed charges, damping at least 0.1, max(du) at most 0.05: there the scheme dissipates up to "
                   "the error of the discrete demagnetizing field, covered by %g of the energy scale; measured on 12000 cases, the energy increases in one of them, by "
                   "0.06%%" % TOL]

    def case(self, seed, i, tier):
        r = random.Random("C13/%d/%d" % (seed, i))
        reg = r.choice(["one", "one", "air"])
        sc = scen.generate("C13/%d/%d" % (seed, i), regions=reg, size=r.choice(["tiny", "small", "small", "medium"]), nout=r.choice([10, 20, 40]), tol=1e-8,
                           fieldkind=r.choice(["zero", "const"]))
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        sc["cfg"]["outputs"]["mag_config_every"] = False
        for v in sc["cfg"]["mesh"]["volume_regions"].values():
            for k in ("K3", "ex", "ey", "ez"):
                v.pop(k, None)
            if v.get("Ms"):
                v["alpha_LLG"] = max(v["alpha_LLG"], 0.1)
        for v in (sc["cfg"]["mesh"].get("surface_regions") or {}).values():
            v.pop("suppress_charges", None)
            if r.random() < 0.5:
                v.update({"Ks": scen.rnd(r.choice([1, -1]) * 10 ** r.uniform(-4, -3)), "uk": scen.vec(r)})
        if r.random() < 0.4:
            f = scen.field(r, "st")
            f["w"] = 0.0
            sc["field"] = f
            sc["cfg"]["Bext"] = scen.field_cfg(f)
        sc["cfg"]["time_integration"]["max(du)"] = r.choice([0.01, 0.02, 0.05])
        sc["cfg"]["outputs"]["evol_columns"] = ["t", "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "max_dm"]
        fail = [a for a in range(1, 200) if r.random() < 0.08] if r.random() < 0.5 else []
        return {"sc": sc, "fail": fail}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, maxattempts=4000, cpu=60, solverfail=[["llg_solver", a, a] for a in case["fail"]]))
        e = C.Evol(r.files.get(scen.base(sc) + ".evol", b""))
        if (not r.ok() and not (r.status == ("exit", 1) and len(r.states) > 1)) or not e.columns:
            o.bad("no-run", "%s %s" % (C.status_text(r.status), r.stderr[-200:]))
            return o
        M = model.Model(sc)
        es = M.energy_scale()
        cols = {k: e.col(k) for k in e.columns}
        E = cols["E_tot"]
        scale = es + sum(max(abs(x) for x in cols[k]) for k in ("E_ex", "E_aniso", "E_demag", "E_zeeman"))
        A = np.array(E)
        up = A - np.minimum.accumulate(A)
        big = float(up.max()) / scale
        o.info = [big, (max(E) - min(E)) / scale]
        if not big <= TOL:
            k = int(np.argmax(up))
            j = int(np.argmin(A[:k + 1]))
            o.bad("increase", "the total energy goes from %r at t=%r up to %r at t=%r in a constant field" % (E[j], cols["t"][j], E[k], cols["t"][k]))
        if len(E) > 5:
            h = C.history(r)
            o.key([[x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], len(h) - len(r.accepted), len(E)])
        return o

    def extra(self, infos):
        infos = [x for x in infos if x]
        return {"largest_relative_increase": max(x[0] for x in infos), "largest_relative_decrease": max(x[1] for x in infos)} if infos else {}

    def shrink(self, case):
        if case["fail"]:
            c = copy.deepcopy(case)
            c["fail"] = []
            yield c
        yield from shrink.scenario(case)


CHECK = P()
