"""C19: the results are those of the body described, not of the way the mesh file and the settings describe it."""
import copy, random
import numpy as np
import common as C, meshgen, scen, shrink
from harness import Check, Out
from props.c01 import P as C01, sensitive

TOL = 3e-6


def turned(v, k):
    """the vector v once everything is turned: axis i becomes axis (i + k) % 3"""
    w = [None] * 3
    for i in range(3):
        w[(i + k) % 3] = v[i]
    return w


def name(c, k):
    """the column of the turned body that corresponds to c"""
    for a in ("<M%s>", "<dM%s/dt>", "H%s"):
        for i in range(3):
            x = a % "xyz"[i]
            if c == x or c.endswith(":" + x):
                return c[:len(c) - len(x)] + a % "xyz"[(i + k) % 3]
    return c


def other(sc, how):
    """The same body described otherwise: (settings, mesh, old number of each node)."""
    r = random.Random(how["seed"])
    k, s = how["turn"], how["shift"]
    m = scen.mesh_of(sc)
    cfg = copy.deepcopy(sc["cfg"])
    u0 = cfg["mesh"]["length_unit"]
    u1 = how["unit"]
    p = [[x * u0 / 1e-9 for x in q] for q in m.nodes]          # in nm
    p = [[(a + b) * 1e-9 / u1 for a, b in zip(turned(q, k), s)] for q in p]
    n = list(range(len(p)))
    if how["number"]:
        r.shuffle(n)                                            # new number of each node
    old = [0] * len(n)
    for i, j in enumerate(n):
        old[j] = i
    w = meshgen.Mesh()
    w.nodes = [p[i] for i in old]
    w.vol_regions, w.surf_regions = list(m.vol_regions), list(m.surf_regions)
    w.tets = [(g, tuple(n[i] for i in t)) for g, t in m.tets]
    w.tris = [(g, tuple(n[i] for i in t)) for g, t in m.tris]
    if how["order"]:
        r.shuffle(w.tets)
        r.shuffle(w.tris)
        r.shuffle(w.vol_regions)
        r.shuffle(w.surf_regions)
        w.tets = [(g, tuple(r.sample(t, 4))) for g, t in w.tets]
        w.tris = [(g, tuple(r.sample(t, 3))) for g, t in w.tris]
        w.ents = r.choice([0, 1, 2]) and r.randrange(1, 1 << 30)
        for q in ("volume_regions", "surface_regions"):
            if cfg["mesh"].get(q):
                it = list(cfg["mesh"][q].items())
                r.shuffle(it)
                cfg["mesh"][q] = dict(it)
    cfg["mesh"]["length_unit"] = u1
    for q in ("volume_regions", "surface_regions"):
        for v in (cfg["mesh"].get(q) or {}).values():
            for key in ("uk", "ex", "ey", "ez", "uP", "s"):
                if key in v:
                    v[key] = turned(v[key], k)
    d = copy.deepcopy(sc["init"])
    ax = {"xyz"[i]: "xyz"[(i + k) % 3] for i in range(3)}
    sh = dict(zip("xyz", s))
    d["x"] = [ax[a] for a in d["x"]]
    d["f"] = [f - q * sh[a] for f, q, a in zip(d["f"], d["k"], d["x"])]
    for key in ("b", "a", "k", "x", "f"):
        d[key] = turned(d[key], k)
    cfg["initial_magnetization"] = scen.init_cfg(d)
    f = copy.deepcopy(sc["field"])
    if f["kind"] == "st":
        for key in ("b", "g", "k"):
            f[key] = turned(f[key], k)
        off = sum(a * b * 1e-9 for a, b in zip(f["k"], s))
        f["b"] = [b - g * off for b, g in zip(f["b"], f["g"])]
        cfg["Bext"] = scen.field_cfg(f)
    else:
        f.pop("func", None)
        cfg["Bext"] = turned(scen.field_cfg(f), k)
    cfg["outputs"]["evol_columns"] = [name(c, k) for c in cfg["outputs"]["evol_columns"]]
    return cfg, w, old


class P(Check):
    id = "C19"
    quick_n, thorough_n = 1500, 40000
    rule = ("a case counts as non-trivial when at least three steps were compared; distinct by (what was changed in the description, regions, field, spin, failed and "
            "rejected attempts, steps)")
    assumptions = ["without recentering, where nearest nodes at equal distance are a matter of numbering, and, when the axes are turned, without cubic anisotropy (the second-order "
                   "term of its field depends on the axes, as one of the unit tests wants) and Thiele_length (defined along Z)",
                   "finite_element_solver.tolerance is 1e-10 in these scenarios; results may differ by %g" % TOL,
                   "a difference is set aside when a change of 1e-8 of the initial state also changes the results by more than 1e-6 (an unstable motion)"]

    def case(self, seed, i, tier):
        r = random.Random("C19/%d/%d" % (seed, i))
        sc = scen.generate("C19/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.2, nout=r.randint(2, 5), tol=1e-10)
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        if r.random() < 0.35:
            scen.provoke(sc, r)
        turn = r.choice([0, 1, 2])
        if sc["init"]["form"] == "regions":
            sc["init"]["form"] = "func"
            sc["cfg"]["initial_magnetization"] = scen.init_cfg(sc["init"])
        if turn:
            for v in sc["cfg"]["mesh"]["volume_regions"].values():
                for key in ("K3", "ex", "ey", "ez"):
                    v.pop(key, None)
            c = sc["cfg"]["outputs"]["evol_columns"]
            sc["cfg"]["outputs"]["evol_columns"] = [x for x in c if "Thiele" not in x]
        how = {"turn": turn, "number": r.random() < 0.7, "order": r.random() < 0.7, "seed": r.randrange(1 << 30),
               "shift": [scen.rnd(r.uniform(-40, 40)) for _ in range(3)] if r.random() < 0.4 else [0, 0, 0],
               "unit": r.choice([1e-9, 1e-9, 1e-6, 1.0, 2.5e-9])}
        return {"sc": sc, "how": how, "fail": [a for a in range(1, 40) if r.random() < 0.15] if r.random() < 0.4 else []}

    def run(self, R, case):
        o = self.run1(R, case)
        if o.violations and self.ref is not None and (sensitive(R, case["sc"], self.kw, self.ref) or self.tipped
                and C.fragile(R, scen.files_of(case["sc"]), scen.plan_of(case["sc"], **self.kw), self.ref)):
            o = Out()
            o.info = "sensitive"
        return o

    def run1(self, R, case):
        self.ref, self.tipped = None, False
        o = Out()
        sc, how = case["sc"], case["how"]
        kw = {"maxattempts": 2000, "snap": 1, "solverfail": [["llg_solver", a, a] for a in case["fail"]], "cpu": 120}
        ref = R.run(scen.files_of(sc), scen.plan_of(sc, **kw))
        if ref.initial is None:
            o.bad("no-start", "%s: %s" % (C.status_text(ref.status), ref.stderr[-300:]))
            return o
        self.ref, self.kw = ref, kw
        cfg, m, old = other(sc, how)
        sc2 = dict(sc, cfg=cfg)
        files = scen.files_of(sc2)
        files["m.msh"] = m.text()
        r = R.run(files, scen.plan_of(sc2, **kw))
        ch = [x for x in ("number", "order") if how[x]] + (["axes"] if how["turn"] else []) + (["place"] if any(how["shift"]) else []) \
            + (["unit"] if how["unit"] != sc["cfg"]["mesh"]["length_unit"] else [])
        what = "with the same body described otherwise (%s)" % ", ".join(ch)
        # back to the first description
        n, k = len(old), how["turn"]
        new = np.empty(n, dtype=int)
        new[old] = np.arange(n)
        comp = [(i + k) % 3 for i in range(3)]
        for s in r.states:
            if s.u is not None:
                s.u = s.u[new][:, comp]
        self.tipped = C.tipped(ref, r)
        if (r.status, r.died) != (ref.status, ref.died):
            o.bad("status", "%s the program ended with %s %s instead of %s: %s" % (what, C.status_text(r.status), r.died or "", C.status_text(ref.status), r.stderr[-200:]))
            return o
        head = b"## columns: " + "\t".join(sc["cfg"]["outputs"]["evol_columns"]).encode()
        for f in list(r.files):
            if f.endswith(".evol"):
                r.files[f] = b"\n".join(head if l.startswith(b"## columns: ") else l for l in r.files[f].split(b"\n"))
            elif f.endswith(".sol"):
                q = C.Sol(r.files[f])
                if len(q.rows) != n or q.torn:
                    continue
                rows = []
                for i in range(n):
                    x = q.rows[new[i]]
                    y = [str(i)]
                    if len(x) >= 5:
                        y += [x[1 + c] for c in comp] + [x[4]] + ([x[5 + c] for c in comp] if len(x) == 8 else x[5:])
                    else:
                        y += x[1:]
                    rows.append("\t".join(y))
                r.files[f] = ("\n".join(q.header + rows) + "\n").encode()
        o.info = C01.compare(sc, ref, r, o, what, tol=TOL, loose=30.0, than="as first described")
        if len(ref.states) > 3:
            o.key([ch, k, [x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], "spin_accumulation" in sc["cfg"], len(case["fail"]), len(ref.states)])
        return o

    def extra(self, infos):
        v = [x for x in infos if x != "sensitive"]
        return {"largest_difference_between_descriptions": max(v) if v else None, "cases_set_aside_as_sensitive_to_rounding": len(infos) - len(v)}

    def shrink(self, case):
        for key, v in (("turn", 0), ("number", False), ("order", False), ("shift", [0, 0, 0])):
            if case["how"][key] != v:
                c = copy.deepcopy(case)
                c["how"][key] = v
                yield c
        if case["fail"]:
            c = copy.deepcopy(case)
            c["fail"] = []
            yield c
        yield from shrink.scenario(case)


CHECK = P()
