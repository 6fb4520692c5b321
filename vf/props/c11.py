"""C11: what is written at an output time is what the state at that time is."""
import copy, math, random, re
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out


class P(Check):
    id = "C11"
    variants = {"plain": ("plain", None), "gauss1": ("gauss1", None)}
    quick_n, thorough_n = 2500, 20000
    rule = ("a case counts as non-trivial when at least two rows and one saved configuration were compared with the state they belong to; "
            "distinct by (build variant, columns, regions, field, spin, failed and rejected attempts, rows, how it ended)")
    assumptions = ["energies, averages and potentials are compared with the reference model evaluated on the state recorded at that time; "
                   "absolute tolerances are 1e-9 of the natural scale"]

    def case(self, seed, i, tier):
        r = random.Random("C11/%d/%d" % (seed, i))
        sc = scen.generate("C11/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.25, nout=r.randint(2, 6), tol=1e-10)
        q = random.Random("C11n/%d/%d" % (seed, i))
        if q.random() < 0.25:
            scen.rename(sc, q.choice(list(sc["cfg"]["mesh"]["volume_regions"])), q.choice(["a:b", "x:", ":y", "reg 1", "mag:<Mx>", "_r", "Fe₂O", "-", "1e3"]))
        out = sc["cfg"]["outputs"]
        if r.random() < 0.4:
            scen.provoke(sc, r)
            if r.random() < 0.3:
                sc["field"] = scen.field(r, "st")
                sc["cfg"]["Bext"] = scen.field_cfg(sc["field"])
        names = list(sc["cfg"]["mesh"]["volume_regions"])
        magn = [x for x in names if x != "air"]
        cols = list(scen.ALL_COLS)
        for g in magn:
            for c in ("<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>", "Thiele_length"):
                if r.random() < 0.4:
                    cols.append(g + ":" + c)
        cols.append("Thiele_length")
        r.shuffle(cols)
        if r.random() < 0.4:
            cols = cols[:r.randint(1, len(cols))]
        if r.random() < 0.1:
            cols = cols + cols[:2]
        out["evol_columns"] = cols
        if r.random() < 0.3:
            sc["cfg"]["initial_time"] = scen.rnd(r.uniform(-1e-10, 1e-10), 6)
            out["final_time"] = scen.rnd(sc["cfg"]["initial_time"] + out["final_time"], 14)
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        if r.random() < 0.5:
            out["metadata"] = {"Author": "A B", "note": r.choice(["one", "first\nsecond\n", "a\n\nb", "# hash"]), "time of day": "noon"}
        plan = {}
        if r.random() < 0.5:
            plan["solverfail"] = [["llg_solver", a, a] for a in range(1, 60) if r.random() < 0.2]
        if r.random() < 0.3:
            plan["sig"] = [[r.choice([2, 15]), "hook", r.randint(3, 120)]]
        if r.random() < 0.2:
            plan["fs"] = [["write", r.randint(1, 20), r.choice(["short", "eintr"]), r.choice([0, 300, 700]), 0]]
        return {"sc": sc, "plan": plan, "exe": r.choice(["plain", "plain", "gauss1"])}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        out = sc["cfg"]["outputs"]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, maxattempts=3000, **case["plan"]), exe=case["exe"])
        base = scen.base(sc)
        ev = r.files.get(base + ".evol")
        if r.initial is None:
            if "sig" not in case["plan"]:
                o.bad("no-start", "%s: %s" % (C.status_text(r.status), r.stderr[-300:]))
            return o
        if ev is None:
            if "sig" not in case["plan"]:
                o.bad("evol", "no %s.evol" % base)
            return o
        M = model.Model(sc, one_gauss=case["exe"] == "gauss1")
        states = [r.initial] + r.accepted
        idx = {s.t: k for k, s in enumerate(states)}
        spin_on = "spin_accumulation" in sc["cfg"]
        e = C.Evol(ev)
        if e.columns is None or not e.header:
            if r.ok() or "sig" not in case["plan"] and not r.died:
                o.bad("header", "%s.evol has no header (%s) %s" % (base, C.status_text(r.status), r.stderr[-200:]))
            return o
        if e.columns != out["evol_columns"]:
            o.bad("columns", "the columns of %s.evol are %s" % (base, e.columns))
            return o
        meta(o, base + ".evol", e.header, sc)
        t0, ts = r.initial.t, out["evol_time_step"]
        cache = {}

        def facts(k):
            if k not in cache:
                s = states[k]
                v = M.velocity(states[k - 1].u, s.u, s.dt) if k else np.zeros_like(s.u)
                cache[k] = (s, v, M.energies(s.u, s.t))
            return cache[k]

        es = M.energy_scale()
        if "sig" not in case["plan"] and not r.died and t0 + len(e.rows) * ts in idx:
            o.bad("row", "%s.evol ends after %d rows, t=%r was reached (%s) %s" % (base, len(e.rows), t0 + len(e.rows) * ts, C.status_text(r.status), r.stderr[-200:]))
            return o
        for n, row in enumerate(e.rows):
            t = t0 + n * ts
            if t not in idx or len(row) != len(e.columns):
                o.bad("row", "row %d of %s.evol belongs to no state at %r, or has %d fields" % (n, base, t, len(row)))
                return o
            s, v, en = facts(idx[t])
            vs = max(1e3, float(np.abs(v).max()))
            for c, x in zip(e.columns, row):
                x = float(x)
                reg, key = None, c
                if ":" in c:
                    reg, _, key = c.rpartition(":")
                tol = None
                if key == "iter":
                    w, tol = n, 0
                elif key == "t":
                    w, tol = t, 2e-15 * max(abs(t), abs(t0))
                elif key == "dt":
                    if not idx[t]:
                        continue
                    w, tol = s.dt, 1e-14 * s.dt
                elif key == "max_dm":
                    if not idx[t]:
                        continue
                    w = s.dt * float(np.sqrt((v ** 2).sum(1).max()))
                    tol = 1e-9
                elif key == "max_angle":
                    w = M.max_angle(s.u)
                    tol = 1e-6 if w < 1e-3 else 1e-9
                elif re.match("<M[xyz]>$", key):
                    w, tol = M.avg(s.u, "xyz".index(key[2]), reg), 1e-10
                elif re.match("<dM[xyz]/dt>$", key):
                    w, tol = M.avg(v, "xyz".index(key[3]), reg), 1e-7 * vs + (1e-14 / s.dt if s.dt else 0)     # v is a difference of two unit vectors divided by dt
                elif key == "Thiele_length":
                    with np.errstate(all="ignore"):
                        w = float(M.thiele(s.u, reg))
                    if w > 1e-3:   # uniform along z: no length
                        if not x > 1e-4:
                            o.bad("value", "row %d (t=%r): %s is %r for a magnetization that does not depend on z" % (n, t, c, x))
                        continue
                    tol = 1e-6 * abs(w)
                elif key in ("E_ex", "E_aniso", "E_demag", "E_zeeman"):
                    w = en[["E_ex", "E_aniso", "E_demag", "E_zeeman"].index(key)]
                    tol = 1e-8 * (es + sum(abs(z) for z in en))
                elif key == "E_tot":
                    w, tol = sum(en), 1e-8 * (es + sum(abs(z) for z in en))
                elif re.match("H[xyz]$", key):
                    if sc["field"]["kind"] == "st":
                        if not math.isnan(x):
                            o.bad("value", "row %d: %s is %r, the applied field is not uniform" % (n, c, x))
                        continue
                    w = scen.field_at(sc["field"], t, np.zeros((1, 3)))[0]["xyz".index(key[1])] / scen.MU0
                    tol = 1e-9 * abs(w) + 1e-3
                    if sc["field"]["kind"] == "pulse" and abs(t - sc["field"]["t0"]) < 1e-20:
                        continue
                else:
                    continue
                if not abs(x - w) <= tol:
                    o.bad("value", "row %d (t=%r): %s is %r, the state at that time gives %r" % (n, t, c, x, w))
                    return o
        # saved configurations
        nsol = 0
        for f in sorted(r.files):
            m = re.match(re.escape(base) + r"_(iter(\d+)|at_exit)\.sol$", f)
            if not m:
                continue
            sol = C.Sol(r.files[f])
            s = states[-1] if m.group(2) is None else states[idx.get(t0 + int(m.group(2)) * ts, -1)]
            k = idx[s.t]
            if not sol.complete(s.n):
                o.bad("sol", "%s: incomplete, %d rows for %d nodes" % (f, len(sol.rows), s.n))
                continue
            want = ["idx", "mx", "my", "mz", "phi"] + (["sx", "sy", "sz"] if spin_on else [])
            if sol.columns != want:
                o.bad("sol", "%s has columns %s" % (f, sol.columns))
                continue
            meta(o, f, sol.header, sc)
            if sol.time is None or abs(sol.time - s.t) > 1e-6 * abs(s.t):
                o.bad("sol-time", "%s is dated %s, the state is at %r" % (f, sol.time, s.t))
            a = sol.array()
            if not close(a[:, :3], s.u, 1.1e-7):
                o.bad("sol-u", "%s does not hold the magnetization at t=%r" % (f, s.t))
            phi = M.phi(s.u)
            if not close(a[:, 3][M.magn], phi[M.magn], 1e-6 * np.abs(phi).max()):
                o.bad("sol-phi", "%s does not hold the scalar potential of the magnetization at t=%r" % (f, s.t))
            if spin_on:
                sp = M.spin(s.u)
                if not close(a[:, 4:7], sp, 1e-5 * np.abs(sp).max()):
                    o.bad("sol-spin", "%s does not hold the spin accumulation at t=%r" % (f, s.t))
            nsol += 1
        if spin_on and sc["cfg"]["spin_accumulation"].get("V_file"):
            vf = [f for f in r.files if f.endswith("_V.sol")]
            if len(vf) != 1:
                o.bad("V", "%d files of electric potentials were written" % len(vf))
            else:
                sol = C.Sol(r.files[vf[0]])
                V = M.potential()
                if not sol.complete(r.initial.n) or sol.columns != ["index", "V"]:
                    o.bad("V", "%s is incomplete" % vf[0])
                elif not close(sol.array()[:, 0], V, 1e-5 * np.abs(V).max()):
                    o.bad("V", "%s does not hold the solution of the electrostatic problem" % vf[0])
        h = C.history(r)
        inj = sum(1 for a in h if a.injected)
        if len(e.rows) >= 2 and nsol:
            o.key([case["exe"], len(e.columns), [x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], spin_on, inj, len(h) - inj - len(r.accepted), len(e.rows), list(r.status)])
        return o

    def shrink(self, case):
        yield from shrink.drop_faults(case)
        c = case["sc"]["cfg"]["outputs"]["evol_columns"]
        if len(c) > 1:
            for part in (c[:len(c) // 2], c[len(c) // 2:]):
                d = copy.deepcopy(case)
                d["sc"]["cfg"]["outputs"]["evol_columns"] = part
                yield d
        yield from shrink.scenario(case)


def close(a, b, tol):
    na, nb = np.isnan(a), np.isnan(b)
    return not (na != nb).any() and bool((np.abs(np.where(na, 0, a) - np.where(nb, 0, b)) <= tol).all())


def meta(o, name, header, sc):
    """the user's metadata, escaped, and the settings file name"""
    text = "\n".join(header) + "\n"
    for k, v in (sc["cfg"]["outputs"].get("metadata") or {}).items():
        v = v[:-1] if v.endswith("\n") else v
        if "## %s: %s\n" % (k, v.replace("\n", "\n##  ")) not in text:
            o.bad("metadata", "%s: metadata '%s' is not in the header" % (name, k))
    if "## settings file: s.yml\n" not in text:
        o.bad("metadata", "%s: no settings file name" % name)


CHECK = P()
