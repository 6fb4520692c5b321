"""C08: adaptive time stepping keeps its contract whatever solves fail."""
import copy, math, random, re
import numpy as np
import common as C, scen, shrink
from harness import Check, Out

FOREVER = 10 ** 9


class P(Check):
    id = "C08"
    quick_n, thorough_n = 5000, 60000
    rule = ("a case counts as non-trivial when at least one attempt failed or was rejected, or the run had to give up; distinct "
            "by (failure pattern, number of failed, rejected and accepted attempts, rows, exit status)")
    assumptions = ["solver failures are injected at the end of LinAlgebra::solve (the status of the iteration is set to CANNOT_CONVERGE); "
                   "rejections come from the real dynamics (fast fields, small max(du))"]

    def case(self, seed, i, tier):
        r = random.Random("C08/%d/%d" % (seed, i))
        sc = scen.generate("C08/%d/%d" % (seed, i), size=r.choice(["tiny", "tiny", "small"]), spin=r.random() < 0.1,
                           nout=r.randint(1, 8) if tier == "quick" or r.random() < 0.8 else r.randint(9, 40), tol=r.choice([1e-6, 1e-8, 1e-10]))
        ti, out = sc["cfg"]["time_integration"], sc["cfg"]["outputs"]
        if r.random() < 0.4:
            scen.provoke(sc, r)
        if r.random() < 0.3:
            sc["cfg"]["initial_time"] = scen.rnd(r.choice([1, -1]) * 10 ** r.uniform(-13, -8), 6)
            out["final_time"] = scen.rnd(sc["cfg"]["initial_time"] + out["final_time"], 14)
        if r.random() < 0.2:   # a final time that is not a whole number of output steps
            out["final_time"] += out["evol_time_step"] * r.uniform(-0.45, 0.45)
        if r.random() < 0.15:  # output steps shorter than the minimum of the time steps the solver would choose
            out["evol_time_step"] = scen.rnd(ti["max(dt)"] * r.choice([0.3, 0.99, 1.0, 1.01, 2.0]))
            n = r.randint(2, 8)
            out["final_time"] = sc["cfg"].get("initial_time", 0) + out["evol_time_step"] * n
        if r.random() < 0.3:
            out["mag_config_every"] = r.choice([1, 2, 3, 4, 5, 7, False])
        pat = r.choice(["none", "sporadic", "burst", "bursts", "persistent", "random"])
        fail = []
        if pat == "sporadic":
            a = 0
            for _ in range(r.randint(1, 6)):
                a += r.randint(1, 9)
                fail.append([a, a])
        elif pat == "burst":
            a = r.randint(1, 30)
            fail.append([a, a + r.randint(1, 6)])
        elif pat == "bursts":
            a = 0
            for _ in range(r.randint(2, 4)):
                a += r.randint(2, 20)
                b = a + r.randint(1, 4)
                fail.append([a, b])
                a = b
        elif pat == "persistent":
            fail.append([r.randint(1, 40), FOREVER])
        elif pat == "random":
            p = r.choice([0.1, 0.3])
            for a in range(1, 80):
                if r.random() < p:
                    fail.append([a, a])
        if pat in ("burst", "bursts", "random", "sporadic") and r.random() < 0.8:
            ti["min(dt)"] = 1e-19    # room to recover: the run has to succeed
        if r.random() < 0.1:         # room for nothing
            ti["min(dt)"] = scen.rnd(ti["max(dt)"] * r.choice([0.9, 0.5, 0.3, 0.1]))
        if r.random() < 0.15:        # output times a few minimal steps apart: little is left before each of them
            ti["max(dt)"] = scen.rnd(min(ti["max(dt)"], 10 ** r.uniform(-13.5, -12.5)))
            ti["min(dt)"] = scen.rnd(ti["max(dt)"] / r.uniform(2.3, 12))
            out["evol_time_step"] = scen.rnd(ti["min(dt)"] * r.uniform(1.5, 16))
            out["final_time"] = sc["cfg"].get("initial_time", 0) + out["evol_time_step"] * r.randint(2, 12)
            if pat != "none" and r.random() < 0.6:
                pat, fail = "none", []
        return {"sc": sc, "pat": pat, "fail": fail}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        cfg = sc["cfg"]
        ti, out = cfg["time_integration"], cfg["outputs"]
        r = R.run(scen.files_of(sc), scen.plan_of(sc, snap=1, solverfail=[["llg_solver"] + f for f in case["fail"]], maxattempts=30000))
        h = C.history(r)
        st = r.states
        if r.died:
            o.bad("stuck", "no end after %d attempts (%s), time reached %r" % (len(h), r.died, st[-1].t if st else None))
            return o
        if not st:
            o.bad("no-start", "%s without a first state: %s" % (C.status_text(r.status), r.stderr[-200:]))
            return o
        t0, ts, tf = st[0].t, out["evol_time_step"], out["final_time"]
        dmin, dmax, dumax = ti["min(dt)"], ti["max(dt)"] * (1 + 2e-7), ti["max(du)"]
        if t0 != cfg.get("initial_time", 0):
            o.bad("initial-time", "starts at %r instead of %r" % (t0, cfg.get("initial_time", 0)))
        n = int(math.floor((tf - t0) / ts + 0.5))
        if abs((tf - t0) / ts + 0.5 - round((tf - t0) / ts + 0.5)) < 1e-9:
            n = None   # half way: rounding decides
        # attempts
        cur, u = t0, st[0].u
        k_next = 1
        prev = None
        rejected = 0
        nextrow = 0
        for a in h:
            if a.t != cur:
                o.bad("attempt-time", "an attempt starts at %r, the last accepted state is at %r" % (a.t, cur))
                break
            while t0 + k_next * ts <= cur:
                k_next += 1
            target = t0 + k_next * ts
            if not (dmin <= a.dt <= dmax):
                o.bad("dt-range", "time step %r tried at t=%r, min(dt)=%r max(dt)=%r" % (a.dt, a.t, dmin, ti["max(dt)"]))
                break
            if a.t + a.dt > target + 1e-9 * ts:
                o.bad("overshoot", "time step %r tried at t=%r goes past the output time %r" % (a.dt, a.t, target))
                break
            if prev is not None and prev.state is None:
                lim = prev.dt / 2 if prev.injected else prev.dt
                if a.dt > lim * (1 + 1e-12):
                    o.bad("retry", "after a %s time step of %r at t=%r, %r was tried" % ("failed" if prev.injected else "rejected", prev.dt, a.t, a.dt))
                    break
            if a.state is not None:
                s = a.state
                if a.injected:
                    o.bad("failed-accepted", "the solver failed at t=%r, dt=%r, and the step was accepted" % (a.t, a.dt))
                if s.dt != a.dt:
                    o.bad("dt", "a step of %r was accepted with dt=%r" % (a.dt, s.dt))
                if abs(s.t - (a.t + a.dt)) > 1e-12 * max(abs(s.t), ts) or not s.t > a.t:
                    o.bad("time", "a step of %r from t=%r led to t=%r" % (a.dt, a.t, s.t))
                with np.errstate(all="ignore"):
                    d = np.sqrt(((s.u - u) ** 2).sum(1))
                d = float(np.nanmax(d))
                if d > dumax * (1 + 1e-9):
                    o.bad("max-du", "the magnetization moved by %r in the step accepted at t=%r, max(du)=%r" % (d, s.t, dumax))
                cur, u = s.t, s.u
            elif not a.injected:
                rejected += 1
            prev = a
            if o.violations:
                break
        failed = sum(1 for a in h if a.injected)
        acc = len(r.accepted)
        # rows
        base = scen.base(sc)
        e = C.Evol(r.files.get(base + ".evol", b""))
        ok = r.status == ("exit", 0)
        rows = len(e.rows)
        if e.columns is None:
            o.bad("evol", "no columns in %s.evol" % base)
            return o
        want = n + 1 if n is not None else None
        if not ok:
            want = sum(1 for k in range(100000) if t0 + k * ts <= st[-1].t) if n is None or n < 100000 else None
        if want is not None and rows != want:
            o.bad("rows", "%d rows in the .evol file, %d output times %s" % (rows, want, "were asked for" if ok else "were reached"))
        if e.torn:
            o.bad("rows", "the .evol file ends with an incomplete row")
        byt = {s.t: s for s in st}
        dts = {s.t: s.dt for s in r.accepted}
        for k, row in enumerate(e.rows):
            if len(row) != len(e.columns):
                o.bad("rows", "row %d of the .evol file has %d fields for %d columns" % (k, len(row), len(e.columns)))
                break
            x = dict(zip(e.columns, row))
            tk = t0 + k * ts
            if "t" in x and abs(float(x["t"]) - tk) > 2e-15 * max(abs(tk), abs(t0)):
                o.bad("row-time", "row %d of the .evol file is at t=%s, not %r" % (k, x["t"], tk))
                break
            if "iter" in x and x["iter"] != str(k):
                o.bad("row-iter", "row %d of the .evol file is numbered %s" % (k, x["iter"]))
                break
            if tk not in byt:
                o.bad("row-state", "row %d at t=%r, which is the time of no accepted state" % (k, tk))
                break
            if k and "dt" in x and C.rel(float(x["dt"]), dts[tk]) > 1e-14:
                o.bad("row-dt", "row %d at t=%r gives dt=%s, the step was %r" % (k, tk, x["dt"], dts[tk]))
                break
            if k and "max_dm" in x and not float(x["max_dm"]) <= dumax:
                o.bad("row-max_dm", "row %d gives max_dm=%s, max(du)=%r" % (k, x["max_dm"], dumax))
                break
        sav = out["mag_config_every"]
        exp = {"%s_iter%d.sol" % (base, k) for k in range(rows) if sav and k % sav == 0}
        got = {k for k in r.files if k.endswith(".sol") and not k.endswith("_V.sol")}
        if exp != got:
            o.bad("sol-files", "saved configurations: %s instead of %s" % (sorted(got - exp) or "none more", sorted(exp - got) or "nothing more"))
        for k in range(rows):
            f = "%s_iter%d.sol" % (base, k)
            if f in exp and f in r.files:
                s = C.Sol(r.files[f])
                tk = t0 + k * ts
                if s.time is None or abs(s.time - tk) > 1e-6 * abs(tk):
                    o.bad("sol-time", "%s is dated %s instead of %r" % (f, s.time, tk))
        # giving up
        room = dmin <= 1.001e-17
        if not ok:
            if r.status != ("exit", 1):
                o.bad("status", "the run ended with %s: %s" % (C.status_text(r.status), r.stderr[-200:]))
            elif not h or h[-1].state is not None:
                # nothing failed: only acceptable if the output times leave no room for a step
                last = r.accepted[-1].dt if acc else math.sqrt(dmin * ti["max(dt)"])
                if 1.001 * dmin <= ts and last >= 2.2 * dmin:
                    o.bad("gave-up", "gave up at t=%r although nothing had failed (dt between %r and %r)" % (cur, dmin, ti["max(dt)"]))
            elif h[-1].injected and h[-1].dt > 4.4 * dmin:
                o.bad("gave-up", "gave up after the failure of a step of %r at t=%r, min(dt)=%r" % (h[-1].dt, cur, dmin))
            elif not h[-1].injected and room and dumax >= 0.004:
                o.bad("gave-up", "gave up after the rejection of a step of %r at t=%r, min(dt)=%r" % (h[-1].dt, cur, dmin))
        else:
            if any(b >= FOREVER for a, b in case["fail"]) and failed:
                o.bad("no-failure", "no solve succeeded from attempt %d on, and the program exited with status 0" % case["fail"][0][0])
            if n is not None and abs(st[-1].t - (t0 + n * ts)) > 2e-15 * max(abs(tf), abs(t0)):
                o.bad("end-time", "the run ended at t=%r" % st[-1].t)
        if any(b >= FOREVER for a, b in case["fail"]) and failed:
            lim = math.log2(max(2, dmax / dmin)) + 4
            if failed > lim:
                o.bad("no-progress", "%d attempts in a row failed before giving up, min(dt) is %.0f halvings away" % (failed, lim - 4))
        # statistics shown at the end
        ms = re.search(r"successful\s+(\S+)", r.stdout)
        mf = re.search(r"failed\s+(\d\S*)", r.stdout)
        if not ms or not mf:
            o.bad("stats", "no time step statistics were printed")
        elif float(ms.group(1)) != float("%g" % acc) or float(mf.group(1)) != float("%g" % (len(h) - acc)):
            o.bad("stats", "the statistics give %s successful and %s failed steps, there were %d and %d" % (ms.group(1), mf.group(1), acc, len(h) - acc))
        if failed or rejected or not ok:
            o.key([case["pat"], failed, rejected, acc, rows, r.status[1]])
        return o

    def shrink(self, case):
        for i in range(len(case["fail"])):
            c = copy.deepcopy(case)
            del c["fail"][i]
            yield c
        yield from shrink.scenario(case)


CHECK = P()
