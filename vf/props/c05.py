"""C05: the process can die at any instant and lose nothing that was due, and can be started again."""
import copy, random
import common as C, scen, shrink
from harness import Check, Out

KINDS = ["hook", "malloc", "clock", "region", "fsop", "rand"]


class P(Check):
    id = "C05"
    quick_n, thorough_n = 2400, 40000
    rule = ("a case counts as non-trivial when the process died after it had created at least one output file; distinct by (how it died, "
            "file it died in, state of each file left, number of deaths, whether the restart was checked)")
    assumptions = ["the process dies, the operating system does not: what was handed to write() before is still there",
                   "deaths are at file operations (before, after, or in the middle of a write) or at simulator events"]

    def case(self, seed, i, tier):
        r = random.Random("C05/%d/%d" % (seed, i))
        sc = scen.generate("C05/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.2,
                           nout=r.randint(1, 5), tol=1e-8)
        if r.random() < 0.2:
            scen.provoke(sc, r)
        if r.random() < 0.2:
            sc["cfg"]["outputs"]["mag_config_every"] = r.choice([1, 2, False])
        fail = [["llg_solver", a, a] for a in range(1, 30) if r.random() < 0.15] if r.random() < 0.3 else []
        deaths = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if r.random() < 0.7:
                deaths.append(["op", r.random(), r.choice([0, 0, 1, 200, 500, 999, 1000])])
            else:
                deaths.append(["kill", r.choice(KINDS), r.random()])
        return {"sc": sc, "fail": fail, "deaths": deaths, "sig": r.random() < 0.1, "other": r.random() if r.random() < 0.3 else None}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        kw = {"solverfail": case["fail"], "maxattempts": 4000}
        ref = R.run(files, scen.plan_of(sc, **kw))
        if ref.died and ref.initial is not None:
            return o
        if not ref.ok() and ref.status != ("exit", 1):
            o.bad("no-run", "%s: %s" % (C.status_text(ref.status), ref.stderr[-200:]))
            return o
        rf = C.masked(ref.files)
        base = scen.base(sc)
        ts = sc["cfg"]["outputs"]["evol_time_step"]
        sav = sc["cfg"]["outputs"]["mag_config_every"]
        left = {}
        key = []
        for d in case["deaths"]:
            plan = scen.plan_of(sc, **kw)
            if d[0] == "op":
                nops = ref.end.get("fsop", 0)
                plan["fs"] = [["any", 1 + int(d[1] * nops), "crash", d[2], 0]]
            else:
                n = {"hook": "hooks", "region": "regions"}.get(d[1], d[1])
                plan["sig"] = [[9, d[1], 1 + int(d[2] * ref.end.get(n, 0))]]
            inp = dict(files)
            inp.update(left)
            r = R.run(inp, plan)
            if r.status != ("signal", 9) and not any("crash" in x for _, x in r.fired):
                # it finished before
                if r.status != ref.status:
                    o.bad("status", "%s instead of %s" % (C.status_text(r.status), C.status_text(ref.status)))
                key.append("finished")
            cur = dict(left)
            cur.update(r.files)
            # how far had it got?
            at = C.attempts(r)
            reached = max((t for _, t, _, _ in at), default=None)
            t0 = r.initial.t if r.initial is not None else 0.0
            xf = C.masked(cur)
            for k in sorted(xf):
                if k not in rf:
                    if k.endswith((".sol", ".evol")):
                        o.bad("stray", "%s is left, which the undisturbed run does not write" % k)
                elif not rf[k].startswith(xf[k]):
                    o.bad("content", "%s, left by a killed run, is not the beginning of what the undisturbed run writes" % k)
            if reached is not None:
                n = 0
                while t0 + n * ts <= reached and n < 10000:
                    n += 1
                e = C.Evol(xf.get(base + ".evol", b""))
                full = C.Evol(rf.get(base + ".evol", b""))
                n = min(n, len(full.rows))
                if len(e.rows) < n:
                    o.bad("lost-row", "the run was killed after t=%r and %s.evol has %d rows, %d output times had been reached"
                          % (reached, base, len(e.rows), n))
                for k in range(n):
                    f = "%s_iter%d.sol" % (base, k)
                    if sav and k % sav == 0 and xf.get(f) != rf.get(f):
                        o.bad("lost-sol", "the run was killed after t=%r and %s is %s" % (reached, f, "incomplete" if f in xf else "missing"))
            if xf:
                where = "-"
                for _, x in r.fired:
                    if "crash" in x:
                        where = x.split("/")[-1].split("_iter")[-1]
                key.append([d[0], d[1] if d[0] == "kill" else d[2], where, len(xf), len(at)])
            left = {k: v for k, v in cur.items() if k not in files}
        if case.get("other") is not None:
            # what is left comes from a run with other settings, whose files are longer
            sc2 = copy.deepcopy(sc)
            sc2["cfg"]["outputs"]["metadata"] = {"note": "another run, " * 60}
            r = R.run(scen.files_of(sc2), scen.plan_of(sc2, sig=[[9, "fsop", 1 + int(case["other"] * 1.3 * ref.end.get("fsop", 0))]], **kw))
            left = {k: v for k, v in r.files.items() if k not in files}
            key.append(["other", len(left)])
        # start again over what is left
        inp = dict(files)
        inp.update(left)
        r = R.run(inp, scen.plan_of(sc, **kw))
        if r.status != ref.status:
            o.bad("restart-status", "started again over what a killed run left: %s instead of %s: %s"
                  % (C.status_text(r.status), C.status_text(ref.status), (r.stderr + r.stdout)[-200:]))
        got = dict(left)
        got.update(r.files)
        got = C.masked(got)
        for k in sorted(set(got) | set(rf)):
            if k not in rf and not k.endswith((".sol", ".evol")):
                continue
            if got.get(k) != rf.get(k):
                o.bad("restart-output", "started again over what a killed run left, %s differs from that of an undisturbed run" % k)
        if key:
            o.key(key)
        return o

    def shrink(self, case):
        for i in range(len(case["deaths"])):
            if len(case["deaths"]) > 1:
                c = copy.deepcopy(case)
                del c["deaths"][i]
                yield c
        if case["fail"]:
            c = copy.deepcopy(case)
            c["fail"] = []
            yield c
        yield from shrink.scenario(case)


CHECK = P()
