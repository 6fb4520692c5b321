"""C07: a saved configuration can be started from, and is what the run starts from."""
import copy, random
import numpy as np
import common as C, model, scen, shrink
from harness import Check, Out
from props.c09 import worst

TRICKY = [None, None, {"time": "yesterday"}, {"time": "3.5e-9"}, {"time": "12 June"}, {"note": "first\n## time: 12"}, {"columns": "a b c"}, {"Author": "A B", "x": "1 2 3"}, {"note": "\n\nblank"}]


class P(Check):
    id = "C07"
    quick_n, thorough_n = 2500, 40000
    rule = ("a case counts as non-trivial when a run was started from a file saved by an earlier run; distinct by (how the file was saved, what "
            "was done to it, read faults, regions, spin columns, override of the time, how it ended)")
    assumptions = ["the file read is the one written by the program, possibly truncated, cut or extended by rows, or read through a faulty disk; "
                   "a file whose digits were altered cannot be told from a good one and is not tried"]

    def case(self, seed, i, tier):
        r = random.Random("C07/%d/%d" % (seed, i))
        sc = scen.generate("C07/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.25, save=1,
                           nout=r.randint(1, 4), tol=1e-10)
        out = sc["cfg"]["outputs"]
        sc["cfg"]["time_integration"]["min(dt)"] = 1e-18
        out.pop("metadata", None)
        md = r.choice(TRICKY)
        if md:
            out["metadata"] = md
        if r.random() < 0.5:
            sc["cfg"]["initial_time"] = scen.rnd(r.choice([1, -1]) * 10 ** r.uniform(-13, -7), 6)
            out["final_time"] = scen.rnd(sc["cfg"]["initial_time"] + out["final_time"], 14)
        sig = [r.choice([2, 15]), r.random()] if r.random() < 0.4 else None
        dmg = r.choice(["none"] * 5 + ["truncate", "truncate", "truncate", "lose-row", "extra-row", "swap", "no-time", "blank", "repeat", "repeat-lose", "undefined"])
        rd = []
        x = r.random()
        if x < 0.35:
            for _ in range(r.randint(1, 5)):
                rd.append(["read", r.randint(1, 6), r.choice(["short", "short", "eintr"]), r.choice([1, 2, 7, 100, 500, 4000]), 0, ".sol"])
            if r.random() < 0.4:
                rd = [["read", 1, "short", r.choice([1, 3, 17, 64]), 1, ".sol"]]
        elif x < 0.5:
            rd.append([r.choice(["read", "read", "openr"]), 0, "eio", 0, 1, ".sol"])
        return {"sc": sc, "sig": sig, "which": r.random(), "dmg": dmg, "x": r.random(), "rd": rd, "rdx": r.random(), "over": r.random() < 0.25,
                "t1": scen.rnd(r.choice([0, 1, 1, 1]) * r.uniform(-1, 1) * 1e-9, 6), "fail": [a for a in range(1, 20) if r.random() < 0.2] if r.random() < 0.3 else [],
                "nospin": r.random() < 0.3, "sub": r.random() < 0.2, "again": r.random() < 0.4}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        kw = {"maxattempts": 3000, "snap": 1}
        a = R.run(files, scen.plan_of(sc, **kw))
        if case["sig"]:
            a = R.run(files, scen.plan_of(sc, sig=[[case["sig"][0], "hook", 1 + int(case["sig"][1] * a.end.get("hooks", 0))]], **kw))
        elif not a.ok() and a.initial is not None and (a.died or a.status == ("exit", 1)):
            o.key("gave up")
            return o
        elif not a.ok():
            o.bad("no-run", "%s: %s" % (C.status_text(a.status), a.stderr[-200:]))
            return o
        base = scen.base(sc)
        sols = sorted(k for k in a.files if k.endswith(".sol") and not k.endswith("_V.sol"))
        if not sols:
            return o
        ae = base + "_at_exit.sol"
        name = ae if ae in sols and case["which"] < 0.7 else sols[int(case["which"] * len(sols))]
        good = a.files[name]
        s = C.Sol(good)
        n = a.initial.n
        if not s.complete(n) or s.time is None:
            o.bad("incomplete", "%s is incomplete" % name)
            return o
        # what was saved is the state of that moment, to the seven digits of these files
        near = [q for q in a.states if abs(q.t - s.time) <= 6e-7 * abs(q.t)]
        if not near:
            o.bad("saved-time", "%s gives t=%r, no state has that time" % (name, s.time))
            return o
        mg = ~np.isnan(a.initial.u).any(1)
        d = min(np.abs(q.u - s.u())[mg].max() for q in near) if mg.any() else 0
        if not d <= 1e-7:
            o.bad("saved", "the magnetization in %s differs by %.3g from that of the state it was saved from" % (name, d))
            return o
        data = self.damage(good, case, n, mg)
        b = copy.deepcopy(sc)
        out = b["cfg"]["outputs"]
        b["cfg"]["initial_magnetization"] = name
        b["cfg"].pop("initial_time", None)
        t0 = s.time
        if case["over"]:
            t0 = b["cfg"]["initial_time"] = case["t1"]
        out["file_basename"] = "again"
        nout = 1 + int(case["x"] * 3)
        out["final_time"] = t0 + nout * out["evol_time_step"]
        if case["nospin"] and "spin_accumulation" in b["cfg"]:
            b["cfg"].pop("spin_accumulation")
        spin_on = "spin_accumulation" in b["cfg"]
        inp = scen.files_of(b)
        inp[name] = data
        rd = copy.deepcopy(case["rd"])
        for f in rd:
            if f[1] == 0:
                # which of the reads of the .sol file fails
                f[1] = 1 + int(case["rdx"] * (8 + len(data) / 8192 + 2)) if f[0] == "read" else 1 + int(case["rdx"] * 5)
        r = R.run(inp, scen.plan_of(b, fs=rd, solverfail=[["llg_solver", k, k] for k in case["fail"]], **dict(kw, maxattempts=30000)))
        hits = [x for _, x in r.fired if x.startswith("fs ")]
        if r.died:
            o.bad("stuck", "the restarted run did not stop: %s" % r.died)
            return o
        hard = any("eio" in x for x in hits)
        started = r.initial is not None
        what = "restarting from %s (%s%s)" % (name, case["dmg"], ", " + hits[0] if hits else "")
        if not started:
            if r.status == ("exit", 0):
                o.bad("silent", "%s: exit status 0 and nothing was computed" % what)
            if r.status[0] == "signal" and not hard:
                o.bad("crash", "%s: the program died with signal %d" % (what, r.status[1]))
            if data == good and not hard:
                o.bad("refused", "%s: the file was refused: %s" % (what, r.stderr[-200:]))
            for k in r.files:
                if k.endswith((".evol", ".sol")):
                    o.bad("wrote", "%s: the file was refused, and %s was written" % (what, k))
        else:
            u = s.u()
            if case["dmg"] in ("lose-row", "extra-row", "swap", "no-time", "blank", "repeat", "repeat-lose", "undefined") and data != good:
                o.bad("accepted", "%s: the file does not describe this mesh, and the run started" % what)
            mag = ~np.isnan(a.initial.u).any(1)
            if not (r.initial.u[mag] == u[mag]).all():
                k = int(np.argmax((r.initial.u != u).any(1) & mag))
                o.bad("state", "%s: the run starts with %s on node %d, %s was saved" % (what, list(r.initial.u[k]), k, list(u[k])))
            if not np.isnan(r.initial.u[~mag]).all():
                o.bad("non-magnetic", "%s: a node that is not magnetic starts with a magnetization" % what)
            if r.initial.t != t0:
                o.bad("time", "%s: the run starts at t=%r instead of %r" % (what, r.initial.t, t0))
            if not o.violations and not r.ok() and data == good and not (r.status == ("exit", 1) and (case["fail"] or r.sites.get("llg_solver", 0) > len(r.accepted))):
                o.bad("status", "%s: %s: %s" % (what, C.status_text(r.status), r.stderr[-200:]))
            nb = scen.base(b)
            f0 = r.files.get(nb + "_iter0.sol")
            if f0 is None:
                o.bad("resave", "%s: the configuration it starts from was not saved" % what)
            elif not o.violations:
                s0 = C.Sol(f0)
                for x, y in zip(s0.rows, s.rows):
                    if x[:4] != y[:4]:
                        o.bad("resave", "%s: node %s was saved again as %s instead of %s" % (what, x[0], x[1:4], y[1:4]))
                        break
            # the first steps are those of the scheme from that state
            if not o.violations and case["again"]:
                M = model.Model(b)
                h = C.history(r)
                acc = [x for x in h if x.state is not None][:3]
                st = [r.initial] + [x.state for x in acc]
                dtmax = b["cfg"]["time_integration"]["max(dt)"]
                for j, x in enumerate(acc):
                    v = M.velocity(st[j - 1].u, st[j].u, st[j].dt) if j else np.zeros_like(u)
                    spin = M.spin(st[j].u) if spin_on else None
                    u1, _, _ = M.step(st[j].u, v, st[j].t, x.dt, dtmax, spin)
                    d = worst(st[j + 1].u, u1)
                    if d > 1e-8:
                        o.bad("step", "%s: step %d differs by %.3g from the scheme" % (what, j + 1, d))
                        break
        o.key([name == ae, case["dmg"], sorted(set(" ".join(x.split()[:3]) for x in hits)), [x[0] for x in sc["mesh"]["regions"]],
               len(s.columns), case["over"], r.status, started])
        return o

    @staticmethod
    def damage(good, case, n, mg):
        d, x = case["dmg"], case["x"]
        if d == "none":
            return good
        lines = good.split(b"\n")[:-1]
        h = sum(1 for l in lines if l.startswith(b"#"))
        body = lines[-n:]
        head = lines[:-n]
        k = int(x * n)
        if d == "truncate":
            # anywhere, most often in the last rows
            if x < 0.5:
                return good[:int(2 * x * len(good))]
            return good[:len(good) - 1 - int((2 * x - 1) * 120)]
        if d == "lose-row":
            del body[k]
        elif d == "extra-row":
            body.append(body[-1].replace(b"%d" % (n - 1), b"%d" % n, 1))
        elif d == "swap":
            j = (k + 1) % n
            body[k], body[j] = body[j], body[k]
        elif d == "no-time":
            i = max(j for j, l in enumerate(head) if l.startswith(b"## time:"))
            del head[i]
            head = [l for l in head if not l.startswith(b"## time:")]
        elif d == "blank":
            body[k] = b""
        elif d == "undefined":
            # as this program writes the nodes that are not magnetic: the file is that of a body with fewer magnetic regions
            j = [q for q in range(n) if mg[q]]
            if j:
                j = j[int(x * len(j))]
                c = body[j].split(b"\t")
                c[1:4] = [b"nan"] * 3
                body[j] = b"\t".join(c)
        elif d == "repeat":
            body.insert(k, body[k])
        elif d == "repeat-lose":
            body.insert(k, body[k])
            body.pop()
        return b"\n".join(head + body) + b"\n"

    def shrink(self, case):
        for k, v in (("sig", None), ("rd", []), ("fail", []), ("over", False), ("dmg", "none"), ("again", False)):
            if case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        yield from shrink.scenario(case)


CHECK = P()
