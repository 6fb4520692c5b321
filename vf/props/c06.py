"""C06: exit status 0 means that everything asked for is on disk, whatever the disk and the memory did."""
import copy, random
import common as C, scen, shrink
from harness import Check, Out

ERR = ["enospc", "eio", "edquot"]
BENIGN = ("short", "eintr", "eexist")


class P(Check):
    id = "C06"
    quick_n, thorough_n = 4500, 50000
    rule = ("a case counts as non-trivial when at least one fault hit the run; distinct by (faults and the files they hit, how the run ended, "
            "number of files left, number of rows left)")
    assumptions = ["faults are what write(), writev(), open(), fclose(), mkdir(), stat() and malloc() may report on a POSIX system; standard output is not faulted"]

    def case(self, seed, i, tier):
        r = random.Random("C06/%d/%d" % (seed, i))
        sc = scen.generate("C06/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small"]), spin=r.random() < 0.25,
                           nout=r.randint(1, 5), tol=1e-8)
        out = sc["cfg"]["outputs"]
        if r.random() < 0.3:
            out["mag_config_every"] = r.choice([1, 1, 2, False])
        if r.random() < 0.1:   # headers longer than a stream buffer
            out["metadata"] = {"note": "\n".join("line %d of a long story" % k for k in range(500))}
        kind = r.choice(["error", "error", "error", "error", "benign", "benign", "mixed", "malloc"])
        f = []
        if kind in ("error", "mixed"):
            for _ in range(1 if r.random() < 0.8 else 2):
                op = r.choice(["write", "write", "write", "close", "close", "open", "mkdir", "stat"])
                act = r.choice(ERR) if op in ("write", "close") else r.choice(["eacces", "emfile", "enospc"]) if op == "open" else \
                    r.choice(["eacces", "enospc"]) if op == "mkdir" else "eacces"
                f.append([op, r.random(), act, r.choice([0, 1, 100, 10 ** 6]) if op == "close" else 0, int(r.random() < 0.4)])
        if kind in ("benign", "mixed"):
            for _ in range(r.randint(1, 6)):
                if r.random() < 0.15:
                    f.append(["mkdir", 0.0, "eexist", 0, 0])
                else:
                    f.append(["write", r.random(), r.choice(["short", "short", "eintr"]), r.choice([0, 1, 300, 500, 999]), 0])
            if r.random() < 0.2:
                f.append(["write", 0.0, "short", r.choice([200, 500, 900]), 1])    # every write is short
        m = [r.random() for _ in range(r.choice([1, 1, 2]))] if kind == "malloc" else []
        sig = [r.choice([2, 15]), r.random()] if r.random() < 0.2 else None
        return {"sc": sc, "kind": kind, "fs": f, "malloc": m, "sig": sig}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        ref = R.run(files, scen.plan_of(sc, maxattempts=4000))
        kw = {"maxattempts": 4000}
        if case["sig"]:
            kw["sig"] = [[case["sig"][0], "hook", 1 + int(case["sig"][1] * ref.end.get("hooks", 0))]]
            ref = R.run(files, scen.plan_of(sc, **kw))
        if ref.died and ref.initial is not None:
            return o
        if ref.status not in (("exit", 0), ("exit", 1)) and not case["sig"]:
            o.bad("no-run", "%s: %s" % (C.status_text(ref.status), ref.stderr[-200:]))
            return o
        fs = []
        for op, x, act, arg, sticky in case["fs"]:
            if act == "eexist" and not ref.ops.get("mkdir"):
                continue
            fs.append([op, 1 + int(x * ref.ops.get(op, 0)), act, arg, sticky])
        mal = [1 + int(x * ref.end.get("malloc", 0)) for x in case["malloc"]]
        r = R.run(files, scen.plan_of(sc, fs=fs, mallocfail=mal, **kw))
        hits = [(s, x) for s, x in r.fired if x.startswith(("fs ", "malloc_fail"))]
        if r.died:
            o.bad("stuck", "the program did not stop: %s" % r.died)
            return o
        rf, xf = C.masked(ref.files), C.masked(r.files)
        bad = [(s, x) for s, x in hits if x.startswith("malloc") or x.split()[2] not in BENIGN]
        what = ", ".join(x for _, x in hits[:4])
        if r.status == ref.status:
            if (hits or xf != rf) and not (bad and r.status == ("exit", 1)):
                for k in sorted(set(rf) | set(xf)):
                    if xf.get(k) != rf.get(k):
                        o.bad("silent", "%s after [%s], and %s %s" % (C.status_text(r.status), what, k, "is missing" if k not in xf else "is not what it should be"))
                        break
        elif not bad:
            o.bad("benign", "%s instead of %s after [%s]: %s" % (C.status_text(r.status), C.status_text(ref.status), what, r.stderr[-200:]))
        else:
            if r.status == ("exit", 0):
                o.bad("silent", "exit 0 instead of %s after [%s]" % (C.status_text(ref.status), what))
            if not mal and r.status[0] == "signal" and r.status[1] not in (6,) and not (case["sig"] and r.status[1] == case["sig"][0]):
                o.bad("crash", "the program died with signal %d after [%s]" % (r.status[1], what))
        base = scen.base(sc)
        # what is there is what it should be, as far as it goes
        ev = xf.get(base + ".evol", b"")
        if not rf.get(base + ".evol", b"").startswith(ev):
            o.bad("evol", "%s.evol is not the beginning of what it should be after [%s]" % (base, what))
        first = {}
        for s, x in bad:
            p = x.split()
            if p[0] == "fs" and p[1] in ("write", "close", "open"):
                first.setdefault(p[3].lstrip("./"), s)
        for f, s in first.items():
            if f.endswith(("s.yml", "m.msh")):
                continue
            late = [a for a in C.attempts(r) if a[0] > s]
            if late:
                o.bad("went-on", "%s could not be written at t=%r, and a time step was attempted after that" % (f, late[0][1]))
                break
        if hits:
            o.key([sorted(set(" ".join(x.split()[:3] + x.split("/")[-1:]) for _, x in hits))[:6], r.status, len(xf), len(C.Evol(ev).rows)])
        return o

    def shrink(self, case):
        for k in ("fs", "malloc"):
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
        if case["sig"]:
            c = copy.deepcopy(case)
            c["sig"] = None
            yield c
        yield from shrink.scenario(case)


CHECK = P()
