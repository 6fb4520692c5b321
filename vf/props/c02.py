"""C02: concurrent assembly and products of sparse matrices are exact under every schedule."""
import copy, random
import numpy as np
from harness import Check, Out


def gen_matrix(r, n, ne, big):
    """Element contributions as a finite-element assembly makes them, with integer values."""
    elems = []
    hub = r.randrange(n)
    for _ in range(ne):
        k = r.randint(1, min(4, n))
        nodes = r.sample(range(n), k)
        if r.random() < 0.5 and hub not in nodes:
            nodes[0] = hub          # a node most elements share: contention on its row
        e = []
        for i in nodes:
            for j in nodes:
                e.append([i, j, r.randint(-big, big)])
        elems.append(e)
    return elems


class P(Check):
    id = "C02"
    variants = {"race": ("race", "algdrv")}
    quick_n, thorough_n = 12000, 120000
    rule = ("a case counts as non-trivial when the scheduler switched threads at least 5 times inside the concurrent operations; distinct by "
            "(number of threads, scheduler, elements, switches, accesses)")
    assumptions = ["memory accesses are sequentially consistent and indivisible up to 16 bytes; preemption may happen before any of them"]

    def case(self, seed, i, tier):
        r = random.Random("C02/%d/%d" % (seed, i))
        n = r.choice([1, 2, 3, 5, 8, 12, 20, 20, 45, 70])
        rounds = []
        for _ in range(r.randint(1, 4)):
            elems = gen_matrix(r, n, r.choice([2, 4, 8, 16, 30] + ([60] if n > 20 else [])), r.choice([1, 1000]))
            if rounds and r.random() < 0.3:      # the same mesh again: what the time integration does
                elems = [[[i, j, r.randint(-9, 9)] for i, j, _ in e] for e in rounds[0]["elems"]]
            at = [[i, i] for i in range(n)] + [[i, j] for e in elems for i, j, _ in e]
            rounds.append({"elems": elems, "clear": r.random() < 0.7,
                           "set": [r.choice(at) + [r.randint(-9, 9)] for _ in range(r.choice([0, 0, 1, 3]))],
                           "x": [r.randint(-1000, 1000) for _ in range(n)]})
        mode = r.choice(["rand", "race", "race", "race", "chunk"])
        sched = [mode, 1.0, r.choice([0.02, 0.1, 0.3])] if mode != "chunk" else ["chunk", 1.0, 0]
        return {"n": n, "rounds": rounds, "threads": r.randint(2, 6), "sched": sched, "seed": r.randrange(1 << 30)}

    def run(self, R, case):
        o = Out()
        n = case["n"]
        shape = {(i, i) for i in range(n)}
        for q in case["rounds"]:
            shape |= {(i, j) for e in q["elems"] for i, j, _ in e}
        L = ["n %d" % n, "shape %d" % len(shape)] + ["%d %d" % x for x in sorted(shape)] + ["make"]
        want = []
        A = np.zeros((n, n))
        for q in case["rounds"]:
            if q["clear"]:
                L.append("clear")
                A[:] = 0
            L.append("elems %d" % len(q["elems"]))
            for e in q["elems"]:
                L.append("%d " % len(e) + " ".join("%d %d %d" % tuple(x) for x in e))
                for i, j, v in e:
                    A[i, j] += v
            L.append("assemble")
            for i, j, v in q["set"]:
                L.append("set %d %d %d" % (i, j, v))
                A[i, j] = v
            x = np.array(q["x"], dtype=float)
            L += ["dump", "x %d " % n + " ".join(str(v) for v in q["x"]), "mult"]
            want.append(A.copy().ravel())
            want.append(A @ x)
        r = R.run({"job": "\n".join(L) + "\n"},
                  {"args": ["algdrv", "job"], "threads": case["threads"], "sched": case["sched"], "seed": case["seed"], "cpu": 20,
                   **({"pre": case["pre"]} if "pre" in case else {}), "trace": 1}, exe="race")
        o.trace = r.trace
        if not r.ok():
            o.bad("crash", "%s under schedule %s: %s %s" % (r.status, case["sched"], r.died, r.stderr[-200:]))
            return o
        lines = r.files.get("out.txt", b"").decode().split("\n")[:-1]
        if len(lines) != len(want):
            o.bad("crash", "%d results instead of %d" % (len(lines), len(want)))
            return o
        for k, (l, w) in enumerate(zip(lines, want)):
            v = np.array([float.fromhex(x) for x in l.split()[1:]])
            if not (v == w).all():
                j = int(np.argmax(v != w))
                op = "coefficient (%d, %d) of the matrix assembled" % divmod(j, n) if k % 2 == 0 else "component %d of the product computed" % j
                o.bad("value", "the %s by %d threads is %r instead of %r" % (op, case["threads"], float(v[j]), float(w[j])))
                break
        if r.end.get("switches", 0) >= 5:
            o.key([case["threads"], case["sched"][0], len(case["rounds"]), r.end["switches"], r.end["access"]])
        return o

    def shrink(self, case):
        if "pre" not in case:
            return
        p = case["pre"]
        k = max(1, len(p) // 2)
        while k >= 1:
            for a in range(0, len(p), k):
                c = copy.deepcopy(case)
                c["pre"] = p[:a] + p[a + k:]
                if len(c["pre"]) < len(p):
                    yield c
            if k == 1:
                break
            k //= 2

    def concrete(self, R, case):
        """The same execution with its schedule written out."""
        o = self.run(R, case)
        c = copy.deepcopy(case)
        c["sched"] = ["replay", 0, 0]
        c["pre"] = [list(x) for x in o.trace]
        return c


CHECK = P()
