"""C03: the linear solvers report convergence only for solutions, and always stop."""
import copy, math, random
import numpy as np
from harness import Check, Out

ALGOS = ["bicg", "bicg", "cg", "bicg_dir", "cg_dir", "bicg_mask", "bicg_mask"]


def fem(r, n, m=None):
    """A finite-element-like stiffness matrix on a random graph: (n, n) symmetric positive semidefinite."""
    A = np.zeros((n, n))
    edges = [(i, r.randrange(i)) for i in range(1, n)] + [(r.randrange(n), r.randrange(n)) for _ in range(n)]
    for i, j in edges:
        if i == j:
            continue
        w = r.uniform(0.2, 2.0)
        A[i, i] += w
        A[j, j] += w
        A[i, j] -= w
        A[j, i] -= w
    return A


class P(Check):
    id = "C03"
    variants = {"plain": ("plain", "algdrv")}
    quick_n, thorough_n = 40000, 400000
    rule = ("a case is one linear system handed to one solver, in a simulated execution with several threads; it counts as non-trivial when at least two "
            "iterations were done or the solver gave up; distinct by (solver, kind of system, size, status, iterations)")
    assumptions = ["systems have up to 60 unknowns; on well-conditioned systems the residual claimed and the true one may differ by rounding only "
                   "(1e-11 of the data), on the others by 1e-5; on systems without solution the true residual is judged as long as the iterations are fewer than the rank"]

    def case(self, seed, i, tier):
        r = random.Random("C03/%d/%d" % (seed, i))
        n = r.choice([1, 2, 3, 5, 8, 13, 20, 30, 60])
        algo = r.choice(ALGOS)
        kind = r.choice(["nice", "nice", "nice", "nice", "scaled", "ill", "singular", "inconsistent", "nan", "indefinite", "zero-diag"])
        return {"n": n, "algo": algo, "kind": kind, "seed": r.randrange(1 << 30), "tol": r.choice([1e-3, 1e-6, 1e-6, 1e-8, 1e-10, 1e-12]),
                "maxiter": r.choice([1, 2, 3, 5, 700, 700, 700, 1000]), "guess": r.choice(["zero", "zero", "random", "exact", "near", "big"]),
                "rhs": r.choice(["random", "random", "random", "zero", "tiny", "huge", "one"]), "nd": r.choice([0, 1, 2, 5, n // 2, n]),
                "threads": r.choice([1, 2, 3, 5]), "noise": int(r.random() < 0.15),
                "before": [self.one(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]}

    def one(self, r):
        n = r.choice([1, 2, 3, 5, 8, 13, 20])
        return {"n": n, "algo": r.choice(ALGOS), "kind": r.choice(["nice", "nice", "ill", "singular", "inconsistent", "nan", "indefinite"]),
                "seed": r.randrange(1 << 30), "guess": r.choice(["zero", "random", "near"]), "rhs": r.choice(["random", "random", "zero", "huge"]),
                "nd": r.choice([0, 1, 2])}

    def system(self, c):
        r = random.Random(c["seed"])
        n = c["n"]
        A = fem(r, n)
        sym = c["algo"] in ("cg", "cg_dir")
        A += np.diag([r.uniform(0.3, 1.0) for _ in range(n)])
        if not sym:
            G = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    if A[i, j] != 0 and i < j:
                        g = r.uniform(-0.5, 0.5)
                        G[i, j], G[j, i] = g, -g
            A += G
        k = c["kind"]
        if k == "scaled":
            A *= 10 ** r.uniform(-18, 18)
        elif k == "ill":
            d = np.array([10 ** r.uniform(-4, 4) for _ in range(n)])
            A = A * np.sqrt(np.outer(d, d))
        elif k == "singular":
            A = fem(r, n)
            for i in range(n):
                if A[i, i] == 0:
                    A[i, i] = 1.0
        elif k == "indefinite":
            for i in r.sample(range(n), max(1, n // 3)):
                A[i, i] = -A[i, i]
        b = np.array([r.uniform(-1, 1) for _ in range(n)])
        if k == "singular":
            b = A @ b
        elif k == "inconsistent":
            A = fem(r, n)
            for i in range(n):
                if A[i, i] == 0:
                    A[i, i] = 1.0
            if n > 1:
                A[r.randrange(n)] = A[r.randrange(n)]
                for i in range(n):
                    if A[i, i] == 0:
                        A[i, i] = 1e-3
        elif k == "zero-diag":
            i = r.randrange(n)
            A[i, i] = 0.0
        elif k == "nan":
            if r.random() < 0.5:
                i = r.randrange(n)
                A[i, i] = r.choice([math.nan, math.inf])
            else:
                b[r.randrange(n)] = r.choice([math.nan, math.inf])
        rk = c["rhs"]
        if rk == "zero":
            b = b * 0 if np.isfinite(b).all() else np.zeros(n)
        elif rk == "tiny":
            b = b * 1e-150
        elif rk == "huge":
            b = b * 1e120
        elif rk == "one":
            b = np.zeros(n)
            b[r.randrange(n)] = 1.0
        dirich = c["algo"].endswith(("_dir", "_mask"))
        nd = min(c["nd"], n) if dirich else 0
        ld = sorted(r.sample(range(n), nd))
        r.shuffle(ld)
        xd = np.zeros(n)
        if c["algo"] != "bicg_mask":
            for i in ld:
                xd[i] = r.uniform(-2, 2) * (1e-150 if rk == "tiny" else 1e120 if rk == "huge" else 1)
        free = np.ones(n, bool)
        free[ld] = False
        x0 = np.zeros(n)
        g = c["guess"]
        if g in ("exact", "near") and free.any():
            try:
                x0[free] = np.linalg.solve(A[np.ix_(free, free)], (b - A @ xd)[free])
            except np.linalg.LinAlgError:
                pass
            x0[~np.isfinite(x0)] = 0
            if g == "near":
                x0 *= 1 + 1e-4
        elif g in ("random", "big"):
            s = 1.0 if g == "random" else 1e6
            x0[free] = [r.uniform(-s, s) for _ in range(int(free.sum()))]
        return A, b, x0, xd, ld, free

    def run(self, R, case):
        o = Out()
        with np.errstate(all="ignore"):
            return self._run(R, case, o)

    def _run(self, R, case, o):
        v = lambda x: "%d %s" % (len(x), " ".join(float(y).hex() for y in x))
        L, jobs = [], []
        for c in case.get("before", []) + [case]:
            c = dict(c, tol=case["tol"], maxiter=case["maxiter"])
            n = c["n"]
            A, b, x0, xd, ld, free = self.system(c)
            nz = [(i, j) for i in range(n) for j in range(n) if A[i, j] != 0 or i == j]
            L += ["n %d" % n, "shape %d" % len(nz)] + ["%d %d" % x for x in nz] + ["make", "elems 1", "%d" % len(nz)]
            L += ["%d %d %s" % (i, j, float(A[i, j]).hex()) for i, j in nz]
            L += ["assemble", "x " + v(x0), "b " + v(b), "xd " + v(xd), "ld " + v(ld),
                  "solve %s %s %d %d" % (c["algo"], float(c["tol"]).hex(), c["maxiter"], case.get("noise", 0))]
            jobs.append((c, A, b, x0, xd, ld, free))
        r = R.run({"job": "\n".join(L) + "\n"}, {"args": ["algdrv", "job"], "threads": case["threads"], "sched": ["chunk", 1.0, 0],
                                                 "seed": case["seed"], "cpu": 30, "maxregions": len(jobs) * (30 * case["maxiter"] + 1000)})
        if r.died or not r.ok():
            o.bad("stuck", "%s on a %s system of %d unknowns (at most %d iterations): %s %s"
                  % (case["algo"], case["kind"], case["n"], case["maxiter"], r.died, r.status))
            return o
        lines = r.files["out.txt"].decode().split("\n")
        for k, j in enumerate(jobs):
            self.judge(o, lines[2 * k].split(), lines[2 * k + 1].split()[1:], *j, after=k)
        return o

    def judge(self, o, p, sol, case, A, b, x0, xd, ld, free, after):
        n = case["n"]
        what = "%s on a %s system of %d unknowns (tolerance %g, at most %d iterations%s)" % (case["algo"], case["kind"], n, case["tol"], case["maxiter"],
                                                                                       ", solve number %d" % (after + 1) if after else "")
        st, it, res, rhsn = int(p[1]), int(p[2]), float.fromhex(p[3]), float.fromhex(p[4])
        x = np.array([float.fromhex(y) for y in sol])
        if st not in (0, 1, 2):
            o.bad("status", "%s: ended with status %d" % (what, st))
        if it > case["maxiter"]:
            o.bad("iterations", "%s: did %d iterations" % (what, it))
        if ld and (st == 0 or np.isfinite(x).all()) and not (x[ld] == xd[ld]).all():
            o.bad("dirichlet", "%s: a prescribed value was changed" % what)
        nice = case["kind"] in ("nice", "scaled")
        f = free
        bb = (b - A @ xd)[f]
        if st == 0:
            if not np.isfinite(x).all():
                o.bad("not-finite", "%s: reports convergence with an undefined solution" % what)
            else:
                sc = 10 ** -np.floor(np.log10(max(np.abs(bb).max(initial=0), 1e-300)))    # no overflow in the norms
                rr = np.linalg.norm((bb - A[np.ix_(f, f)] @ x[f]) * sc)
                nb = np.linalg.norm(bb * sc)
                xs = max(np.linalg.norm(x[f] * sc), np.linalg.norm(x0[f] * sc))
                amp = np.linalg.norm(A[np.ix_(f, f)]) * xs + nb
                slack = (1e-11 if nice else 1e-5) * amp
                o.info = (rr - case["tol"] * nb) / amp if amp and nice else None
                # on a system without solution the iterates grow without bound once the rank is exhausted, and rounding with them
                lost = case["kind"] == "inconsistent" and it >= np.linalg.matrix_rank(A[np.ix_(f, f)])
                if rr > case["tol"] * nb * (1 + 1e-6) + slack and not lost:
                    o.bad("residual", "%s: reports convergence, the true residual is %.3g times the right-hand side" % (what, rr / nb if nb else float("inf")))
            if not res <= rhsn * case["tol"]:
                o.bad("claimed", "%s: reports convergence with a residual %r, right-hand side %r" % (what, res, rhsn))
        else:
            easy = nice and case["rhs"] in ("random", "one") and case["maxiter"] >= 700 and case["guess"] in ("zero", "random", "exact", "near") and case["tol"] >= 1e-10
            if easy:
                o.bad("gave-up", "%s: status %d after %d iterations on a well-conditioned system" % (what, st, it))
            if st == 1 and it < case["maxiter"]:
                o.bad("overflow", "%s: reports an iteration overflow after %d iterations" % (what, it))
        if it >= 2 or st:
            o.key([case["algo"], case["kind"], n, st, it])

    def extra(self, infos):
        return {"largest_excess_of_the_true_residual": max(infos) if infos else None}

    def shrink(self, case):
        for k in range(len(case.get("before", []))):
            c = copy.deepcopy(case)
            del c["before"][k]
            yield c
        for k, v in (("noise", 0), ("threads", 1), ("guess", "zero"), ("rhs", "random"), ("nd", 0), ("nd", 1), ("tol", 1e-6), ("maxiter", 700), ("kind", "nice")):
            if case.get(k) != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        for n in (1, 2, 3, 5, 8, 13):
            if n < case["n"]:
                c = copy.deepcopy(case)
                c["n"] = n
                yield c


CHECK = P()
