"""C12: the settings, the mesh and the seed decide the results; nothing in the environment does."""
import copy, random, re
import common as C, scen, shrink
from harness import Check, Out
from props.c01 import P as C01, sensitive

HOST = re.compile(rb"^## hostname: .*\n", re.M)


def stable(files):
    return {k: HOST.sub(b"", v) for k, v in C.masked(files).items() if k.endswith((".evol", ".sol"))}


class P(Check):
    id = "C12"
    variants = {"plain": ("plain", None), "gauss1": ("gauss1", None)}
    quick_n, thorough_n = 1800, 40000
    rule = ("a case counts as non-trivial when the second execution met a disturbance; distinct by (disturbances, regions, field, spin, recentering, steps, status)")
    assumptions = ["heap blocks handed out by malloc and the stack below main are filled with a chosen byte before the program sees them; their addresses are not varied",
                   "the default time limit of one thread of the program: schedules are the subject of C01"]

    def case(self, seed, i, tier):
        r = random.Random("C12/%d/%d" % (seed, i))
        sc = scen.generate("C12/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small", "medium"]), spin=r.random() < 0.2,
                           nout=r.randint(1, 5), tol=1e-10, verbose=False)
        if r.random() < 0.3:
            scen.provoke(sc, r)
        if r.random() < 0.3:
            sc["cfg"]["recentering"] = {"enable": True, "direction": "XYZ"[r.randrange(3)], "threshold": r.choice([0.3, 0.8, 0.95])}
        if r.random() < 0.2:
            for v in list(sc["cfg"]["mesh"]["volume_regions"].values()):
                for k in ("alpha_LLG", "Ae", "Ms"):
                    if v.get("Ms") != 0 and r.random() < 0.3:
                        v.pop(k, None)      # left to the defaults
        dis = r.sample(["fill", "fill2", "stack", "clock", "jump", "host", "hostfail", "pid", "verbose", "unseeded", "otherseed", "home", "entropy", "entropy", "litter", "litter"], r.randint(1, 4))
        if "otherseed" in dis:
            dis = ["otherseed"]
            sc["cfg"]["outputs"]["final_time"] = min(sc["cfg"]["outputs"]["final_time"], 3 * sc["cfg"]["outputs"]["evol_time_step"])
        dis = sorted(set(dis), key=dis.index)
        if r.random() < 0.5 and dis != ["otherseed"]:
            sc["args"][1] = r.choice([0, 0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
        if "hostfail" in dis and "host" in dis:
            dis.remove("host")
        return {"sc": sc, "dis": dis, "x": r.randrange(1 << 30), "fail": [a for a in range(1, 25) if r.random() < 0.15] if r.random() < 0.3 else [],
                "exe": r.choice(["plain", "plain", "plain", "gauss1"]), "fill": r.choice([0x00, 0x01, 0x41, 0x7f, 0xff]), "fill0": r.choice([0, 0, 255, 0x5a])}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        r0 = random.Random(case["x"])
        kw = {"maxattempts": 20000, "cpu": 120, "snap": 1, "solverfail": [["llg_solver", a, a] for a in case["fail"]], "fill": case["fill0"], "stackfill": 0}
        dis = case["dis"]
        pa = scen.plan_of(sc, **kw)
        pb = scen.plan_of(sc, **kw)
        if "unseeded" in dis:
            pa["args"] = [pa["args"][0], "s.yml"]
        a = R.run(files, pa, exe=case["exe"])
        if "unseeded" in dis:
            m = re.search(r"random seed:\s+(\d+)", a.stdout)
            if not m:
                o.bad("seed", "the random seed was not printed")
                return o
            pb["args"] = [pb["args"][0], "--seed", m.group(1), "s.yml"]
        fb = dict(files)
        for d in dis:
            if d == "fill":
                pb["fill"] = case["fill"]
            elif d == "fill2":
                pb["fill"] = r0.randrange(256)
            elif d == "stack":
                pb["stackfill"] = r0.choice([1, 0x40, 0x7f, 0xff])
            elif d == "clock":
                pb["clock"] = [r0.choice([0.0, 1e9, 4e9, 1.7e9]), r0.choice([1e-9, 1e-3, 10.0])]
            elif d == "jump":
                pb["clockjump"] = [[r0.randint(1, 200), r0.choice([-1e6, -3600.0, 3600.0, 1e6])] for _ in range(r0.randint(1, 4))]
            elif d == "host":
                pb["host"] = r0.choice(["elsewhere", "x" * 60])
            elif d == "hostfail":
                pb["hostfail"] = 1
            elif d == "pid":
                pb["pid"] = r0.randint(2, 99999)
            elif d == "verbose":
                pb["args"] = [pb["args"][0], "-v"] + pb["args"][1:]
            elif d == "home":
                pb["env"] = {"HOME": r0.choice(["@CWD@/nowhere", "@CWD@"]), "TZ": r0.choice(["UTC-3", "UTC+5"])}
            elif d == "entropy" and "unseeded" not in dis:
                pb["seed"] = pb["seed"] + 1 + r0.randrange(1 << 20)
            elif d == "litter":
                # files of an earlier, longer run under the same names, and strangers
                for k, v in a.files.items():
                    if k.endswith((".evol", ".sol")) and r0.random() < 0.6:
                        fb[k] = v.decode("latin1") * r0.randint(1, 3) + "9 9 9 9 9\n" * r0.randint(1, 40)
                fb[scen.base(sc) + "_iter%d.sol" % r0.choice([77, 1000])] = "stranger\n"
            elif d == "otherseed":
                pb["args"] = [pb["args"][0], "--seed", str(r0.randrange(1 << 31)), "s.yml"]
        b = R.run(fb, pb, exe=case["exe"])
        what = "with another " + ", ".join(dis)
        if a.died or (dis == ["otherseed"] and C.tipped(a, b)):
            return o
        if b.died:
            o.bad("stuck", "%s: %s %s" % (what, a.died, b.died))
            return o
        if a.status != b.status:
            if dis == ["otherseed"] and sensitive(R, sc, kw, a, case["exe"]):
                return o
            o.bad("status", "%s the program ended with %s instead of %s: %s" % (what, C.status_text(b.status), C.status_text(a.status), b.stderr[-200:]))
            return o
        if dis == ["otherseed"]:
            C01.compare(sc, a, b, o, "with another seed", tol=1e-5, loose=30.0, than="with the first one")
            if o.violations and sensitive(R, sc, kw, a, case["exe"]):
                return Out()
        else:
            if [s.hash for s in a.states] != [s.hash for s in b.states] or [(s.t, s.dt) for s in a.states] != [(s.t, s.dt) for s in b.states]:
                k = next((k for k, (x, y) in enumerate(zip(a.states, b.states)) if (x.t, x.dt, x.hash) != (y.t, y.dt, y.hash)), -1)
                o.bad("state", "%s the results differ from state %d on" % (what, k))
            fa, fc = stable(a.files), stable(b.files)
            for k in sorted(set(fa) | set(fc)):
                if k not in fa and fb.get(k) is not None and fb[k].encode("latin1") == fc[k]:
                    continue        # not of this run, and left as it was
                if fa.get(k) != fc.get(k):
                    o.bad("output", "%s %s is not the same" % (what, k))
                    break
            if "hostfail" in dis:
                for k, v in b.files.items():
                    if HOST.search(v):
                        o.bad("host", "%s states a host name that could not be obtained" % k)
        o.key([sorted(dis), [x[0] for x in sc["mesh"]["regions"]], sc["field"]["kind"], "spin_accumulation" in sc["cfg"], "recentering" in sc["cfg"], len(a.states), a.status])
        return o

    def shrink(self, case):
        for i in range(len(case["dis"])):
            if len(case["dis"]) > 1:
                c = copy.deepcopy(case)
                del c["dis"][i]
                yield c
        if case["fail"]:
            c = copy.deepcopy(case)
            c["fail"] = []
            yield c
        yield from shrink.scenario(case)


CHECK = P()
