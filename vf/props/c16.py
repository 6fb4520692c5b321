"""C16: no input and no fault makes the program touch memory that is not its own."""
import copy, json, random, re
import common as C, scen, shrink
from harness import Check, Out
from props.c17 import block
from props.c21 import damage, VOL, SURF

REPORT = re.compile(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|Assertion [`'][^\n]* failed\.?)")
FRAME = re.compile(r"^\s*#(\d+) 0x[0-9a-f]+ (.*)$", re.M)
# ways of the allocator to say no, which the program meets as std::bad_alloc
REFUSAL = ("allocation-size-too-big", "out-of-memory", "requested allocation size")

NUM = [0, -1, 1, 1e300, -1e300, 1e-300, float("nan"), float("inf"), 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63, 1e-12, 3]
ANY = [None, "", [], {}, [1], [1, 2, 3, 4], "x", True, False, [None, None, None], {"a": 1}, ["a", "b", "c"], "function(t) { return [1, 0]; }",
       "function(x,y,z) { return [0, 0, 0]; }", [[1, 2], [3], []], "x:<Mx>", ":", "nowhere/", "a" * 300, "%s%n"]


def mutate_cfg(cfg, r):
    if r.random() < 0.12:
        m = cfg.get("outputs")
        m = m.setdefault("metadata", {}) if isinstance(m, dict) else None
        if isinstance(m, dict):
            m[r.choice(["Author", "note", "", "a: b"])] = r.choice(["", "", "\n", "\n\n", "x\n", "\nx", None, 1])
            return ["outputs", "metadata"]
    p, d = (), cfg
    while isinstance(d, (dict, list)) and d and (not p or r.random() < 0.7):
        p += (r.choice(list(d)) if isinstance(d, dict) else r.randrange(len(d)),)
        d = d[p[-1]]
    d = cfg
    for k in p[:-1]:
        d = d[k]
    k = p[-1]
    x = r.random()
    if x < 0.25:
        del d[k]
    elif x < 0.55 and isinstance(d[k], (int, float)):
        d[k] = r.choice(NUM) if r.random() < 0.7 else d[k] * r.choice([-1, 0.5, 2, 10, 1000])
    elif x < 0.7 and isinstance(d[k], list):
        v = d[k]
        if not v or r.random() < 0.5:
            d[k] = []
        elif r.random() < 0.5:
            v.append(copy.deepcopy(r.choice(v)))
        else:
            v.pop(r.randrange(len(v)))
    else:
        d[k] = copy.deepcopy(r.choice(ANY) if r.random() < 0.6 else r.choice(NUM))
    return list(map(str, p))


def mutate_text(t, r, lo=0):
    """numbers and lines of a mesh or of a configuration"""
    lines = t.split("\n")
    for _ in range(r.choice([1, 1, 2, 4])):
        if len(lines) < 3:
            break
        i = r.randrange(min(lo, len(lines) - 1), len(lines))
        x = r.random()
        if x < 0.15:
            del lines[i]
        elif x < 0.3:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif x < 0.4:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif x < 0.45:
            lines[i:] = []
        else:
            w = lines[i].split()
            if not w:
                continue
            j = r.randrange(len(w))
            w[j] = r.choice(["0", "-1", "1", "2", "99", "4", "1e99", "nan", "x", "", str(r.randint(0, 60)), '"mag"', "inf"])
            lines[i] = " ".join(w)
    return "\n".join(lines)


class P(Check):
    id = "C16"
    variants = {"checked": ("checked", None)}
    quick_n, thorough_n = 2400, 60000
    rule = ("a case counts as non-trivial when a fault was injected or an input was altered; distinct by (what was altered, faults and where they hit, how it ended, "
            "steps computed)")
    assumptions = ["the program is built with AddressSanitizer, UndefinedBehaviorSanitizer, the assertions of libstdc++ and those of Eigen; gmsh, yaml-cpp and duktape are not: "
                   "what goes wrong inside of them is left out", "one thread: data races are the subject of C01 and C02",
                   "memory never initialised is the subject of C12"]

    def case(self, seed, i, tier):
        r = random.Random("C16/%d/%d" % (seed, i))
        sc = scen.generate("C16/%d/%d" % (seed, i), size=r.choice(["tiny", "tiny", "small"]), spin=r.random() < 0.25, nout=r.randint(1, 3), tol=1e-8)
        if r.random() < 0.3:
            scen.provoke(sc, r)
        if r.random() < 0.3:
            sc["cfg"]["recentering"] = {"enable": True, "direction": "XYZ"[r.randrange(3)], "threshold": r.choice([0.01, 0.1, 0.5, 0.9])}
        kind = r.choice(["faults", "faults", "settings", "settings", "settings", "mesh", "mesh", "sol", "sol", "args"])
        c = {"sc": sc, "kind": kind, "x": r.randrange(1 << 30), "n": r.choice([1, 1, 2, 3]), "fs": [], "fail": [], "mallocfail": [], "sig": []}
        if kind == "faults" or r.random() < 0.25:
            for _ in range(r.randint(1, 4)):
                y = r.random()
                if y < 0.35:
                    c["fail"].append([r.choice(["llg_solver", "llg_solver", "spin_solver"]), r.randint(1, 20)])
                elif y < 0.6:
                    c["mallocfail"].append(r.random())
                elif y < 0.8:
                    c["sig"].append([r.choice([2, 15]), "hook", r.randint(1, 60)])
                else:
                    op = r.choice(["read", "write", "openr", "open", "close", "mkdir", "stat"])
                    c["fs"].append([op, r.randint(1, 12), "short" if op in ("read", "write") and r.random() < 0.5 else r.choice(["eio", "enospc", "emfile"]), r.randint(1, 50), 0, ""])
        return c

    def run(self, R, case):
        o = Out()
        sc, kind = case["sc"], case["kind"]
        r0 = random.Random(case["x"])
        files = scen.files_of(sc)
        plan = scen.plan_of(sc, maxattempts=300, cpu=8, fs=case["fs"], solverfail=[[s, a, a] for s, a in case["fail"]], sig=case["sig"])
        cfg = copy.deepcopy(sc["cfg"])
        what = []
        if kind == "settings":
            for _ in range(case["n"]):
                what.append("/".join(mutate_cfg(cfg, r0)))
                if not cfg:
                    break
            files["s.yml"] = json.dumps(cfg).replace("NaN", ".nan").replace("Infinity", ".inf")
            if r0.random() < 0.2:
                plan["args"].insert(1, r0.choice(["--verify", "-v"]))
        elif kind == "mesh":
            t = files["m.msh"]
            lo = t[:t.find("$Nodes")].count("\n") if r0.random() < 0.7 else 0
            what = ["mesh"]
            if r0.random() < 0.4:
                what = [r0.choice(VOL + SURF)]
                t = damage(scen.mesh_of(sc), what[0], r0, set(cfg["mesh"].get("surface_regions") or {})) or t
            if what == ["mesh"] or r0.random() < 0.1:
                t = mutate_text(t, r0, lo)
            files["m.msh"] = t
        elif kind == "sol":
            a = R.run(files, scen.plan_of(sc, maxattempts=300, cpu=8), exe="checked")
            sols = sorted(k for k in a.files if k.endswith(".sol"))
            if sols:
                k = r0.choice(sols)
                b = copy.deepcopy(sc)
                b["cfg"]["initial_magnetization"] = k
                files = scen.files_of(b)
                t = a.files[k].decode("utf-8", "replace")
                files[k] = mutate_text(t, r0, t.count("\n#") if r0.random() < 0.7 else 0)
                what = ["sol"]
            self.judge(o, a, "a plain run")
        elif kind == "args":
            plan["args"] = ["feellgood"] + [r0.choice(["-v", "--seed", "0", "-1", "99999999999999999999", "--verify", "-", "s.yml", "--help", "--print-defaults", "--nope", "", "-vvv",
                                                       "nowhere.yml", "--print-template", "-h", "--", ".", "--version"]) for _ in range(r0.randint(0, 4))]
            if "-" in plan["args"]:
                plan["stdin"] = "s.yml"
            what = ["args"]
        if case["mallocfail"]:
            n = R.run(files, plan, exe="checked").end.get("malloc", 0)
            plan["mallocfail"] = sorted({1 + int(f * max(1, n)) for f in case["mallocfail"]})
        r = R.run(files, plan, exe="checked")
        hits = sorted({" ".join(x.split()[:3]) if x.startswith("fs") else x.split()[0] for _, x in r.fired})
        self.judge(o, r, ", ".join(what + hits) or "a plain run")
        if what or hits:
            o.key([kind, what, hits, list(r.status), min(len(r.states), 5)])
        return o

    @staticmethod
    def judge(o, r, what):
        if r.status == ("exit", 0):
            return
        err = r.stderr
        m = REPORT.search(err)
        if m and not any(x in m.group(1) for x in REFUSAL):
            fr = FRAME.findall(err)
            if fr and any(x in fr[0][1] for x in ("libgmsh", "libyaml", "libduktape", "libann")):
                return
            at = next((f[1].split("(")[0][3:] for f in fr if "/src/" in f[1] and "eigen3" not in f[1]), "?")
            o.bad("memory", "%s: %s in %s" % (what, re.sub(r"0x[0-9a-f]+", "0x...", m.group(1))[:200], at))
        elif r.status[0] == "signal" and r.status[1] in (4, 7, 8, 11):
            o.bad("memory", "%s: signal %d" % (what, r.status[1]))
        elif r.status == ("exit", 86) and not m:
            o.bad("memory", "%s: %s" % (what, err[-300:]))

    def shrink(self, case):
        for k in ("fs", "fail", "mallocfail", "sig"):
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                yield c
        if case["n"] > 1:
            c = copy.deepcopy(case)
            c["n"] = 1
            yield c
        yield from shrink.scenario(case)


CHECK = P()
