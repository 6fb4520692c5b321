"""C18: a run creates and changes its own output files, and nothing else."""
import copy, os, random
import common as C, scen, shrink
from harness import Check, Out

DIRS = ["out", ".", "res", "out/", "./out", "a/b", "", "deep er", "@/abs", "é"]
BASES = [None, None, "run", "a.b", "x_1", "m.evol", "with space", "%d", "é", "-v", "run_iter0"]
ENDS = ["normal", "normal", "signal", "signal", "kill", "disk", "disk", "solver", "refused", "info"]


class P(Check):
    id = "C18"
    quick_n, thorough_n = 5000, 60000
    rule = ("a case counts as non-trivial when the run wrote something or met a fault; distinct by (how it ended, directory, base name, faults and the files they hit, "
            "kinds of files written)")
    assumptions = ["what is outside the directory the run is started in is watched through the calls the program makes, and out of its reach",
                   "what gmsh reads and writes in the home directory is left out"]

    def case(self, seed, i, tier):
        r = random.Random("C18/%d/%d" % (seed, i))
        sc = scen.generate("C18/%d/%d" % (seed, i), size="tiny", spin=r.random() < 0.25, nout=r.randint(1, 4), tol=1e-8, names=False)
        out = sc["cfg"]["outputs"]
        d, b = r.choice(DIRS), r.choice(BASES)
        if d == "" and r.random() < 0.5:
            out.pop("directory")
        else:
            out["directory"] = d
        if b is not None:
            out["file_basename"] = b
        if r.random() < 0.3:
            out["mag_config_every"] = r.choice([False, 0, -1, 100])
        if "spin_accumulation" in sc["cfg"]:
            sc["cfg"]["spin_accumulation"]["V_file"] = r.random() < 0.6
        return {"sc": sc, "end": r.choice(ENDS), "x": r.randrange(1 << 30), "strangers": r.random() < 0.8, "exists": r.random() < 0.5, "restart": r.random() < 0.3,
                "mesh": r.choice(["m.msh", "m.msh", "meshes/m.msh", "m.v2.msh"])}

    def run(self, R, case):
        o = Out()
        r0 = random.Random(case["x"])
        sc = copy.deepcopy(case["sc"])
        out, cfg = sc["cfg"]["outputs"], sc["cfg"]
        cfg["mesh"]["filename"] = case["mesh"]
        d = out.get("directory")
        top = os.path.join(R.dir, "run")
        if d is not None and d.startswith("@"):
            out["directory"] = top + d[1:]
        rel = os.path.normpath((d or ".").replace("@/", ""))
        base = out.get("file_basename")
        if base is None:
            base = os.path.basename(case["mesh"]).rsplit(".", 1)[0]
        pre = "" if rel == "." else rel + "/"
        # the files this run may write
        n = 1 + round(out["final_time"] / out["evol_time_step"])
        every = max(0, int(out["mag_config_every"]))
        own = {pre + base + ".evol"} | {pre + base + "_iter%d.sol" % k for k in range(n + 1) if every and k % every == 0}
        if case["end"] == "signal":
            own.add(pre + base + "_at_exit.sol")
        if cfg.get("spin_accumulation", {}).get("V_file"):
            own.add(base + "_V.sol")
        files = scen.files_of(sc)
        files[case["mesh"]] = files.pop("m.msh")
        if "/" in rel and not case["exists"]:
            files[os.path.dirname(rel) + "/keep"] = ""
        if case["exists"]:
            files[pre + "keep"] = "kept\n"
        if case["strangers"]:
            for k in (pre + base + "2.evol", pre + base, pre + base + ".evol~", pre + base + "_iter1000.sol", pre + base + "_iter01.sol", pre + "other_iter0.sol", pre + base + ".sol",
                      pre + base + "_iter0.sol.bak", "default.yml", "m_iter0.msh", "feellgood.log", "core", pre + base + ".tmp", pre + base + "_iter.sol", "xxx/" + base + ".evol",
                      pre + base + "_at_exit.sol", base + "_V.sol", pre + base + "_iter-1.sol", base + "_at_exit.sol", base + ".evol", base + "_iter0.sol") + tuple(
                      pre + base + "_iter%d.sol" % k for k in range(n + 5)):
                if (k not in own or r0.random() < 0.3) and k not in files and (case["exists"] or not k.startswith(pre) or not pre) and r0.random() < 0.6:
                    files[k] = "stranger %s\n" % k
        if case["restart"]:
            nn = scen.mesh_of(sc)
            nn = len(nn.nodes)
            files["start.sol"] = "## time: 0\n## columns: idx mx my mz phi\n" + "".join("%d 0.6 0 0.8 0\n" % k for k in range(nn))
            cfg["initial_magnetization"] = "start.sol"
            files["s.yml"] = scen.files_of(sc)["s.yml"]
        plan = scen.plan_of(sc, maxattempts=20000, cpu=60)
        e = case["end"]
        if e in ("signal", "kill", "disk"):
            ref = R.run(files, plan)
            if e == "signal":
                plan["sig"] = [[r0.choice([2, 15]), "hook", 1 + r0.randrange(max(1, ref.end.get("hooks", 1)))]]
            elif e == "kill":
                plan["fs"] = [["any", 1 + r0.randrange(max(1, ref.end.get("fsop", 1))), "crash", r0.choice([0, 500, 1000]), 0]]
            else:
                op = r0.choice(["open", "write", "write", "close", "mkdir", "stat", "read", "openr"])
                plan["fs"] = [[op, 1 + r0.randrange(max(1, ref.ops.get(op, 1))), "short" if op == "write" and r0.random() < 0.3 else r0.choice(["eio", "enospc", "eacces", "emfile", "edquot"]),
                               r0.randint(0, 50), int(r0.random() < 0.5 and op != "read"), ""]]
        elif e == "solver":
            k = r0.randint(1, 10)
            plan["solverfail"] = [["llg_solver", k, 100000]]
        elif e == "refused":
            x = r0.choice(["cols", "mesh", "field", "dir", "js"])
            if x == "cols":
                out["evol_columns"] = ["t", "nonsense"]
            elif x == "mesh":
                files[case["mesh"]] = files[case["mesh"]][:r0.randrange(len(files[case["mesh"]]))]
            elif x == "field":
                cfg["Bext"] = [1, 2]
            elif x == "js":
                cfg["Bext"] = "function(t) { if (t > 1e-13) throw 'x'; return [0, 0, 0]; }"
            elif not case["exists"] and rel != ".":
                files.pop(rel + "/keep", None)
                if not any(k.startswith(rel + "/") for k in files):
                    files[rel] = "not a directory\n"
                own = set()
            files["s.yml"] = scen.files_of(sc)["s.yml"]
        elif e == "info":
            plan["args"].insert(1, r0.choice(["--verify", "--help", "--print-defaults", "--version"]))
            own = set()
        before = {"", "."} | {os.path.dirname(k) for k in files}
        r = R.run(files, plan)
        if e == "refused" and x in ("mesh", "field") and not r.ok():
            own = set()
        hits = [x for _, x in r.fired]
        what = "%s%s" % (e, " (%s)" % hits[0] if hits else "")
        if r.lost:
            o.bad("removed", "%s: %s was removed" % (what, r.lost[0]))
        for k in sorted(r.files):
            if k not in own:
                o.bad("changed", "%s: %s was %s" % (what, k, "changed" if k in files else "created"))
        for _, kind, t in r.events:
            if kind == "LINE" and t.startswith("OUTSIDE"):
                o.bad("outside", "%s: %s" % (what, t))
                break
        allowed = set(before)
        for k in list(before) + ([rel] if own or e == "refused" else []):
            while k:
                allowed.add(k)
                k = os.path.dirname(k)
        new = sorted(x for x in r.dirs if x not in allowed and not x.startswith("simhome"))
        if new:
            o.bad("directory", "%s: the directory %s was created" % (what, new[0]))
        if e == "normal" and not case["restart"]:
            if not r.ok():
                if r.status == ("exit", 1) and r.sites.get("llg_solver", 0) > len(r.accepted):
                    pass        # the motion was too fast for min(dt)
                elif not ("/" in rel and not case["exists"] and not os.path.dirname(rel)):
                    o.bad("status", "%s: %s: %s" % (what, C.status_text(r.status), r.stderr[-200:]))
            elif pre + base + ".evol" not in r.files:
                o.bad("missing", "%s: %s was not written" % (what, pre + base + ".evol"))
        if r.files or hits:
            o.key([e, d, out.get("file_basename"), sorted({" ".join(x.split()[:3]) for x in hits}), sorted({k[len(pre + base):][:5] for k in r.files}), list(r.status)])
        return o

    def shrink(self, case):
        for k, v in (("strangers", False), ("restart", False), ("end", "normal"), ("mesh", "m.msh")):
            if case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        yield from shrink.scenario(case)


CHECK = P()
