"""C17: the settings and the mesh are taken as given, whole or not at all, however they arrive."""
import copy, json, math, random, re
import common as C, scen, shrink
from harness import Check, Out
from props.c01 import P as C01, sensitive

SETT = re.compile(rb"^## settings file: .*\n", re.M)


def block(x, ind=0):
    """block YAML, one entry per line: a file cut between two lines is still well formed"""
    pad, out = " " * ind, ""
    for k, v in x.items():
        if isinstance(v, dict):
            out += pad + json.dumps(k) + (":\n" + block(v, ind + 2) if v else ": {}\n")
        elif isinstance(v, list):
            out += pad + json.dumps(k) + ":\n" + "".join(pad + "- " + json.dumps(y) + "\n" for y in v)
        else:
            out += pad + json.dumps(k) + ": " + json.dumps(v) + "\n"
    return out


def stable(files):
    return {k: SETT.sub(b"", v) for k, v in C.masked(files).items() if k.endswith((".evol", ".sol"))}


DECOY = {"directory": ["elsewhere", "."], "file_basename": ["decoy"], "evol_time_step": [7.7e-13], "final_time": [9e-13], "mag_config_every": [False, 4, 1],
         "evol_columns": [["t"], ["iter", "E_tot"]], "filename": ["nowhere.msh"], "length_unit": [2e-9, 1e-8], "nb_threads": [2], "max(iter)": [3], "tolerance": [0.9],
         "max(du)": [0.001, 0.5], "min(dt)": [1e-13], "max(dt)": [1.1e-14], "enable": [True, False], "direction": ["X", "Y", "Z"], "threshold": [0.01, 0.77],
         "V_file": [True, False], "Ms": [3e5], "Ae": [3e-12], "alpha_LLG": [0.03, 0.9], "K": [1e5], "uk": [[1, 0, 0]], "K3": [2e4], "sigma": [1e6],
         "dens_state": [6e46], "P": [0.9], "l_sd": [2e-9], "l_sf": [1e-8], "suppress_charges": [True, False], "Ks": [1e-4], "jn": [1e4], "V": [1.0],
         "initial_magnetization": ["nowhere.sol", [1, 0, 0], "function(x,y,z) { return [0, 1, 0]; }"], "initial_time": [3e-12],
         "Bext": [[1, 2, 3], "function(t) { return [1, 0, t]; }", {"space": "function(x,y,z) { return [1, 1, 1]; }", "time": "function(t) { return 1; }"}]}


def twist(cfg, r):
    """other ways to say the same"""
    vols = cfg["mesh"]["volume_regions"]
    for v in vols.values():
        if "Ms" in v and r.random() < 0.3:
            v["Js"] = v.pop("Ms") * 4e-7 * math.pi
        for k in ("uk", "ex", "ey", "ez"):
            if k in v and r.random() < 0.3:
                f = r.choice([2.0, 0.5, 8.0])
                v[k] = [f * x for x in v[k]]
    d = {}
    if r.random() < 0.5:
        # what the regions have in common is said once
        for k in ("Ae", "alpha_LLG", "sigma", "dens_state", "l_sf"):
            if all(k in v for v in vols.values()) and r.random() < 0.7:
                d[k] = r.choice(list(vols.values()))[k]
        for v in vols.values():
            for k in d:
                if v[k] == d[k]:
                    del v[k]
    if d:
        cfg["mesh"]["volume_regions"] = dict([("__default__", d)] + list(vols.items()))


# settings that mean nothing
INVALID = [("outputs", 3), ("outputs/mag_config_every", True), ("outputs/evol_columns", "t"), ("outputs/metadata", ["a"]), ("mesh", ["m.msh"]),
           ("mesh/length_unit", 0), ("mesh/length_unit", -1e-9), ("mesh/length_unit", "long"), ("mesh/volume_regions", ["mag"]), ("mesh/volume_regions/*/Js", 1.0),
           ("mesh/volume_regions/*/uk", [1, 0]), ("mesh/volume_regions/*/uk", 1), ("mesh/volume_regions/*/alpha_LLG", "much"), ("mesh/surface_regions", ["s"]),
           ("mesh/surface_regions/s", {"jn": 1, "V": 1}), ("mesh/volume_regions/stranger", {}), ("mesh/surface_regions/stranger", {}),
           ("initial_magnetization", [1, 0]), ("initial_magnetization", {"x": 1}), ("initial_magnetization", ["1+", "0", "0"]),
           ("initial_magnetization", "function(x,y,z) { return [1, 0,"), ("initial_magnetization", "function(x,y,z) { return 3; }"),
           ("initial_magnetization", "nowhere.sol"), ("recentering", {"enable": True, "direction": "W"}), ("recentering", {"enable": True, "direction": "XY"}),
           ("Bext", [1, 2]), ("Bext", {"space": "function(x,y,z) { return [1, 1, 1]; }"}), ("Bext", ["t+", "0", "0"]), ("Bext", "function(t) { return [1, 0,"),
           ("finite_element_solver/max(iter)", "many"), ("time_integration/max(dt)", "long"), ("outputs/final_time", "never"), ("initial_time", "noon")]


def invalidate(cfg, path, v, r):
    d = cfg
    ks = path.split("/")
    for k in ks[:-1]:
        if k == "*":
            k = r.choice([x for x in d if "Ms" in d[x]])
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def split(cfg, r, p, decoys):
    """(user's defaults, settings file) that together mean cfg"""
    low, top = {}, copy.deepcopy(cfg)
    md = top["outputs"].get("metadata")
    if md and r.random() < 0.8:
        # the first entries are in the defaults, where some of them have another value
        n = r.randint(0, len(md))
        ks = list(md)
        over = [k for k in ks[:n] if r.random() < 0.5]
        top["outputs"]["metadata"] = {k: md[k] for k in ks if k in over or k not in ks[:n]}
        if ks[:n]:
            low["outputs"] = {"metadata": {k: "overridden" if k in over else md[k] for k in ks[:n]}}
        if not top["outputs"]["metadata"]:
            del top["outputs"]["metadata"]

    def put(path, v):
        d = low
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = v

    def walk(node, path):
        for k in list(node):
            v, q = node[k], path + [k]
            if k == "metadata" and "metadata" in low.get("outputs", {}):
                continue
            if k == "__default__" and not p:
                continue
            if k == "__default__":
                # a region first met in the defaults file does not inherit from a default region of the settings file
                put(q, v)
                del node[k]
                continue
            if isinstance(v, dict) and k not in ("metadata", "Bext") and path != ["mesh", "surface_regions"]:
                walk(v, q)
                if not v and r.random() < 0.5 and path != ["mesh", "volume_regions"]:
                    del node[k]
            elif r.random() < p:
                put(q, v)
                del node[k]
            elif decoys and r.random() < 0.3:
                if k in DECOY and not (k == "mag_config_every" and not v):
                    put(q, r.choice(DECOY[k]))
                elif path == ["mesh", "surface_regions"]:
                    put(q, {"Ks": 3e-4, "uk": [0, 1, 0], "suppress_charges": not v.get("suppress_charges", False)})
                    v.setdefault("Ks", 0)
                    v.setdefault("suppress_charges", False)
    walk(top, [])
    return low, top


class P(Check):
    id = "C17"
    quick_n, thorough_n = 5000, 50000
    rule = ("a case counts as non-trivial when the input came through standard input, in layers, or a fault hit it; distinct by (kind, faults and the files they hit, "
            "sections moved, how it ended)")
    assumptions = ["read errors are permanent for settings, transient for the mesh: the mesh library loops for ever on a permanent error, which the program cannot help",
                   "a settings file cut on disk is another settings file and is not tried; a cut mesh is",
                   "a defaults file that cannot be opened is taken for absent, as the program does"]

    def case(self, seed, i, tier):
        r = random.Random("C17/%d/%d" % (seed, i))
        sc = scen.generate("C17/%d/%d" % (seed, i), size=r.choice(["tiny", "small"]), spin=r.random() < 0.15, nout=r.randint(1, 3), tol=1e-8, verbose=False)
        if r.random() < 0.3:
            sc["cfg"]["recentering"] = {"enable": r.random() < 0.5, "direction": "XYZ"[r.randrange(3)], "threshold": r.choice([0.9, 0.99])}
        if r.random() < 0.2:
            sc["cfg"]["initial_time"] = scen.rnd(r.uniform(-1e-10, 1e-10), 6)
            sc["cfg"]["outputs"]["final_time"] = scen.rnd(sc["cfg"]["initial_time"] + sc["cfg"]["outputs"]["final_time"], 14)
        kind = r.choice(["arrive", "arrive", "eio", "eio", "eio", "layers", "layers", "layers", "layers", "cut-mesh", "cut-mesh", "info", "absent", "defaults", "invalid"])
        if r.random() < 0.5:
            sc["cfg"]["outputs"]["metadata"] = {k: r.choice(["1", "yes", "two\nlines", "A: b"]) for k in r.sample(["who", "what", "Author", "1", "note"], r.randint(1, 4))}
        c = {"sc": sc, "kind": kind, "x": r.randrange(1 << 30), "pad": r.choice([0, 0, 100, 400, 2000]), "stdin": r.random() < 0.5, "where": r.choice(["xdg", "home"]),
             "layered": r.random() < 0.5, "order": r.randrange(1 << 30)}
        if kind == "arrive":
            c["stdin"] = r.random() < 0.7
        if kind in ("layers", "defaults"):
            c["stdin"] = r.random() < 0.2
        return c

    def inputs(self, sc, case, r, low=None, top=None):
        files = scen.files_of(sc)
        cfg = copy.deepcopy(top if top is not None else sc["cfg"])
        rr = random.Random(case["order"])
        keys = list(cfg)
        rr.shuffle(keys)
        text = []
        for k in keys:
            text.append(block({k: cfg[k]}))
            text.append("# %s\n" % ("x" * rr.randint(0, 60)) * rr.randint(0, 1 + case["pad"] // 100))
        files["s.yml"] = "".join(text)
        if case["pad"]:
            files["s.yml"] = "# y\n" * case["pad"] + files["s.yml"]
        plan = scen.plan_of(sc, maxattempts=3000, snap=1)
        if low is not None:
            if case["where"] == "xdg":
                plan["env"] = {"XDG_CONFIG_HOME": "@CWD@/cfg"}
                files["cfg/feellgood/default.yml"] = block(low)
            else:
                plan["env"] = {"HOME": "@CWD@/me"}
                files["me/.config/feellgood/default.yml"] = block(low)
        if case["stdin"]:
            plan["args"] = plan["args"][:-1] + ["-"]
            plan["stdin"] = "s.yml"
        return files, plan

    def run(self, R, case):
        o = Out()
        sc, kind = case["sc"], case["kind"]
        r0 = random.Random(case["x"])
        plain = dict(case, stdin=False)
        files, plan = self.inputs(sc, plain, r0)
        ref = R.run(files, plan)
        if ref.died and ref.initial is not None:
            return o
        if ref.status not in (("exit", 0), ("exit", 1)) or ref.initial is None:
            o.bad("no-run", "%s: %s" % (C.status_text(ref.status), ref.stderr[-200:]))
            return o
        if kind == "info":
            return self.info(R, case, o, r0)
        low = top = None
        if kind == "layers" or (kind in ("eio", "arrive") and case["layered"]):
            cfg = copy.deepcopy(sc["cfg"])
            if kind == "layers" and r0.random() < 0.5:
                twist(cfg, r0)
            low, top = split(cfg, r0, *r0.choice([(0.1, 1), (0.1, 1), (0.5, 1), (0.5, 0), (0.9, 1), (0, 0)]))
            if not top:
                low, top = None, None
        if kind == "defaults":
            d = R.run({}, {"args": ["feellgood", "--print-defaults"], "cpu": 20})
            low, top = {}, sc["cfg"]
        if kind == "invalid":
            cfg = copy.deepcopy(sc["cfg"])
            bad = r0.choice(INVALID)
            if case["layered"]:
                low, top = {}, cfg
                d = low
                if "/*/" in bad[0]:
                    low = {"mesh": {"volume_regions": {k: {"Ms": 1} for k in cfg["mesh"]["volume_regions"]}}}
                    d = low
                if bad[0] == "mesh/surface_regions":
                    top["mesh"].pop("surface_regions", None)
                elif bad[0] == "initial_magnetization" and bad[1] == "nowhere.sol" or bad[0] == "initial_magnetization" and "3;" in str(bad[1]):
                    d = top         # what counts is the last one
            else:
                d = cfg
                top = cfg
            invalidate(d, bad[0], bad[1], r0)
        files, plan = self.inputs(sc, case, r0, low, top)
        if kind == "defaults":
            if d.status != ("exit", 0):
                o.bad("info", "--print-defaults: %s" % C.status_text(d.status))
                return o
            for k in files:
                if k.endswith("default.yml"):
                    files[k] = d.stdout
        name = "stdin" if case["stdin"] else "s.yml"
        target = name
        if kind == "arrive":
            fs = [["read", 1, "short", r0.choice([1, 2, 3, 7, 64, 100, 1000]), 1, r0.choice([name, "", "m.msh", "default.yml"])]]
            if not case["stdin"] and r0.random() < 0.3:
                fs += [["read", r0.randint(1, 6), "eintr", 0, 0, name]]
            plan["fs"] = fs
        elif kind == "eio":
            probe = R.run(files, plan)
            lst = [x for x in (name, "m.msh") + (("default.yml",) if low is not None else ()) for _ in range(1 if x == "m.msh" else 2)]
            target = r0.choice(lst)
            if target != "m.msh" and r0.random() < 0.5:       # in small pieces, so that the error may come anywhere
                size = len(files["s.yml"])
                k = r0.choice([40, 100, 300, 1000])
                plan["fs"] = [["read", 1, "short", k, 1, target], ["read", 1 + r0.randint(0, size // k + 8), "eio", 0, 1, target]]
                plan["fs"].reverse()
            else:
                plan["fs"] = [["read", 1 + r0.randrange(max(1, probe.ops.get("read", 1))), "eio", 0, int(target != "m.msh"), target]]
        elif kind == "cut-mesh":
            t = files["m.msh"]
            files["m.msh"] = t[:r0.randrange(len(t))] if r0.random() < 0.7 else t[:len(t) - r0.randint(1, 200)]
            full, got = t.split(), files["m.msh"].split()
            if len(got) == len(full) - 1 and got[-1] != full[-2]:
                # in the middle of the last number of the last element: what is left is a mesh like any other, with other digits
                files["m.msh"] = files["m.msh"][:-len(got[-1])]
            target = "m.msh"
        elif kind == "absent":
            target = r0.choice(["s.yml", "m.msh"])
            if target == "s.yml":
                plan["args"] = plan["args"][:-1] + ["s.yml"]
            if r0.random() < 0.5:
                del files[target]
                plan.pop("stdin", None)
            else:
                plan["fs"] = [["openr", 1, r0.choice(["eacces", "emfile", "eio"]), 0, 1, target]]
        r = R.run(files, plan)
        hits = sorted({" ".join(x.split()[:3]) + " " + x.split("/")[-1].split()[-1] for _, x in r.fired})
        what = "%s%s%s" % ({"arrive": "input in small pieces", "eio": "read error in %s" % target, "layers": "settings in two files", "cut-mesh": "mesh cut short",
                            "absent": "%s cannot be opened" % target, "defaults": "built-in defaults given as the user's", "invalid": "%s: %s" % bad if kind == "invalid" else ""}[kind],
                           " (standard input)" if case["stdin"] else "", "".join(", " + x for x in hits[:2]))
        same = r.status == ref.status and stable(r.files) == stable(ref.files) and [s.hash for s in r.states] == [s.hash for s in ref.states]
        for q in (r, ref):
            q.files = {k: v for k, v in q.files.items() if not k.startswith(("me/", "cfg/", "simhome/"))}
        wrote = [k for k in r.files if k.endswith((".evol", ".sol"))]
        if kind == "arrive" and case["stdin"]:
            for k in wrote:
                if b"## settings file: standard input\n" not in r.files[k] and not k.endswith("_V.sol"):
                    o.bad("name", "%s does not name standard input as the source of the settings" % k)
                    break
        if kind in ("eio", "cut-mesh", "absent", "invalid"):
            if not same:
                if r.states or wrote:
                    o.bad("partial", "%s: a simulation was run all the same, %d states, files %s" % (what, len(r.states), wrote[:3]))
                elif r.status == ("exit", 0):
                    o.bad("silent", "%s: exit status 0" % what)
            elif kind in ("absent", "invalid"):
                o.bad("partial", "%s: a simulation was run all the same" % what)
        else:
            if r.died or r.status != ref.status:
                o.bad("status", "%s: %s instead of %s: %s" % (what, C.status_text(r.status), C.status_text(ref.status), r.stderr[-200:]))
            elif low is None and not same:
                o.bad("differs", "%s: the results are not those obtained from a file" % what)
            elif low is not None:
                for q in (r, ref):
                    q.files = {k: SETT.sub(b"", v) for k, v in q.files.items()}
                C01.compare(sc, ref, r, o, what + ":", than="from one file")
                if o.violations and sensitive(R, sc, {"maxattempts": 3000, "snap": 1}, ref):
                    return Out()
        if hits or kind in ("layers", "cut-mesh", "absent", "defaults", "invalid"):
            o.key([kind, bad if kind == "invalid" else 0, hits, case["stdin"], sorted((k, len(v) if isinstance(v, dict) else 1) for k, v in (low or {}).items()), case["where"], list(r.status), same])
        return o

    def info(self, R, case, o, r0):
        sc = case["sc"]
        files, plan = self.inputs(sc, case, r0)
        opt = r0.choice(["--help", "-h", "--version", "-V", "--print-defaults", "--print-template", "--verify", "--verify", "none", "two"])
        a = plan["args"]
        if opt == "none":
            plan["args"] = a[:-1]
        elif opt == "two":
            plan["args"] = a + ["other.yml"]
        else:
            plan["args"] = a[:1] + [opt] + a[1:]
        r = R.run(files, plan)
        want = ("exit", 1) if opt in ("none", "two") else ("exit", 0)
        if r.status != want:
            o.bad("info", "option %s: %s instead of %s" % (opt, C.status_text(r.status), C.status_text(want)))
        if r.states or r.files:
            o.bad("info", "option %s: %s was written" % (opt, sorted(r.files)))
        if want == ("exit", 0) and not r.stdout.strip():
            o.bad("info", "option %s: nothing was printed" % opt)
        o.key(["info", opt])
        return o

    def shrink(self, case):
        for k, v in (("pad", 0), ("stdin", False), ("layered", False)):
            if case[k] != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        yield from shrink.scenario(case)


CHECK = P()
