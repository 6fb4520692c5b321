"""Seeded scenarios: a mesh, a settings file, command-line arguments.  All JSON-serialisable."""
import json, math, random
import meshgen

MU0 = 1.25663706127e-6
GAMMA0 = 1.76085962784e11 * MU0
ALL_COLS = ["iter", "t", "dt", "max_dm", "max_angle", "<Mx>", "<My>", "<Mz>", "<dMx/dt>", "<dMy/dt>", "<dMz/dt>",
            "E_ex", "E_aniso", "E_demag", "E_zeeman", "E_tot", "Hx", "Hy", "Hz"]


def rnd(x, d=4):
    return float("%.*g" % (d, x))


def vec(r, scale=1.0):
    while True:
        v = [r.uniform(-1, 1) for _ in range(3)]
        if 0.2 < sum(x * x for x in v) <= 1:
            return [rnd(scale * x) for x in v]


def build_mesh(sc):
    m = dict(sc["mesh"])
    n = m.pop("n")
    m["regions"] = [tuple(x) for x in m["regions"]]
    m["h"] = tuple(m["h"])
    m["surfaces"] = tuple(m.get("surfaces", ()))
    m["shift"] = tuple(m.get("shift", (0.0, 0.0, 0.0)))
    return meshgen.box(n[0], n[1], n[2], **m)


_mesh_cache = {}


def mesh_of(sc):
    k = json.dumps(sc["mesh"], sort_keys=True)
    if k not in _mesh_cache:
        if len(_mesh_cache) > 64:
            _mesh_cache.clear()
        _mesh_cache[k] = build_mesh(sc)
    return _mesh_cache[k]


def files_of(sc):
    f = {"m.msh": mesh_of(sc).text(), "s.yml": json.dumps(sc["cfg"], indent=1) + "\n"}
    f.update(sc.get("extra", {}))
    return f


def plan_of(sc, **kw):
    p = {"args": ["feellgood"] + [str(a) for a in sc["args"]] + ["s.yml"], "seed": sc.get("seed", 1), "cpu": 30}
    p.update(kw)
    return p


def outdir(sc):
    return sc["cfg"]["outputs"].get("directory", ".")


def base(sc):
    d = outdir(sc)
    b = sc["cfg"]["outputs"].get("file_basename", "m")
    return (b if d == "." else d + "/" + b)


def magnetic_regions(sc):
    return {k for k, v in sc["cfg"]["mesh"]["volume_regions"].items() if v.get("Ms", 795774.7) > 0}


def material(r, strong=False):
    p = {"Ae": rnd(r.uniform(0.5e-11, 2e-11)), "Ms": rnd(r.uniform(3e5, 1.2e6)), "alpha_LLG": rnd(r.uniform(0.02, 0.9))}
    if r.random() < 0.5:
        p["K"] = rnd(r.uniform(-3e5, 5e5))
        p["uk"] = vec(r)
    if r.random() < 0.25:
        p["K3"] = rnd(r.uniform(-1e5, 2e5))
        # a rotated orthonormal frame
        a = r.uniform(0, 6.28)
        c, s = math.cos(a), math.sin(a)
        p["ex"], p["ey"], p["ez"] = [rnd(c, 12), rnd(s, 12), 0.0], [rnd(-s, 12), rnd(c, 12), 0.0], [0.0, 0.0, 1.0]
    return p


def initial_mag(r, regions=()):
    """A description of the initial magnetization, see init_cfg and init_at."""
    d = {"b": vec(r, 1.0), "a": [rnd(r.uniform(0.05, 0.5)) for _ in range(3)], "k": [rnd(r.uniform(0.1, 0.6)) for _ in range(3)],
         "x": [r.choice("xyz") for _ in range(3)], "f": [rnd(r.uniform(0, 6)) for _ in range(3)], "form": r.choice(["expr", "expr", "func", "regions"])}
    if d["form"] == "regions":
        d["special"] = r.choice(list(regions) or ["mag"])
    return d


def init_cfg(d):
    e = ["%r+%s*Math.sin(%s*1e9*%s+%s)" % (d["b"][k], d["a"][k], d["k"][k], d["x"][k], d["f"][k]) for k in range(3)]
    if d["form"] == "expr":
        return e
    if d["form"] == "func":
        return "function(x,y,z){return [%s];}" % ",".join(e)
    return "function(x,y,z,r){var s=r.indexOf(%s)>=0?-0.5:1;return [%s,s*(%s),%s];}" % (json.dumps(d["special"]), e[0], e[1], e[2])


def init_at(sc, p):
    """The initial magnetization at the nodes p (in metres), before what is non-magnetic is taken out."""
    import numpy as np
    d = sc["init"]
    m = mesh_of(sc)
    u = np.stack([d["b"][k] + d["a"][k] * np.sin(d["k"][k] * 1e9 * p[:, "xyz".index(d["x"][k])] + d["f"][k]) for k in range(3)], 1)
    if d["form"] == "regions":
        for g, t in m.tets:
            if g == d["special"]:
                for i in t:
                    u[i, 1] = np.nan
        u2 = np.stack([d["b"][k] + d["a"][k] * np.sin(d["k"][k] * 1e9 * p[:, "xyz".index(d["x"][k])] + d["f"][k]) for k in range(3)], 1)
        s = np.where(np.isnan(u[:, 1]), -0.5, 1.0)
        u = u2
        u[:, 1] *= s
    return u / np.linalg.norm(u, axis=1)[:, None]


def field(r, kind="any"):
    """A description of the applied field, see field_cfg and field_at."""
    if kind == "any":
        kind = r.choice(["zero", "const", "const", "rot", "pulse", "st"])
    if kind == "zero":
        return {"kind": "zero"}
    b = vec(r, r.uniform(0.05, 1.0))
    if kind == "const":
        return {"kind": "const", "b": b}
    w = rnd(r.uniform(2e11, 2e12))
    if kind == "rot":
        return {"kind": "rot", "b": b, "w": w, "func": r.random() < 0.5}
    if kind == "pulse":
        return {"kind": "pulse", "b": b, "t0": rnd(r.uniform(5e-13, 4e-12))}
    # b(x, t) = (b + g * k.x) * cos(w t + f)
    return {"kind": "st", "b": b, "g": vec(r, r.uniform(0.05, 0.6)), "k": vec(r, r.uniform(1e7, 1e8)), "w": w, "f": rnd(r.uniform(0, 6))}


def field_cfg(f):
    k = f["kind"]
    if k == "zero":
        return [0, 0, 0]
    b = f["b"]
    if k == "const":
        return b
    if k == "rot" and f.get("func"):
        return "function(t){return [%r*Math.cos(%r*t),%r*Math.sin(%r*t),%r];}" % (b[0], f["w"], b[1], f["w"], b[2])
    if k == "rot":
        return ["%r*Math.cos(%r*t)" % (b[0], f["w"]), "%r*Math.sin(%r*t)" % (b[1], f["w"]), "%r" % b[2]]
    if k == "pulse":
        return ["t>%r?%r:0" % (f["t0"], b[0] * 3), "%r" % b[1], "t>%r?%r:%r" % (f["t0"], b[2], -b[2])]
    g, q = f["g"], f["k"]
    return {"space": "function(x,y,z){var s=(%r)*x+(%r)*y+(%r)*z;return [%r+(%r)*s,%r+(%r)*s,%r+(%r)*s];}"
                     % (q[0], q[1], q[2], b[0], g[0], b[1], g[1], b[2], g[2]),
            "time": "function(t){return Math.cos((%r)*t+%r);}" % (f["w"], f["f"])}


def field_at(f, t, p):
    """mu0 H at time t at the points p (n, 3): (n, 3)."""
    import numpy as np
    k = f["kind"]
    n = len(p)
    if k == "zero":
        return np.zeros((n, 3))
    b = f["b"]
    if k == "const":
        v = b
    elif k == "rot":
        v = [b[0] * math.cos(f["w"] * t), b[1] * math.sin(f["w"] * t), b[2]]
    elif k == "pulse":
        v = [b[0] * 3 if t > f["t0"] else 0.0, b[1], b[2] if t > f["t0"] else -b[2]]
    else:
        s = np.asarray(p) @ np.asarray(f["k"])
        return (np.asarray(b)[None, :] + s[:, None] * np.asarray(f["g"])[None, :]) * math.cos(f["w"] * t + f["f"])
    return np.tile(np.asarray(v, dtype=float), (n, 1))


def provoke(sc, r):
    """Makes the magnetization move fast now and then, so that steps are rejected for their max(du)."""
    ti = sc["cfg"]["time_integration"]
    ti["max(du)"] = r.choice([0.004, 0.01, 0.02])
    ti["min(dt)"] = r.choice([1e-18, 1e-17, 1e-16])
    ti["max(dt)"] = r.choice([4e-13, 8e-13])
    b = vec(r, r.uniform(0.5, 2.5))
    sc["field"] = r.choice([{"kind": "pulse", "b": b, "t0": rnd(r.uniform(3e-13, 3e-12))},
                            {"kind": "rot", "b": b, "w": rnd(r.uniform(2e12, 8e12))}])
    sc["cfg"]["Bext"] = field_cfg(sc["field"])


def generate(seed, regions="any", fieldkind="any", spin=False, size="small", nout=None, cols=None, tol=1e-10,
             save=None, names=True, verbose=None, rare=0.02):
    """rare: how often the body is much larger, and how often the run much longer, than asked."""
    q = random.Random("rare/%s" % (seed,))
    x = q.random()
    if x < rare:
        size, nout = "large", min(nout or 3, 3)
    elif x < 2 * rare:
        size, nout = "tiny", q.choice([12, 25, 35, 70, 130])
    r = random.Random("scen/%s" % (seed,))
    n = {"tiny": lambda: [1, 1, r.choice([1, 2])], "small": lambda: [r.choice([2, 3]), r.choice([1, 2]), r.choice([1, 2])],
         "medium": lambda: [r.choice([3, 4]), 2, r.choice([2, 3])], "large": lambda: [r.choice([5, 6]), r.choice([4, 5]), 4]}[size]()
    axis = r.randrange(3)
    free = regions == "any"
    if regions == "any":
        regions = r.choice(["one", "one", "air", "two", "air2"])
    if spin and regions == "one":
        regions = "two" if r.random() < 0.5 else "one"
    need = {"one": 1, "air": 2, "two": 2, "air2": 3}[regions]
    n[axis] = max(n[axis], need)
    lay = {"one": [["mag", n[axis]]],
           "air": [["mag", n[axis] - 1], ["air", 1]],
           "two": [["mag", n[axis] - 1], ["mag2", 1]],
           "air2": [["mag", n[axis] - 2], ["air", 1], ["mag2", 1]]}[regions]
    r.shuffle(lay)
    h = rnd(r.uniform(2.5, 6.0))
    ax = "xyz"[axis]
    surfaces = []
    if spin:
        surfaces = [ax + "min", ax + "max"]
    else:
        for s in ("xmin", "xmax", "ymin", "zmax"):
            if r.random() < 0.3:
                surfaces.append(s)
    mesh = {"n": n, "h": [h, rnd(h * r.uniform(0.8, 1.2)), rnd(h * r.uniform(0.8, 1.2))], "regions": lay, "axis": axis,
            "jitter": 0.15, "seed": r.randrange(1 << 30), "surfaces": surfaces}
    if r.random() < 0.4:
        mesh["shift"] = [rnd(r.uniform(-30, 30)) for _ in range(3)]
    mesh["flip"] = random.Random("flip/%s" % (seed,)).random() < 0.3
    vols = {}
    for name, _ in lay:
        vols[name] = {"Ms": 0} if name == "air" else material(r)
    if spin:
        for name in vols:
            vols[name].update({"sigma": rnd(r.uniform(1e6, 1e7)), "dens_state": rnd(r.uniform(5e46, 2e47)),
                               "P": rnd(r.uniform(0.1, 0.8)) if name != "air" else 0.0, "l_sf": rnd(r.uniform(4e-9, 3e-8))})
            if name != "air":
                vols[name]["l_sd"] = rnd(r.uniform(4e-9, 1.2e-8))
    surf = {}
    for s in surfaces:
        surf[s] = {}
        if not spin and r.random() < 0.3:
            surf[s]["suppress_charges"] = True
        elif not spin and regions != "air2" and r.random() < 0.3:
            surf[s].update({"Ks": rnd(r.uniform(-5e-4, 5e-4)), "uk": vec(r)})
    if spin:
        surf[surfaces[0]] = {"V": 0, "s": [0, 0, 0]}
        surf[surfaces[1]] = {"jn": rnd(10 ** r.uniform(3, 5.2) * r.choice([-1, 1])), "uP": vec(r)}
        q = random.Random("contacts/%s" % (seed,))
        x = q.random()
        a, b = surfaces if q.random() < 0.5 else surfaces[::-1]
        if x < 0.3:         # no accumulation is imposed anywhere: what there is comes from the current through the body
            surf[a] = {}
            surf[b] = {"jn": rnd(10 ** q.uniform(8, 11) * q.choice([-1, 1])), "s": [0, 0, 0]}
            if q.random() < 0.4:
                surf[b]["uP"] = vec(q)
            elif q.random() < 0.5:
                surf[b]["s"] = vec(q, 10 ** q.uniform(3, 6))
        elif x < 0.5:       # one that is imposed
            surf[a] = {"s": vec(q, 10 ** q.uniform(-1.3, 1.3))}
            surf[b] = {"jn": rnd(10 ** q.uniform(3, 5.2) * q.choice([-1, 1])), "uP": vec(q)}
        if x < 0.5:
            surf[a]["V"] = rnd(q.uniform(-3e-15, 3e-15) * abs(surf[b]["jn"]))      # about the voltage of that current
    fd = field(r, fieldkind)
    ini = initial_mag(r, list(vols))
    dtmax = rnd(r.choice([2e-13, 4e-13, 8e-13]))
    tstep = rnd(r.choice([3e-13, 5e-13, 1e-12]))
    nout = nout or r.randint(4, 9)
    sav = r.choice([1, 2, 3]) if save is None else save
    c = list(ALL_COLS) if cols is None else list(cols)
    if cols is None:
        for name in vols:
            if name != "air" and r.random() < 0.5:
                c.append(name + ":<M%s>" % r.choice("xyz"))
        if r.random() < 0.5:
            c.append("Thiele_length")
    out = {"directory": r.choice(["out", ".", "res"]) if names else "out", "evol_time_step": tstep,
           "final_time": rnd(tstep * nout, 12), "evol_columns": c, "mag_config_every": sav}
    if names and r.random() < 0.5:
        out["file_basename"] = r.choice(["run", "a.b", "x_1"])
    if names and r.random() < 0.3:
        out["metadata"] = {"Author": "someone", "note": "first line\nsecond line"}
    cfg = {"outputs": out,
           "mesh": {"filename": "m.msh", "length_unit": 1e-9, "volume_regions": vols, "surface_regions": surf},
           "initial_magnetization": init_cfg(ini),
           "Bext": field_cfg(fd),
           "demagnetizing_field_solver": {"nb_threads": 1},
           "finite_element_solver": {"max(iter)": 700, "tolerance": tol},
           "time_integration": {"max(du)": rnd(r.choice([0.02, 0.05, 0.1])), "min(dt)": rnd(r.choice([1e-16, 1e-15, 2e-15])), "max(dt)": dtmax}}
    if not surf:
        cfg["mesh"].pop("surface_regions")
    if spin:
        cfg["spin_accumulation"] = {"enable": True, "V_file": r.random() < 0.5}
    x = random.Random("more/%s" % (seed,))
    if x.random() < 0.3:
        mesh["scale"] = x.choice([1e-3, 1e-9, 10.0])
        cfg["mesh"]["length_unit"] = rnd(1e-9 / mesh["scale"])
    if x.random() < 0.3:
        mesh["ents"] = x.randrange(1, 1 << 30)
    y = random.Random("layers/%s" % (seed,))
    more = free and not spin and cols is None and len(lay) > 1 and not any("Ks" in v for v in surf.values()) and y.random() < 0.25
    if more:                                    # one or two more layers
        for name in y.choice([["mag3"], ["air2"], ["mag3", "mag4"], ["mag3", "air2"]]):
            lay.insert(y.randrange(len(lay) + 1), [name, 1])
            n[axis] += 1
            vols[name] = {"Ms": 0} if name == "air2" else material(y)
            if name != "air2":
                c.append(name + ":<M%s>" % y.choice("xyz"))
        regions = "more"
    if len(lay) > 1 and x.random() < 0.4:
        mesh["inner"] = True
        for k in range(len(lay) - 1):
            d = {}
            if not spin and x.random() < 0.25:
                d["suppress_charges"] = True
            elif not spin and regions == "air" and x.random() < 0.4:
                d.update({"Ks": rnd(x.uniform(-5e-4, 5e-4)), "uk": vec(x)})
            if d or x.random() < 0.7:
                cfg["mesh"].setdefault("surface_regions", {})["if%d" % (k + 1)] = d
    for v in vols.values():
        if "K3" in v and x.random() < 0.7:      # any frame
            p, q = vec(x), vec(x)
            n1 = math.sqrt(sum(a * a for a in p))
            p = [a / n1 for a in p]
            dot = sum(a * b for a, b in zip(p, q))
            q = [b - dot * a for a, b in zip(p, q)]
            n2 = math.sqrt(sum(b * b for b in q))
            if n2 > 0.1:
                q = [b / n2 for b in q]
                o = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
                v["ex"], v["ey"], v["ez"] = ([rnd(a, 13) for a in w] for w in (p, q, o))
    args = ["--seed", r.randrange(1, 1 << 31)]
    if (r.random() < 0.3) if verbose is None else verbose:
        args.append("-v")
    return {"mesh": mesh, "cfg": cfg, "args": args, "field": fd, "init": ini, "seed": r.randrange(1, 1 << 30)}


def rename(sc, old, new):
    """Gives a volume region another name."""
    for x in sc["mesh"]["regions"]:
        if x[0] == old:
            x[0] = new
    v = sc["cfg"]["mesh"]["volume_regions"]
    sc["cfg"]["mesh"]["volume_regions"] = {new if k == old else k: p for k, p in v.items()}
    if sc["init"].get("special") == old:
        sc["init"]["special"] = new
        sc["cfg"]["initial_magnetization"] = init_cfg(sc["init"])
    out = sc["cfg"]["outputs"]
    out["evol_columns"] = [new + c[len(old):] if c.startswith(old + ":") else c for c in out["evol_columns"]]
