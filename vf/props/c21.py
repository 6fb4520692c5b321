"""C21: a mesh that is not a body is refused before anything is computed."""
import copy, random
import common as C, scen, shrink
from harness import Check, Out

VOL = ["twice", "flat", "repeated", "third", "solid", "hole", "hole"]
SURF = ["tri-twice", "tri-inside", "tri-alone", "tri-repeated", "quad"]


def damage(m, kind, r, named):
    """The text of mesh m with one defect; None if it cannot have it. named: surfaces that the settings mention."""
    lines = m.text().split("\n")
    n = len(m.nodes)
    e0, e1 = lines.index("$Elements"), lines.index("$EndElements")
    n0, n1 = lines.index("$Nodes"), lines.index("$EndNodes")
    el = [l.split() for l in lines[e0 + 2:e1]]
    tets = [w for w in el if w[1] == "4"]
    phys = {}
    for l in lines[lines.index("$PhysicalNames") + 2:lines.index("$EndPhysicalNames")]:
        d, g, name = l.split(" ", 2)
        phys[(d, g)] = name.strip('"')
    tris = [w for w in el if w[1] == "2" and phys[("2", w[3])] in named]
    surf = sorted({g for (d, g), s in phys.items() if d == "2" and s in named})
    nodes = lines[n0 + 2:n1]
    add = []
    mix = lambda t: r.sample(list(t), len(t))
    ids = lambda w: w[5:]
    faces = {}
    for w in tets:
        t = ids(w)
        for k in range(4):
            faces.setdefault(frozenset(t[:k] + t[k + 1:]), []).append(w)
    inside = sorted((sorted(f) for f, ws in faces.items() if len(ws) == 2 and ws[0][3] == ws[1][3]))
    if kind == "twice":
        cand = [w for w in tets if any(len(faces[frozenset(ids(w)[:k] + ids(w)[k + 1:])]) == 2 for k in range(4))]
        w = r.choice(cand)
        add.append(w[1:5] + mix(ids(w)))
    elif kind == "third":
        if not inside:
            return None
        f = r.choice(inside)
        o = [str(k + 1) for k in range(n) if str(k + 1) not in f and frozenset(f + [str(k + 1)]) not in {frozenset(ids(w)) for w in tets}]
        if not o:
            return None
        p = {w.split()[0]: [float(x) for x in w.split()[1:]] for w in nodes}
        o = [k for k in o if abs(vol(p, f + [k])) > 1e-3 * abs(vol(p, ids(tets[0])))]
        if not o:
            return None
        w = r.choice(faces[frozenset(f)])
        add.append(w[1:5] + mix(f + [r.choice(o)]))
    elif kind == "flat":
        t = ids(r.choice(tets))
        a, b = r.sample(t, 2)
        pos = {w.split()[0]: k for k, w in enumerate(nodes)}
        nodes[pos[a]] = " ".join([a] + nodes[pos[b]].split()[1:])
    elif kind == "repeated":
        w = r.choice(tets)
        a, b = r.sample(range(4), 2)
        w[5 + a] = w[5 + b]
    elif kind == "solid":
        typ, k = r.choice([("5", 8), ("6", 6), ("7", 5)])
        if n < k:
            return None
        add.append([typ] + r.choice(tets)[2:5] + r.sample([str(i + 1) for i in range(n)], k))
    elif kind == "hole":
        s = r.choice([1, 1, 1, 2, 100])
        lo = r.choice([n, n, r.randint(1, n)])
        up = lambda x: str(int(x) + s) if int(x) >= lo else x
        nodes = [" ".join([up(w.split()[0])] + w.split()[1:]) for w in nodes]
        for w in el:
            w[5:] = [up(x) for x in w[5:]]
    elif not surf:
        return None
    elif kind == "tri-twice":
        if not tris:
            return None
        w = r.choice(tris)
        g = r.choice(surf)
        add.append(["2", "2", g, w[4] if g == w[3] else g] + mix(ids(w)))
    elif kind == "tri-inside":
        if not inside:
            return None
        g = r.choice(surf)
        add.append(["2", "2", g, g] + mix(r.choice(inside)))
    elif kind in ("tri-alone", "quad"):
        k = 3 if kind == "tri-alone" else 4
        for _ in range(50):
            f = r.sample([str(i + 1) for i in range(n)], k)
            if frozenset(f) not in faces:
                break
        else:
            return None
        g = r.choice(surf)
        add.append([str(k - 1), "2", g, g] + f)
    elif kind == "tri-repeated":
        if not tris:
            return None
        w = r.choice(tris)
        a, b = r.sample(range(3), 2)
        w[5 + a] = w[5 + b]
    r2 = [[str(len(el) + 1 + k)] + w for k, w in enumerate(add)]
    where = r.randrange(len(el) + 1)
    el = el[:where] + r2 + el[where:]
    out = lines[:n0 + 2] + nodes + lines[n1:e0 + 1] + [str(len(el))] + [" ".join(w) for w in el] + lines[e1:]
    return "\n".join(out)


def vol(p, t):
    a, b, c, d = (p[k] for k in t)
    u, v, w = ([x[i] - a[i] for i in range(3)] for x in (b, c, d))
    return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])


class P(Check):
    id = "C21"
    quick_n, thorough_n = 3000, 100000
    rule = "a case counts as non-trivial when the mesh was given a defect; distinct by (defect, regions, surfaces, size, verbosity, entities, fault)"
    assumptions = ["meshes have up to about a hundred nodes; one defect at a time", "the mesh may also arrive in short pieces"]

    def case(self, seed, i, tier):
        r = random.Random("C21/%d/%d" % (seed, i))
        sc = scen.generate("C21/%d/%d" % (seed, i), size=r.choice(["tiny", "small", "small", "medium"]), spin=r.random() < 0.2, nout=1, tol=1e-8)
        return {"sc": sc, "kind": r.choice(VOL + SURF + SURF), "x": r.randrange(1 << 30), "short": r.random() < 0.2}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        r0 = random.Random(case["x"])
        named = set(sc["cfg"]["mesh"].get("surface_regions") or {})
        files = scen.files_of(sc)
        t = damage(scen.mesh_of(sc), case["kind"], r0, named)
        if t is None:
            return o
        files["m.msh"] = t
        kw = {"fs": [["read", 1, "short", 50, 1, ""]]} if case["short"] else {}
        r = R.run(files, scen.plan_of(sc, maxattempts=20, cpu=20, **kw))
        what = "a mesh with %s" % {"twice": "a tetrahedron given twice", "third": "three tetrahedrons on a face", "flat": "a flat tetrahedron", "repeated": "a tetrahedron that has a node twice",
                                   "solid": "a volume element that is no tetrahedron", "hole": "a number missing among the nodes", "tri-twice": "a surface triangle given twice",
                                   "tri-inside": "a surface triangle inside of a region", "tri-alone": "a surface triangle that belongs to no tetrahedron",
                                   "tri-repeated": "a surface triangle that has a node twice", "quad": "a surface element that is no triangle"}[case["kind"]]
        if r.initial is not None or C.attempts(r):
            o.bad("accepted", "%s was accepted, and the run started" % what)
        elif r.status[0] != "exit" or r.status[1] == 0 or r.died:
            o.bad("end", "%s: %s %s" % (what, C.status_text(r.status), r.died or ""))
        elif r.files:
            o.bad("files", "%s was refused, and %s written" % (what, ", ".join(sorted(r.files))))
        o.key([case["kind"], [x[0] for x in sc["mesh"]["regions"]], sorted(named), sc["mesh"]["n"], "-v" in sc["args"], bool(sc["mesh"].get("ents")), case["short"]])
        return o

    def shrink(self, case):
        if case["short"]:
            c = copy.deepcopy(case)
            c["short"] = False
            yield c
        yield from shrink.scenario(case)


CHECK = P()
