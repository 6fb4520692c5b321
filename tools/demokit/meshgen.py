"""Small tetrahedral meshes in gmsh 2.2 format: box grids, Kuhn split, jittered, renumbered."""
import random


class Mesh:
    def __init__(self):
        self.nodes = []      # (x, y, z), mesh-file units
        self.tets = []       # (region name, (i, j, k, l)) 0-based
        self.tris = []       # (surface name, (i, j, k))
        self.vol_regions = []
        self.surf_regions = []

    def text(self):
        phys = {}
        lines = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames",
                 str(len(self.vol_regions) + len(self.surf_regions))]
        n = 0
        for s in self.surf_regions:
            n += 1
            phys[("s", s)] = n
            lines.append('2 %d "%s"' % (n, s))
        for v in self.vol_regions:
            n += 1
            phys[("v", v)] = n
            lines.append('3 %d "%s"' % (n, v))
        lines += ["$EndPhysicalNames", "$Nodes", str(len(self.nodes))]
        for i, p in enumerate(self.nodes):
            lines.append("%d %.12g %.12g %.12g" % (i + 1, p[0], p[1], p[2]))
        lines += ["$EndNodes", "$Elements", str(len(self.tets) + len(self.tris))]
        k = 0
        for name, t in self.tris:
            k += 1
            g = phys[("s", name)]
            lines.append("%d 2 2 %d %d %s" % (k, g, g, " ".join(str(i + 1) for i in t)))
        for name, t in self.tets:
            k += 1
            g = phys[("v", name)]
            lines.append("%d 4 2 %d %d %s" % (k, g, g, " ".join(str(i + 1) for i in t)))
        lines += ["$EndElements", ""]
        return "\n".join(lines)

    def mag_nodes(self, magnetic):
        m = [False] * len(self.nodes)
        for name, t in self.tets:
            if name in magnetic:
                for i in t:
                    m[i] = True
        return m


def _det(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def vol6(p, t):
    a, b, c, d = (p[i] for i in t)
    s = lambda u, v: (u[0] - v[0], u[1] - v[1], u[2] - v[2])
    return _det(s(b, a), s(c, a), s(d, a))


def box(nx, ny, nz, h=(5.0, 5.0, 5.0), regions=(("vol", 1),), axis=0, jitter=0.15, seed=0,
        surfaces=(), shift=(0.0, 0.0, 0.0), shuffle=True, flip=False):
    """regions: [(name, number of cell layers along axis)], layers must add up to n[axis].
    surfaces: subset of ("xmin", "xmax", ...), a physical surface each."""
    r = random.Random(seed)
    m = Mesh()
    N = (nx, ny, nz)
    idx = {}
    pos = []
    for k in range(nz + 1):
        for j in range(ny + 1):
            for i in range(nx + 1):
                p = [i * h[0], j * h[1], k * h[2]]
                for d, (c, n) in enumerate(((i, nx), (j, ny), (k, nz))):
                    # keep the outer box exact, and the region interfaces plane
                    if 0 < c < n and not (d == axis and len(regions) > 1):
                        p[d] += jitter * h[d] * (2 * r.random() - 1)
                idx[(i, j, k)] = len(pos)
                pos.append(tuple(p[d] + shift[d] - 0.5 * N[d] * h[d] for d in range(3)))
    lay = []
    for name, n in regions:
        if name not in m.vol_regions:
            m.vol_regions.append(name)
        lay += [name] * n
    assert len(lay) == N[axis], (lay, N, axis)
    perms = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
    tets = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                reg = lay[(i, j, k)[axis]]
                for p in perms:
                    c = [i, j, k]
                    t = [idx[tuple(c)]]
                    for d in p:
                        c[d] += 1
                        t.append(idx[tuple(c)])
                    if vol6(pos, t) < 0:
                        t[2], t[3] = t[3], t[2]
                    assert vol6(pos, t) > 0
                    tets.append((reg, tuple(t)))
    # boundary faces
    tris = []
    if surfaces:
        lim = {"xmin": (0, 0), "xmax": (0, nx), "ymin": (1, 0), "ymax": (1, ny), "zmin": (2, 0), "zmax": (2, nz)}
        inv = {v: k for k, v in idx.items()}
        for s in surfaces:
            m.surf_regions.append(s)
            d, c = lim[s]
            for reg, t in tets:
                f = [i for i in t if inv[i][d] == c]
                if len(f) == 3:
                    o = [i for i in t if i not in f][0]
                    if vol6(pos, (f[0], f[1], f[2], o)) > 0:  # outward orientation
                        f[1], f[2] = f[2], f[1]
                    tris.append((s, tuple(f)))
    # renumber
    perm = list(range(len(pos)))
    if shuffle:
        r.shuffle(perm)
    m.nodes = [None] * len(pos)
    for i, p in enumerate(pos):
        m.nodes[perm[i]] = p
    m.tets = [(g, tuple(perm[i] for i in t)) for g, t in tets]
    m.tris = [(g, tuple(perm[i] for i in t)) for g, t in tris]
    r.shuffle(m.tets)
    if flip:   # any order of the nodes within an element
        mix = lambda t: tuple(r.sample(t, len(t)))
        m.tets = [(g, mix(t)) for g, t in m.tets]
        m.tris = [(g, mix(t)) for g, t in m.tris]
    return m
