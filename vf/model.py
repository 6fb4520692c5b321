"""A small executable reference model of the simulated physics, in dense numpy.

It is written from the equations of the scheme (tangent-plane theta scheme for LLG, P1 finite
elements, direct sum for the demagnetizing potential) and works on the mesh-file node order.  It
keeps no history: a step is a function of the last accepted state."""
import math
import numpy as np
import scen

MU0, GAMMA0 = scen.MU0, scen.GAMMA0
E_CH, M_E = 1.602176634e-19, 9.1093837139e-31
MUB = E_CH * (6.62607015e-34 / (2 * math.pi)) / (2 * M_E)
THETA = 0.5

_u, _v, _w = [1/4, 1/6, 1/6, 1/6, 1/2], [1/4, 1/6, 1/6, 1/2, 1/6], [1/4, 1/6, 1/2, 1/6, 1/6]
TET5 = (np.array([[1 - a - b - c, a, b, c] for a, b, c in zip(_u, _v, _w)]).T, np.array([-2/15, 3/40, 3/40, 3/40, 3/40]))
TET1 = (np.full((4, 1), 0.25), np.array([1/6]))
_u, _v = [1/3, 1/5, 3/5, 1/5], [1/3, 1/5, 1/5, 3/5]
TRI4 = (np.array([[1 - a - b, a, b] for a, b in zip(_u, _v)]).T, np.array([-27/96, 25/96, 25/96, 25/96]))
TRI1 = (np.full((3, 1), 1/3), np.array([0.5]))


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


class Model:
    def __init__(self, sc, one_gauss=False, first_order=False):
        self.sc = sc
        self.first_order = first_order
        m = scen.mesh_of(sc)
        cfg = sc["cfg"]
        unit_len = cfg["mesh"].get("length_unit", 1e-9)
        self.p = p = np.array([[float("%.12g" % x) for x in q] for q in m.nodes]) * unit_len
        self.N = len(p)
        self.a, pds = TET1 if one_gauss else TET5
        self.ta, tpds = TRI1 if one_gauss else TRI4
        vols = cfg["mesh"]["volume_regions"]
        surfs = cfg["mesh"].get("surface_regions") or {}
        dflt = {"Ae": 1e-11, "Ms": 795774.7, "K": 0.0, "uk": [0, 0, 1], "K3": 0.0, "ex": [1, 0, 0], "ey": [0, 1, 0],
                "ez": [0, 0, 1], "alpha_LLG": 0.5, "sigma": 0.0, "dens_state": 0.0, "P": 0.0, "l_sd": 0.0, "l_sf": 0.0}
        par = {}
        for k in m.vol_regions:
            par[k] = dict(dflt, **vols.get(k, {}))
        self.par = par
        # tetrahedrons
        ind = np.array([t for _, t in m.tets])
        reg = [g for g, _ in m.tets]
        e = p[ind[:, 1:]] - p[ind[:, :1]]                       # (T, 3, 3) rows: edges
        det = np.linalg.det(e)
        fl = det < 0
        ind[fl, 2], ind[fl, 3] = ind[fl, 3].copy(), ind[fl, 2].copy()
        e = p[ind[:, 1:]] - p[ind[:, :1]]
        det = np.linalg.det(e)
        J = np.transpose(e, (0, 2, 1))                          # columns: edges
        dadu = np.array([[-1., -1., -1.], [1., 0, 0], [0, 1., 0], [0, 0, 1.]])
        self.da_all = dadu[None] @ np.linalg.inv(J)             # (T, 4, 3)
        self.ind_all, self.reg_all, self.det_all = ind, reg, det
        self.w_all = det[:, None] * pds[None, :]
        mag = np.array([par[g]["Ms"] > 0 for g in reg])
        self.mt = np.nonzero(mag)[0]
        self.ind, self.da, self.w = ind[mag], self.da_all[mag], self.w_all[mag]
        self.reg = [reg[i] for i in self.mt]
        get = lambda key: np.array([float(par[g][key]) for g in self.reg])
        gv = lambda key: np.array([unit(par[g][key]) for g in self.reg])
        self.A, self.Ms, self.alpha, self.K, self.K3 = get("Ae"), get("Ms"), get("alpha_LLG"), get("K"), get("K3")
        self.uk, self.ex, self.ey, self.ez = gv("uk"), gv("ex"), gv("ey"), gv("ez")
        self.magn = np.zeros(self.N, dtype=bool)
        self.magn[self.ind.ravel()] = True
        self.mn = np.nonzero(self.magn)[0]
        self.vol = {g: float(sum(self.w_all[i].sum() for i in range(len(reg)) if reg[i] == g)) for g in par}
        self.magvol = float(self.w.sum())
        # surface elements: given ones, plus every outer face and region interface not given
        faces = {}
        for i, t in enumerate(ind):
            for f in ((t[0], t[2], t[1]), (t[1], t[2], t[3]), (t[2], t[0], t[3]), (t[3], t[0], t[1])):
                faces.setdefault(tuple(sorted(f)), []).append((f, reg[i]))
        given = {}
        for g, t in m.tris:
            given[tuple(sorted(t))] = (g, t)
        tris = []
        for key, fs in faces.items():
            if key in given:
                g, t = given[key]
                tris.append((t, dict({"Ks": 0.0, "uk": [0, 0, 1], "suppress_charges": False}, **surfs.get(g, {})), fs))
            elif len(fs) == 1 or fs[0][1] != fs[1][1]:
                tris.append((key, {"Ks": 0.0, "uk": [0, 0, 1], "suppress_charges": False}, fs))
        self.tri_ind, self.tri_n, self.tri_w, self.tri_dMs, self.tri_prm = [], [], [], [], []
        self.all_tris = []
        for t, prm, fs in tris:
            q = p[list(t)]
            c = np.cross(q[1] - q[0], q[2] - q[0])
            s = 0.5 * np.linalg.norm(c)
            n = c / np.linalg.norm(c)
            dMs = 0.0
            for f, g in fs:
                k = p[list(f)]
                o = np.cross(k[1] - k[0], k[2] - k[0])
                dMs += par[g]["Ms"] * (1 if o @ n > 0 else -1)
            self.all_tris.append((t, prm, 2 * s * tpds))
            if self.magn[list(t)].all() and not prm["suppress_charges"]:
                self.tri_ind.append(t)
                self.tri_n.append(n)
                self.tri_w.append(2 * s * tpds)
                self.tri_dMs.append(dMs)
                self.tri_prm.append(prm)
        self.tri_ind = np.array(self.tri_ind)
        self.tri_n, self.tri_w, self.tri_dMs = map(np.array, (self.tri_n, self.tri_w, self.tri_dMs))
        # edges
        ed = set()
        for t in ind:
            for i in range(4):
                for j in range(i + 1, 4):
                    ed.add((min(t[i], t[j]), max(t[i], t[j])))
        self.edges = np.array(sorted(ed))
        self._G = None
        self._V = None
        lo, hi = p.min(0), p.max(0)
        self.l, self.c = hi - lo, 0.5 * (hi + lo)

    # ------------------------------------------------------------ demagnetizing potential
    def _green(self):
        """phi = G u, u flattened (N*3); rows of non-magnetic nodes are zero."""
        if self._G is not None:
            return self._G
        p, N = self.p, self.N
        G = np.zeros((N, N, 3))
        tgt = self.mn
        # volume charges -Ms w div u at the Gauss points
        pg = np.einsum("tid,ig->tgd", p[self.ind], self.a)
        for t in range(len(self.ind)):
            r = np.linalg.norm(p[tgt][:, None, :] - pg[t][None], axis=2)      # (targets, G)
            k = -(self.Ms[t] * self.w[t][None, :] / r).sum(1)
            for i in range(4):
                G[tgt, self.ind[t, i], :] += k[:, None] * self.da[t, i][None, :]
        for f in range(len(self.tri_ind)):
            ti, n, w, dMs = self.tri_ind[f], self.tri_n[f], self.tri_w[f], self.tri_dMs[f]
            if dMs == 0:
                continue
            q = p[ti]
            g = self.ta.T @ q                                                # (G, 3)
            r = np.linalg.norm(p[tgt][:, None, :] - g[None], axis=2)
            C = (w[None, :] / r) @ self.ta.T * dMs                            # (targets, 3 nodes)
            for i in range(3):
                G[tgt, ti[i], :] += C[:, i][:, None] * n[None, :]
            # the nodes of the element itself: exact potential instead of the Gauss points
            for i in range(3):
                d = np.linalg.norm(q[i] - g, axis=1)
                c = (w / d) @ self.ta.T * dMs
                for j in range(3):
                    G[ti[i], ti[j], :] -= c[j] * n
                k1, k2, k3 = self._own(q[i], q[(i + 1) % 3], q[(i + 2) % 3])
                for j, kk in ((i, k1), ((i + 1) % 3, k2), ((i + 2) % 3, k3)):
                    G[ti[i], ti[j], :] += dMs * kk * n
        self._G = (G / (4 * math.pi)).reshape(N, 3 * N)
        return self._G

    @staticmethod
    def _own(p1, p2, p3):
        """Potential at p1 of a triangle with a linear charge density: coefficients of the 3 nodal values."""
        d12, d13 = p2 - p1, p3 - p1
        b = np.linalg.norm(d12)
        t = d12 @ d13 / b
        s2 = np.linalg.norm(np.cross(d12, d13))
        h = s2 / b
        f = lambda x: math.sqrt(1 + x * x)
        c = (t - b) / h
        r = h * f(t / h)
        xi = b * math.log((c * t + h + f(c) * r) / (b * (c + f(c)))) / f(c)
        q = b / (s2 * (1 + c * c))
        return 0.5 * xi, 0.5 * (xi * (h + c * t) - b * (r - b)) * q, 0.5 * b * (r - b - c * xi) * q

    def phi(self, u):
        u = np.where(self.magn[:, None], u, 0.0)
        return self._green() @ u.ravel()

    # ------------------------------------------------------------ fields
    def Hext(self, t):
        """at the Gauss points of the magnetic tetrahedrons: (T, G, 3)."""
        pg = np.einsum("tid,ig->tgd", self.p[self.ind], self.a)
        sh = pg.shape
        return scen.field_at(self.sc["field"], t, pg.reshape(-1, 3)).reshape(sh) / MU0

    def velocity(self, u0, u1, dt):
        """The tangent velocity that took u0 to u1 = normalize(u0 + dt v)."""
        d = (u0 * u1).sum(1)
        with np.errstate(all="ignore"):
            v = (u1 / d[:, None] - u0) / dt
        v[~self.magn] = 0.0
        return v

    def step(self, u, v, t, dt, dtmax, spin=None):
        """One time step from the accepted state (u, v) at time t: (u_next, v_next, max |v|)."""
        T, G = self.w.shape
        u = np.where(self.magn[:, None], u, 0.0)
        s_dt = THETA * dt * GAMMA0
        tt = dt / (100.0 * dtmax)
        pref = 1.0 + tt * abs(math.log(tt))
        Abis = 2 * self.A / (MU0 * self.Ms)
        un, vn = u[self.ind], v[self.ind]                        # (T, 4, 3)
        U = np.einsum("tid,ig->tgd", un, self.a)
        V = np.einsum("tid,ig->tgd", vn, self.a)
        gradu = np.einsum("tid,tik->tkd", un, self.da)           # d_k u : (T, 3, 3)
        Hd = -np.einsum("ti,tik->tk", self.phi(u)[self.ind], self.da)[:, None, :]
        Hv = 0.0 if self.first_order else -np.einsum("ti,tik->tk", self.phi(v)[self.ind], self.da)[:, None, :]
        uH = np.repeat((-Abis * (gradu ** 2).sum((1, 2)))[:, None], G, 1)
        h = s_dt / GAMMA0
        Kb = 2 * self.K / (MU0 * self.Ms)
        Han = (Kb[:, None] * np.einsum("tgd,td->tg", U + h * V, self.uk))[:, :, None] * self.uk[:, None, :]
        uH = uH + Kb[:, None] * np.einsum("tgd,td->tg", U, self.uk) ** 2
        K3b = 2 * self.K3 / (MU0 * self.Ms)
        if np.any(K3b):
            E = np.stack([self.ex, self.ey, self.ez], 1)          # (T, 3 axes, 3)
            ku = np.einsum("tgd,tad->tga", U, E)
            kv = np.einsum("tgd,tad->tga", V, E)
            k3 = ku * (1 - ku * ku)
            second = kv * self.ex[:, None, :] * (1 - 3 * ku * ku)
            Han = Han - K3b[:, None, None] * (np.einsum("tga,tad->tgd", k3, E) + h * second)
            uH = uH - K3b[:, None] * (ku * k3).sum(2)
        H0 = Hd + self.Hext(t)
        Hst = np.zeros_like(U)
        if spin is not None:
            D0, lsd = self._spin_consts()
            pf = D0[self.mt] / (lsd[self.mt] ** 2 * GAMMA0 * self.Ms)
            Hst = pf[:, None, None] * np.einsum("tid,ig->tgd", spin[self.ind], self.a)
        uH = uH + (U * (H0 + Hst)).sum(2)
        # effective damping
        rdt = GAMMA0 * dt
        al = self.alpha[:, None]
        M = 2 * al * 0.1 / rdt
        aeff = np.where(uH > 0, al + rdt / 2 * np.minimum(uH, M), al / (1 + rdt / (2 * al) * np.minimum(-uH, M)))
        N3 = 3 * self.N
        K = np.zeros((self.N, 3, self.N, 3))
        stiff = np.einsum("tik,tjk->tij", self.da, self.da) * (pref * s_dt * Abis * self.w.sum(1))[:, None, None]
        contrib = np.einsum("ig,tg->ti", self.a, self.w * aeff)
        aw = np.einsum("ig,tg->ti", self.a, self.w)
        H = H0 + Han + h * Hv + Hst
        hu = (Hst * U).sum(2)
        B = np.zeros((self.N, 3))
        F = np.einsum("ig,tgd->tid", self.a, self.w[:, :, None] * (H - (hu * s_dt)[:, :, None] * V))
        F -= (Abis * self.w.sum(1))[:, None, None] * np.einsum("tik,tkd->tid", self.da, gradu)
        np.add.at(B, self.ind, F)
        for f in range(len(self.tri_ind)):
            prm = self.tri_prm[f]
            if prm["Ks"]:
                ti, w = self.tri_ind[f], self.tri_w[f]
                uk = unit(prm["uk"])
                us = self.ta.T @ u[ti]
                B[ti] += (2 * prm["Ks"] / (MU0 * abs(self.tri_dMs[f]))) * (self.ta @ (w * (us @ uk)))[:, None] * uk[None, :]
        for d in range(3):
            for i in range(4):
                for j in range(4):
                    np.add.at(K, (self.ind[:, i], d, self.ind[:, j], d), stiff[:, i, j])
                np.add.at(K, (self.ind[:, i], d, self.ind[:, i], d), contrib[:, i])
        aw_n = np.zeros(self.N)
        np.add.at(aw_n, self.ind, aw)
        for i in self.mn:                                        # u x .
            x, y, z = u[i] * aw_n[i]
            K[i, :, i, :] += np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
        # tangent basis
        n = len(self.mn)
        Bs = np.zeros((self.N, 3, 2 * n))
        for k, i in enumerate(self.mn):
            e = np.zeros(3)
            e[np.argmin(np.abs(u[i]))] = 1.0
            e = unit(e - (e @ u[i]) * u[i])
            Bs[i, :, 2 * k] = e
            Bs[i, :, 2 * k + 1] = np.cross(u[i], e)
        Bs = Bs.reshape(N3, 2 * n)
        Km = Bs.T @ K.reshape(N3, N3) @ Bs
        x = np.linalg.solve(Km, Bs.T @ B.ravel())
        vv = GAMMA0 * (Bs @ x).reshape(self.N, 3)
        un = u + dt * vv
        out = np.full((self.N, 3), np.nan)
        out[self.mn] = un[self.mn] / np.linalg.norm(un[self.mn], axis=1)[:, None]
        return out, vv, float(np.sqrt((vv ** 2).sum(1).max()))

    # ------------------------------------------------------------ averages, energies
    def avg(self, f, comp, region=None):
        f = np.where(self.magn[:, None], f, 0.0)
        val = (self.w * np.einsum("ti,ig->tg", f[self.ind][:, :, comp], self.a)).sum(1)
        if region is None:
            return val.sum() / self.magvol
        sel = np.array([g == region for g in self.reg])
        return val[sel].sum() / self.vol[region]

    def energies(self, u, t):
        """exchange, anisotropy, demag, zeeman"""
        u = np.where(self.magn[:, None], u, 0.0)
        un = u[self.ind]
        U = np.einsum("tid,ig->tgd", un, self.a)
        gradu = np.einsum("tid,tik->tkd", un, self.da)
        vol = self.w.sum(1)
        ex = (self.A * vol * (gradu ** 2).sum((1, 2))).sum()
        an = -(self.K[:, None] * self.w * np.einsum("tgd,td->tg", U, self.uk) ** 2).sum()
        a0, a1, a2 = (np.einsum("tgd,td->tg", U, e) for e in (self.ex, self.ey, self.ez))
        an += (self.K3[:, None] * self.w * ((a0 * a1) ** 2 + (a1 * a2) ** 2 + (a2 * a0) ** 2)).sum()
        phi = self.phi(u)
        ph = np.einsum("ti,ig->tg", phi[self.ind], self.a)
        div = np.einsum("tkk->t", gradu)
        de = -0.5 * MU0 * (self.Ms * div * (self.w * ph).sum(1)).sum()
        for f in range(len(self.tri_ind)):
            ti, w, n = self.tri_ind[f], self.tri_w[f], self.tri_n[f]
            us = self.ta.T @ u[ti]
            de += 0.5 * MU0 * self.tri_dMs[f] * (w * (us @ n) * (self.ta.T @ phi[ti])).sum()
            prm = self.tri_prm[f]
            if prm["Ks"]:
                an -= prm["Ks"] * (w * (us @ unit(prm["uk"])) ** 2).sum()
        ze = -MU0 * (self.Ms[:, None] * self.w * (self.Hext(t) * U).sum(2)).sum()
        return ex, an, de, ze

    def energy_scale(self):
        """a bound on what cancels in the energies: used for absolute tolerances"""
        return MU0 * float((self.Ms ** 2 * self.w.sum(1)).sum())

    def max_angle(self, u):
        e = self.edges[self.magn[self.edges].all(1)]
        d = (u[e[:, 0]] * u[e[:, 1]]).sum(1)
        return math.acos(max(-1.0, min(1.0, float(d.min())))) if len(d) else 0.0

    def thiele(self, u, region=None):
        u = np.where(self.magn[:, None], u, 0.0)
        dz = np.einsum("tid,ti->td", u[self.ind], self.da[:, :, 2])
        val = self.w.sum(1) * (dz ** 2).sum(1)
        if region is not None:
            sel = np.array([g == region for g in self.reg])
            return 2 * (self.vol[region] / self.l[2]) / val[sel].sum()
        return 2 * (self.magvol / self.l[2]) / val.sum()

    # ------------------------------------------------------------ spin accumulation
    def _spin_consts(self):
        D0 = np.array([2 * self.par[g]["sigma"] / (E_CH ** 2 * self.par[g]["dens_state"]) for g in self.reg_all])
        lsd = np.array([self.par[g]["l_sd"] for g in self.reg_all])
        return D0, lsd

    def potential(self):
        """The electric potential on the nodes."""
        if self._V is not None:
            return self._V
        N = self.N
        K, b = np.zeros((N, N)), np.zeros(N)
        sig = np.array([self.par[g]["sigma"] for g in self.reg_all]) * self.w_all.sum(1)
        st = np.einsum("tik,tjk->tij", self.da_all, self.da_all) * sig[:, None, None]
        for i in range(4):
            for j in range(4):
                np.add.at(K, (self.ind_all[:, i], self.ind_all[:, j]), st[:, i, j])
        fix = {}
        for t, prm, w in self.all_tris:
            if prm.get("jn") is not None:
                b[list(t)] -= prm["jn"] * (self.ta @ w)
            if prm.get("V") is not None:
                for i in t:
                    fix[i] = prm["V"]
        self._V = self._dirichlet(K, b, fix)
        return self._V

    @staticmethod
    def _dirichlet(K, b, fix):
        n = len(b)
        x = np.zeros(n)
        for i, v in fix.items():
            x[i] = v
        free = np.array([i for i in range(n) if i not in fix], dtype=int)
        if not len(free):
            return x
        r = b - K @ x
        x[free] = np.linalg.solve(K[np.ix_(free, free)], r[free])
        return x

    def spin(self, u):
        """The spin accumulation on the nodes when the magnetization is u."""
        N = self.N
        V = self.potential()
        um = np.where(self.magn[:, None], u, 0.0)
        D0, lsd = self._spin_consts()
        lsf = np.array([self.par[g]["l_sf"] for g in self.reg_all])
        K, b = np.zeros((N, 3, N, 3)), np.zeros((N, 3))
        st = np.einsum("tik,tjk->tij", self.da_all, self.da_all) * (D0 * self.w_all.sum(1))[:, None, None]
        aw = self.w_all @ self.a.T
        for d in range(3):
            for i in range(4):
                for j in range(4):
                    np.add.at(K, (self.ind_all[:, i], d, self.ind_all[:, j], d), st[:, i, j])
                np.add.at(K, (self.ind_all[:, i], d, self.ind_all[:, i], d), (D0 / lsf ** 2) * aw[:, i])
        for t in self.mt:
            g = self.reg_all[t]
            c0 = MUB * self.par[g]["P"] * self.par[g]["sigma"] / E_CH
            gV = V[self.ind_all[t]] @ self.da_all[t]
            for i in range(4):
                k = self.ind_all[t, i]
                x, y, z = (D0[t] / lsd[t] ** 2) * aw[t, i] * um[k]
                K[k, :, k, :] += np.array([[0, z, -y], [-z, 0, x], [y, -x, 0]])
                b[k] += c0 * self.w_all[t].sum() * (gV @ self.da_all[t, i]) * um[k]
        fix = {}
        for t, prm, w in self.all_tris:
            jn, uP, sp = prm.get("jn"), prm.get("uP"), prm.get("s")
            fl = -jn * (MUB / E_CH) * unit(uP) if jn is not None and uP is not None else None
            sp = np.asarray(sp, dtype=float) if sp is not None else None
            sv = fl if fl is not None else sp
            if sv is not None:
                b[list(t)] -= (self.ta @ w)[:, None] * sv[None, :]
            if (sp is None) != (jn is None):
                for i in t:
                    for d in range(3):
                        fix[3 * i + d] = (fl if sp is None else sp)[d]
        return self._dirichlet(K.reshape(3 * N, 3 * N), b.ravel(), fix).reshape(N, 3)
