"""Helpers shared by the property modules: parsing the program's outputs, reading the event log."""
import re
import numpy as np

RW = re.compile(rb"^(## real-world time: ).*$", re.M)


def mask(data):
    """File contents without what legitimately depends on the wall clock."""
    return RW.sub(rb"\1-", data)


def masked(files):
    return {k: mask(v) for k, v in files.items()}


class Evol:
    def __init__(self, data):
        self.text = data
        self.columns = None
        self.header = []
        self.rows = []          # lists of strings
        self.torn = b""
        lines = data.split(b"\n")
        self.torn = lines[-1]
        for l in lines[:-1]:
            s = l.decode("utf-8", "replace")
            if s.startswith("##"):
                self.header.append(s)
                if s.startswith("## columns: "):
                    self.columns = s[12:].split("\t")
            else:
                self.rows.append(s.split("\t"))

    def col(self, name):
        i = self.columns.index(name)
        return [float(r[i]) for r in self.rows]


class Sol:
    def __init__(self, data):
        self.text = data
        self.time = None
        self.columns = None
        self.header, self.rows = [], []
        lines = data.split(b"\n")
        self.torn = lines[-1]
        for l in lines[:-1]:
            s = l.decode("utf-8", "replace")
            if s.startswith("##"):
                self.header.append(s)
                if s.startswith("## time:"):
                    try:
                        self.time = float(s[8:])
                    except ValueError:
                        pass
                elif s.startswith("## columns: "):
                    self.columns = s[12:].split("\t")
            else:
                self.rows.append(s.split("\t"))

    def complete(self, n):
        """n rows, numbered in order, each with every column."""
        return (not self.torn and self.columns is not None and len(self.rows) == n
                and all(len(r) == len(self.columns) and r[0] == str(i) for i, r in enumerate(self.rows)))

    def array(self):
        return np.array([[float(x) for x in r[1:]] for r in self.rows])

    def u(self):
        return self.array()[:, :3]


def attempts(r):
    """[(seq, t, dt, number of the hook)]"""
    out = []
    for seq, k, x in r.events:
        if k == "LINE" and x.startswith("ATTEMPT "):
            p = x.split()
            out.append((seq, float(p[1]), float(p[2]), int(p[3])))
    return out


class Attempt:
    __slots__ = ("seq", "t", "dt", "injected", "state", "hook")


def history(r):
    """The attempts of a run, in order, each with what became of it: .state is the accepted state
    it led to or None, .injected whether the simulator made its linear solve fail."""
    out = []
    cur = None
    for seq, k, x in r.events:
        if k == "LINE" and x.startswith("ATTEMPT "):
            p = x.split()
            cur = Attempt()
            cur.seq, cur.t, cur.dt, cur.injected, cur.state = seq, float(p[1]), float(p[2]), False, None
            cur.hook = int(p[3])
            out.append(cur)
        elif k == "LINE" and x.startswith("FIRED solver_fail llg_solver") and cur is not None:
            cur.injected = True
        elif k == "STATE" and x.what == "accepted" and cur is not None:
            cur.state = x
            cur = None
    return out


def tipped(a, b, tol=1e-5):
    """Two executions that agree until a linear solve fails by itself in one of them only."""
    for x, y in zip(history(a), history(b)):
        if x.injected != y.injected or not abs(x.t - y.t) <= 1e-5 * max(abs(x.t), abs(y.t)) or not abs(x.dt - y.dt) <= 1e-3 * x.dt:
            return False
        if (x.state is None) != (y.state is None):
            return not x.injected
        if x.state is not None and x.state.u is not None and not np.nanmax(np.abs(x.state.u - y.state.u), initial=0.0) <= tol:
            return False
    return False


def fragile(R, files, plan, ref, exe="plain", n=32):
    """Does one of n executions that only differ from ref in the random seed, hence in the bases of the tangent planes
    and in rounding errors, have a linear solve that fails by itself where ref has none, or the reverse?"""
    want = [(x.injected, x.state is None) for x in history(ref)]
    for k in range(n):
        p = dict(plan, args=list(plan["args"]))
        if "--seed" not in p["args"]:
            return False
        p["args"][p["args"].index("--seed") + 1] = str(90001 + k)
        r = R.run(files, p, exe=exe)
        if [(x.injected, x.state is None) for x in history(r)] != want and tipped(ref, r):
            return True
    return False


def fmt_sol(x, prec):
    return "%.*e" % (prec, x)


def rel(a, b, floor=0.0):
    return abs(a - b) / max(abs(a), abs(b), floor, 1e-300)


def status_text(st):
    return "%s %d" % st
