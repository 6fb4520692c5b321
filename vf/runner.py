"""Runs simulated executions: one zygote process per worker and executable, one fork per run."""
import atexit, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
import numpy as np

_SCRATCH = None


def scratch_root():
    """A scratch directory of this check, with a path of fixed length."""
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        pid = os.getpid()
        for k in range(100000):
            d = "%s/fgs_%06d_%05d" % (base, pid % 1000000, k)
            try:
                os.mkdir(d)
                break
            except FileExistsError:
                continue
        _SCRATCH = d
        atexit.register(_cleanup, d, pid)
    return _SCRATCH


def _cleanup(d, pid):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)


def plan_text(plan):
    """The plan file of one run.  plan: JSON-serialisable dict.  Paths are relative, so that nothing in the simulated process depends on where it runs."""
    cwd = "/proc/self/cwd"
    L = ["cwd run", "stdout ../aux/stdout", "stderr ../aux/stderr", "log aux/log"]
    if plan.get("stdin"):
        L.append("stdin " + plan["stdin"])
    for a in plan["args"]:
        L.append("arg " + a)
    for k, v in sorted(plan.get("env", {}).items()):
        L.append("env %s %s" % (k, v.replace("@CWD@", cwd)))
    for k in ("seed", "threads", "trace", "fill", "stackfill", "host", "maxattempts", "maxregions", "cpu", "snap", "pid", "live"):
        if k in plan:
            L.append("%s %s" % (k, plan[k]))
    if "sched" in plan:
        L.append("sched " + " ".join(str(x) for x in plan["sched"]))
    for p in plan.get("pre", ()):
        L.append("p %d %d %d %d" % tuple(p))
    if "clock" in plan:
        L.append("clock %r %r" % tuple(plan["clock"]))
    for j in plan.get("clockjump", ()):
        L.append("clockjump %d %r" % tuple(j))
    for f in plan.get("fs", ()):
        L.append("fs " + " ".join(str(x) for x in f))
    for s in plan.get("sig", ()):
        L.append("sig %d %s %d" % tuple(s))
    for m in plan.get("mallocfail", ()):
        L.append("mallocfail %d" % m)
    for s in plan.get("solverfail", ()):
        L.append("solverfail %s %d %d" % tuple(s))
    if plan.get("hostfail"):
        L.append("hostfail")
    return "\n".join(L) + "\n"


ENV = {"PATH": "/usr/bin:/bin"}


class State:
    __slots__ = ("what", "t", "dt", "n", "hash", "u", "seq")


class Result:
    """status: ("exit", code) or ("signal", number); files: what the run left in its directory
    (inputs it did not touch are left out)."""

    def __init__(self):
        self.status = None
        self.states, self.fired, self.events = [], [], []
        self.ops, self.sites, self.end = {}, {}, {}
        self.trace = []
        self.files = {}
        self.dirs, self.lost = set(), []
        self.stdout = self.stderr = ""
        self.died = None
        self.cpu_ms = 0
        self.log = b""

    @property
    def accepted(self):
        return [s for s in self.states if s.what == "accepted"]

    @property
    def initial(self):
        for s in self.states:
            if s.what == "initial":
                return s
        return None

    def ok(self):
        return self.status == ("exit", 0)

    def digest(self):
        """Identifies the execution: its event log and everything it wrote."""
        h = hashlib.sha256()
        h.update(repr(self.status).encode())
        h.update(self.log)
        for k in sorted(self.files):
            h.update(k.encode() + b"\0" + self.files[k] + b"\0")
        h.update(self.stdout.encode("utf-8", "surrogateescape"))
        h.update(self.stderr.encode("utf-8", "surrogateescape"))
        return h.hexdigest()


def parse_log(r, log, snap):
    i, n = 0, len(log)
    seq = 0
    while i < n:
        j = log.find(b"\n", i)
        if j < 0:
            break
        line = log[i:j]
        i = j + 1
        seq += 1
        if line.startswith(b"STATE "):
            p = line.split()
            s = State()
            s.what, s.t, s.dt, s.n, s.hash = p[1].decode(), float(p[2]), float(p[3]), int(p[4]), p[5].decode()
            s.u = None
            s.seq = seq
            if snap:
                if i + 24 * s.n <= n:
                    s.u = np.frombuffer(log[i:i + 24 * s.n], dtype=np.float64).reshape(-1, 3)
                i += 24 * s.n + 1
            r.states.append(s)
            r.events.append((seq, "STATE", s))
            continue
        if line.startswith(b"P "):
            r.trace.append(tuple(int(x) for x in line[2:].split()))
            continue
        t = line.decode("utf-8", "replace")
        if t.startswith("FIRED "):
            r.fired.append((seq, t[6:]))
        elif t.startswith("END "):
            p = t.split()
            r.end = {p[k]: int(p[k + 1]) for k in range(1, len(p) - 1, 2)}
        elif t.startswith("OPS "):
            p = t.split()
            r.ops[p[1]] = int(p[2])
        elif t.startswith("SITE "):
            p = t.split()
            r.sites[p[1]] = int(p[2])
        elif t.startswith("DIE "):
            r.died = t[4:]
        r.events.append((seq, "LINE", t))


class Zygote:
    def __init__(self, exe, wd):
        self.exe, self.wd = exe, wd
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe, "--zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, start_new_session=True, cwd=self.wd, env=ENV)
        line = self.p.stdout.readline()
        if line.strip() != "READY":
            raise RuntimeError("the simulator did not start: %r" % line)

    def run(self, ctl):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(ctl + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline().split()
        if not line or line[0] != "DONE":
            raise RuntimeError("the simulator stopped answering: %r" % line)
        return (line[1], int(line[2])), int(line[3])

    def close(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None


class Runner:
    """One per worker process."""

    def __init__(self, exes, wid):
        self.exes = exes
        self.z = {}
        self.dir = "%s/w%03d" % (scratch_root(), wid)
        os.makedirs(self.dir, exist_ok=True)
        self.runs = 0
        self.stats = {"runs": 0, "sim_time_s": 0.0, "switches": 0, "accepted_steps": 0, "faults": {}, "attempts": 0}

    def run(self, files, plan, exe="plain", fresh=False):
        cwd, aux = self.dir + "/run", self.dir + "/aux"
        shutil.rmtree(cwd, ignore_errors=True)
        os.makedirs(cwd)
        os.makedirs(aux, exist_ok=True)
        inputs = {}
        for name, data in files.items():
            if isinstance(data, str):
                data = data.encode("utf-8", "surrogateescape")
            p = os.path.join(cwd, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            inputs[name] = data
        with open(aux + "/ctl", "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(plan_text(plan))
        for x in ("stdout", "stderr", "log"):
            try:
                os.unlink(aux + "/" + x)
            except FileNotFoundError:
                pass
        r = Result()
        if fresh:
            p = subprocess.run([self.exes[exe], "--run", "aux/ctl"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir, env=ENV)
            r.status = ("exit", p.returncode) if p.returncode >= 0 else ("signal", -p.returncode)
        else:
            z = self.z.get(exe)
            if z is None:
                z = self.z[exe] = Zygote(self.exes[exe], self.dir)
            r.status, r.cpu_ms = z.run("aux/ctl")
        try:
            with open(aux + "/log", "rb") as f:
                n = int.from_bytes(f.read(8), "little")
                r.log = f.read(n)
        except FileNotFoundError:
            r.log = b""
        parse_log(r, r.log, bool(plan.get("snap")))
        left = set()
        for d, dn, fn in os.walk(cwd):
            if d != cwd:
                r.dirs.add(os.path.relpath(d, cwd))
            for x in fn:
                left.add(os.path.relpath(os.path.join(d, x), cwd))
                p = os.path.join(d, x)
                name = os.path.relpath(p, cwd)
                if name.startswith("simhome/"):
                    continue
                try:
                    with open(p, "rb") as f:
                        data = f.read()
                except OSError:
                    continue
                if inputs.get(name) != data:
                    r.files[name] = data
        r.lost = sorted(set(inputs) - left)
        for x in ("stdout", "stderr"):
            try:
                with open(aux + "/" + x, "rb") as f:
                    setattr(r, x, f.read().decode("utf-8", "replace"))
            except FileNotFoundError:
                pass
        if r.status == ("exit", 93):
            raise RuntimeError("the simulator could not set up a run: " + r.stderr)
        st = self.stats
        st["runs"] += 1
        if r.states:
            st["sim_time_s"] += max(0.0, r.states[-1].t - r.states[0].t)
            st["accepted_steps"] += len(r.accepted)
        st["switches"] += r.end.get("switches", 0)
        st["attempts"] += r.sites.get("llg_solver", 0)
        for _, f in r.fired:
            k = " ".join(x for x in f.split()[:3] if not x.isdigit())
            st["faults"][k] = st["faults"].get(k, 0) + 1
        return r

    def close(self):
        for z in self.z.values():
            z.close()
        self.z = {}
        shutil.rmtree(self.dir, ignore_errors=True)
