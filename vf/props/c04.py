"""C04: a polite signal stops the run at the next step boundary with the last accepted state saved."""
import random
import common as C, scen, shrink
from harness import Check, Out

SIGS = [2, 15]


class P(Check):
    id = "C04"
    quick_n, thorough_n = 2500, 20000
    rule = ("a case counts as non-trivial when a signal was caught by the program's handler and interrupted the time "
            "integration; distinct by (signal, kind of instant, what was happening, attempts and rejections before it, saving on or off)")
    assumptions = ["signals arrive at simulator events (allocations, clock reads, file operations, parallel regions, hooks), "
                   "between two machine instructions of the program's main thread; a signal that interrupts a blocked system call is not modelled"]

    def case(self, seed, i, tier):
        r = random.Random("C04/%d/%d" % (seed, i))
        sc = scen.generate("C04/%d/%d" % (seed, i), size=r.choice(["tiny", "small"]), spin=r.random() < 0.15,
                           nout=r.randint(2, 6), tol=1e-8)
        if r.random() < 0.2:
            sc["cfg"]["outputs"]["mag_config_every"] = False
        if r.random() < 0.5:   # provoke rejections
            scen.provoke(sc, r)
        fail = []
        if r.random() < 0.5:
            for _ in range(r.randint(1, 4)):
                a = r.randint(1, 25)
                fail.append(["llg_solver", a, a + r.choice([0, 0, 1, 3])])
        sig = [[r.choice(SIGS), r.choice(["hook", "hook", "reject", "reject", "malloc", "clock", "region", "fsop"]), r.random()]]
        if r.random() < 0.25:
            sig.append([r.choice(SIGS), r.choice(["hook", "malloc", "fsop", "region"]), min(0.999999, sig[0][2] + r.random() * 0.02)])
        if r.random() < 0.15:   # near the end, where the run may already be done
            sig[0][2] = 1 - r.random() * 0.02
        return {"sc": sc, "fail": fail, "sig": sig}

    def run(self, R, case):
        o = Out()
        sc = case["sc"]
        files = scen.files_of(sc)
        ref = R.run(files, scen.plan_of(sc, snap=1, solverfail=case["fail"], maxattempts=4000))
        cnt = {"hook": ref.end.get("hooks", 0), "malloc": ref.end.get("malloc", 0), "clock": ref.end.get("clock", 0),
               "region": ref.end.get("regions", 0), "fsop": ref.end.get("fsop", 0)}
        rej = [a.hook for a in C.history(ref) if a.state is None]   # attempts that came to nothing
        sigs = []
        for s, k, f in case["sig"]:
            if k == "reject":
                sigs.append([s, "hook", rej[int(f * len(rej))] if rej else 1 + int(f * cnt["hook"])])
            else:
                sigs.append([s, k, 1 + int(f * cnt[k])])
        r = R.run(files, scen.plan_of(sc, snap=1, solverfail=case["fail"], sig=sigs, maxattempts=4000))
        caught = {}
        first = None
        delivered = set()
        for seq, k, x in r.events:
            if k != "LINE":
                continue
            if x.startswith("SIGNAL-HANDLER "):
                p = x.split()
                caught[int(p[1])] = p[2] == "caught"
            elif x.startswith("FIRED signal "):
                s = int(x.split()[2])
                delivered.add(s)
                if first is None:
                    first = (seq, s, caught.get(s, False))
        if first is None:
            o.key("no signal")
            return o
        seq0, sig0, was_caught = first
        base = scen.base(sc)
        rf, xf = C.masked(ref.files), C.masked(r.files)
        save = bool(sc["cfg"]["outputs"]["mag_config_every"])
        if not was_caught:
            if r.initial is not None:
                o.bad("not-caught", "signal %d arrived during the time integration and was not caught" % sig0)
            return o
        if r.died:
            o.bad("stuck", "the program did not stop after signal %d: %s" % (sig0, r.died))
            return o
        late = [a for a in C.attempts(r) if a[0] > seq0]
        if len(late) > 1:
            o.bad("late", "%d time steps were attempted after signal %d arrived" % (len(late), sig0))
        if r.status[0] == "exit" and r.status == ref.status:
            # nothing was left to interrupt: the run must be as if undisturbed
            if rf != xf:
                o.bad("ignored", "%s although signal %d arrived, and the outputs differ from those of the undisturbed run (%s)"
                      % (C.status_text(r.status), sig0, ", ".join(k for k in sorted(set(rf) | set(xf)) if rf.get(k) != xf.get(k))))
            if len(r.accepted) != len(ref.accepted):
                o.bad("ignored", "%s with %d time steps instead of %d" % (C.status_text(r.status), len(r.accepted), len(ref.accepted)))
            o.key("finished")
            return o
        if r.status[0] != "signal" or r.status[1] not in delivered:
            o.bad("status", "signal %d arrived and the program ended with %s" % (sig0, C.status_text(r.status)))
        last = r.states[-1] if r.states else None
        ae = base + "_at_exit.sol"
        if not save:
            if ae in xf:
                o.bad("unwanted", "%s was written although mag_config_every is false" % ae)
        elif last is not None:
            if ae not in xf:
                o.bad("unsaved", "interrupted by signal %d after %d accepted steps, and no %s was written" % (sig0, len(r.accepted), ae))
            else:
                s = C.Sol(xf[ae])
                if not s.complete(last.n):
                    o.bad("incomplete", "%s is incomplete: %d rows for %d nodes" % (ae, len(s.rows), last.n))
                else:
                    if s.time is None or abs(s.time - last.t) > 1e-6 * abs(last.t):
                        o.bad("time", "%s is dated %s, the last accepted state is at %r" % (ae, s.time, last.t))
                    d = worst(s.u(), last.u)
                    if d > 2e-7:
                        o.bad("state", "%s differs by %.3g from the last accepted state (t=%r)" % (ae, d, last.t))
        # the outputs written before
        o_t = sc["cfg"]["outputs"]["evol_time_step"]
        t0 = r.initial.t
        want = sum(1 for k in range(len(C.Evol(rf[base + ".evol"]).rows)) if k == 0 or t0 + k * o_t <= last.t * (1 + 1e-12))
        ev = xf.get(base + ".evol", b"")
        if not rf[base + ".evol"].startswith(ev):
            o.bad("evol", "%s.evol is not what the undisturbed run wrote up to that time" % base)
        else:
            e = C.Evol(ev)
            if e.torn or len(e.rows) != want:
                o.bad("evol", "%s.evol has %d rows%s, %d output times were reached" % (base, len(e.rows), " and a torn one" if e.torn else "", want))
        for k in sorted(xf):
            if k not in (ae, base + ".evol") and xf[k] != rf.get(k):
                o.bad("files", "%s is not what the undisturbed run wrote" % k)
        h = C.history(r)
        doing = "idle"
        for seq, k, x in r.events:
            if seq >= seq0:
                break
            doing = x.split()[0] if k == "LINE" else x.what
        o.key([sig0, case["sig"][0][1], doing, len(case["sig"]), min(9, sum(1 for a in h if a.state is None)), min(30, len(h)), save])
        return o

    def shrink(self, case):
        import copy
        if len(case["sig"]) > 1:
            for i in range(len(case["sig"])):
                c = copy.deepcopy(case)
                del c["sig"][i]
                yield c
        for i in range(len(case["fail"])):
            c = copy.deepcopy(case)
            del c["fail"][i]
            yield c
        yield from shrink.scenario(case)


def worst(a, b):
    import numpy as np
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return float("inf")
    d = np.abs(np.where(na, 0, a) - np.where(nb, 0, b))
    return float(d.max()) if d.size else 0.0


CHECK = P()
