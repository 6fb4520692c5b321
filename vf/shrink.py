"""Generic minimisation steps on cases."""
import copy, json


def drop_faults(case, key="plan"):
    """Plans with one fault less."""
    plan = case.get(key) or {}
    for k in ("fs", "sig", "mallocfail", "solverfail", "clockjump", "pre"):
        v = plan.get(k)
        if v:
            n = len(v)
            if n > 4:
                for a, b in ((0, n // 2), (n // 2, n)):
                    c = copy.deepcopy(case)
                    c[key][k] = v[:a] + v[b:]
                    yield c
            for i in range(min(n, 40)):
                c = copy.deepcopy(case)
                c[key][k] = v[:i] + v[i + 1:]
                yield c
    for k in ("hostfail", "fill", "stackfill"):
        if k in plan:
            c = copy.deepcopy(case)
            del c[key][k]
            yield c


def scenario(case, key="sc"):
    """Simpler scenarios."""
    sc = case[key]
    cfg = sc["cfg"]

    def mk(f):
        c = copy.deepcopy(case)
        if f(c[key]) is False:
            return None
        return c if json.dumps(c, sort_keys=True) != json.dumps(case, sort_keys=True) else None

    def shorter(s):
        o = s["cfg"]["outputs"]
        n = round(o["final_time"] / o["evol_time_step"])
        if n <= 1:
            return False
        o["final_time"] = float("%.12g" % (o["evol_time_step"] * (n // 2)))

    def nometa(s):
        s["cfg"]["outputs"].pop("metadata", None)

    def quiet(s):
        s["args"] = [a for a in s["args"] if a != "-v"]

    def constf(s):
        import scen
        s["field"] = {"kind": "zero"}
        s["cfg"]["Bext"] = scen.field_cfg(s["field"])

    def noan(s):
        for v in s["cfg"]["mesh"]["volume_regions"].values():
            for k in ("K", "uk", "K3", "ex", "ey", "ez"):
                v.pop(k, None)

    def cols(s):
        s["cfg"]["outputs"]["evol_columns"] = ["t", "<Mx>", "<My>", "<Mz>", "E_tot"]

    def smaller(s):
        m = s["mesh"]
        for d in range(3):
            if d != m["axis"] and m["n"][d] > 1:
                m["n"][d] -= 1
                return
        return False

    for f in (shorter, smaller, nometa, quiet, constf, noan, cols):
        c = mk(f)
        if c is not None:
            yield c
