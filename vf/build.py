"""Builds the simulated program from /repo's working tree (offline, outside /repo)."""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FG_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else os.path.join(REPO, "build-sim")   # another tree: development only
CXX = "/usr/bin/g++"
GUARD = "FEELLGOOD_SIM"


class BuildError(Exception):
    pass


def _sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _tree_files():
    src = os.path.join(REPO, "src")
    out = []
    for d, dn, fn in os.walk(src):
        dn[:] = [x for x in dn if x not in ("CMakeFiles",)]
        for f in fn:
            if f.endswith((".cpp", ".h", ".hpp", ".in", ".yml", ".inl", ".txt")) and f not in ("config.h",):
                out.append(os.path.relpath(os.path.join(d, f), src))
    return sorted(out)


def _config_h(text, defs):
    def cm01(m):
        return "#define %s %d" % (m.group(1), 1 if defs.get(m.group(1)) else 0)
    text = re.sub(r"#cmakedefine01\s+(\w+)", cm01, text)
    text = re.sub(r"#cmakedefine\s+(\w+).*", lambda m: ("#define %s" % m.group(1)) if defs.get(m.group(1)) else "", text)
    text = text.replace("@FEELLGOOD_VERSION@", "simulated")
    return re.sub(r"@(\w+)@", lambda m: str(defs.get(m.group(1), "")), text)


def sources():
    """The .cpp files of the feellgood executable: as listed in src/CMakeLists.txt, else all."""
    src = os.path.join(REPO, "src")
    allc = sorted(f for f in os.listdir(src) if f.endswith(".cpp"))
    return allc


VARIANTS = {
    # name: (extra compile flags, instrumented, config options, sources of the driver)
    "plain": (["-O1"], False, {}),
    "race": (["-O1", "-fsanitize=thread"], True, {}),
    "gauss1": (["-O1"], False, {"ONE_GAUSS_POINT": 1}),
    "first": (["-O1"], False, {"FIRST_ORDER": 1}),
    "checked": (["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(SIM, "checked.h")], True, {}),
}
COMMON = ["-std=c++17", "-g0", "-DNDEBUG", "-D" + GUARD, "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-fopenmp", "-w", "-pipe"]
LIBS = ["-lyaml-cpp", "-lduktape", "-lann", "-lgmsh", "-ldl", "-lpthread"]


COLD = ("settings.cpp", "read.cpp", "main.cpp", "expression_parser.cpp", "chronometer.cpp", "tags.cpp", "recentering.cpp", "save.cpp")


def build(variant="plain", driver=None, quiet=True):
    """Returns the path of the simulator executable.  driver: a .cpp of /verif/sim that replaces
    the program's main() (it must define feellgood_main)."""
    flags, instr, defs = VARIANTS[variant]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    files = _tree_files()
    h = hashlib.sha256()
    contents = {}
    for f in files:
        with open(os.path.join(REPO, "src", f), "rb") as fd:
            contents[f] = fd.read()
        h.update(f.encode() + b"\0" + contents[f] + b"\0")
    for d, dn, fn in os.walk(SIM):
        for f in sorted(fn):
            p = os.path.join(d, f)
            h.update(f.encode())
            with open(p, "rb") as fd:
                h.update(fd.read())
    with open(os.path.abspath(__file__), "rb") as fd:
        h.update(fd.read())
    h.update(repr((variant, driver, flags, COMMON, LIBS)).encode())
    key = h.hexdigest()[:16]
    out = os.path.join(BUILD, "%s%s-%s" % (variant, "-" + driver if driver else "", key))
    exe = os.path.join(out, "simfg")
    lock = open(os.path.join(BUILD, ".lock-" + variant + (driver or "")), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe):
            return exe
        # old builds of this variant
        for d in os.listdir(BUILD):
            if d.startswith(variant + ("-" + driver if driver else "") + "-") and os.path.isdir(os.path.join(BUILD, d)) \
                    and re.fullmatch(re.escape(variant + ("-" + driver if driver else "")) + r"-[0-9a-f]{16}", d):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        srcdir = os.path.join(out, "src")
        for f, c in contents.items():
            p = os.path.join(srcdir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fd:
                fd.write(c)
        with open(os.path.join(srcdir, "config.h"), "w") as fd:
            fd.write(_config_h(contents["config.h.in"].decode(), defs))
        _sh(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", "default-settings.o"], cwd=srcdir)
        inc = ["-I" + srcdir, "-I" + out, "-I" + os.path.join(SIM, "stub"), "-I/usr/include/eigen3", "-I" + SIM]
        jobs = []
        objs = [] if driver else [os.path.join(srcdir, "default-settings.o")]
        for f in sorted(x for x in contents if x.endswith(".cpp")):
            if driver:   # the drivers use headers only
                continue
            o = os.path.join(out, f.replace("/", "_") + ".o")
            objs.append(o)
            fl = flags if instr or f not in COLD else ["-O0"]
            jobs.append([CXX] + COMMON + fl + ["-Dmain=feellgood_main", "-include", os.path.join(SIM, "simpstl.h")]
                        + inc + ["-c", os.path.join(srcdir, f), "-o", o])
        if driver:
            o = os.path.join(out, "driver.o")
            objs.append(o)
            jobs.append([CXX] + COMMON + flags + ["-include", os.path.join(SIM, "simpstl.h")] + inc
                        + ["-c", os.path.join(SIM, driver + ".cpp"), "-o", o])
        for f in ["simrt.cpp"] + (["tsanrt.cpp"] if variant == "race" else []):
            o = os.path.join(out, "rt_" + f + ".o")
            objs.append(o)
            jobs.append([CXX, "-std=c++17", "-g1", "-O2", "-w", "-fno-builtin-malloc"] + (["-DFG_SIM_CHECKED"] if variant == "checked" else []) + ["-I" + SIM, "-c", os.path.join(SIM, f), "-o", o])
        # the big ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(_sh, jobs))
        try:
            _sh([CXX, "-rdynamic", "-fopenmp"] + (["-fsanitize=address,undefined"] if variant == "checked" else []) + ["-o", exe + ".tmp"] + objs + LIBS)
        except BuildError:
            if not driver:
                raise
            # the headers have moved code to source files: take these too
            more = []
            for f in sorted(x for x in contents if x.endswith(".cpp") and x != "main.cpp"):
                o = os.path.join(out, f.replace("/", "_") + ".o")
                more.append([CXX] + COMMON + flags + ["-include", os.path.join(SIM, "simpstl.h")] + inc + ["-c", os.path.join(srcdir, f), "-o", o])
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                list(ex.map(_sh, more))
            objs += [j[-1] for j in more] + [os.path.join(srcdir, "default-settings.o")]
            _sh([CXX, "-rdynamic", "-fopenmp"] + (["-fsanitize=address,undefined"] if variant == "checked" else []) + ["-o", exe + ".tmp"] + objs + LIBS)
        os.rename(exe + ".tmp", exe)
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if not quiet:
            print("built %s in %.1f s" % (out, time.time() - t0))
        return exe
    finally:
        lock.close()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        v, _, d = v.partition(":")
        print(build(v, d or None, quiet=False))
