"""What the demonstrations share: builds feellgood from the current directory (a stand-in replaces the
fast multipole library, which is not installed), makes meshes, runs, reads outputs.  All in a scratch
directory that is removed at the end."""
import atexit, math, os, re, shutil, signal, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import meshgen

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
W = tempfile.mkdtemp(prefix="fgdemo-")
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
sys.dont_write_bytecode = True


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("the demonstration could not be built")
        sys.exit(3)
    return r.stdout


def config(src):
    t = open(os.path.join(REPO, "src", "config.h.in")).read()
    t = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 0", t)
    t = re.sub(r"#cmakedefine\s+(\w+).*", "", t)
    open(os.path.join(src, "config.h"), "w").write(re.sub(r"@\w+@", "demo", t))


def copy_src():
    src = os.path.join(W, "src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(REPO, "src"), src, ignore=lambda d, n: [x for x in n if x.startswith("CMake") or x == "config.h" or x.endswith(".o")])
        config(src)
    return src


FLAGS = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-fopenmp", "-w", "-pipe"]


def build(hooks=False, flags=()):
    src = copy_src()
    sh(["ld", "-r", "-b", "binary", "-z", "noexecstack", "default-settings.yml", "-o", W + "/defaults.o"], cwd=src)
    inc = ["-I" + src, "-I" + HERE + "/stub", "-I/usr/include/eigen3"]
    fl = FLAGS + list(flags) + (["-DFEELLGOOD_SIM"] if hooks else [])
    jobs, objs = [], [W + "/defaults.o"]
    files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".cpp")]
    if hooks:
        files.append(os.path.join(HERE, "hooks.cpp"))
    for f in files:
        o = os.path.join(W, os.path.basename(f) + ".o")
        objs.append(o)
        jobs.append(["g++"] + fl + inc + ["-c", f, "-o", o])
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))
    exe = os.path.join(W, "feellgood")
    sh(["g++", "-fopenmp", "-o", exe] + list(flags) + objs + ["-lyaml-cpp", "-lduktape", "-lann", "-lgmsh", "-ltbb", "-ldl", "-lpthread"])
    return exe


def preload(c):
    """Compiles a library to be preloaded."""
    p = os.path.join(W, "pre%d" % len(os.listdir(W)))
    open(p + ".c", "w").write(c)
    sh(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", p + ".so", p + ".c", "-ldl"])
    return p + ".so"


class Run:
    pass


def run(exe, files, args=("settings.yml",), env=None, stdin=None, timeout=120, keep=None, prefix=(), during=None):
    d = keep or tempfile.mkdtemp(dir=W)
    for k, v in files.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(v)
    e = dict(os.environ, HOME=d, XDG_CONFIG_HOME=d + "/xdg", **(env or {}))
    p = subprocess.Popen(list(prefix) + [exe] + list(args), cwd=d, env=e, stdin=subprocess.PIPE, stdout=open(d + "/.out", "w"),
                         stderr=open(d + "/.err", "w"), text=True)
    if stdin is not None:
        p.stdin.write(stdin)
    p.stdin.close()
    if during:
        during(p, d)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    r = Run()
    r.dir, r.status = d, p.returncode
    r.out, r.err = open(d + "/.out").read(), open(d + "/.err").read()
    return r


def evol(path):
    rows, cols, head = [], None, []
    for l in open(path):
        if l.startswith("## columns:"):
            cols = l[len("## columns:"):].strip().split("\t")
        elif l.startswith("#"):
            head.append(l.rstrip("\n"))
        elif l.endswith("\n"):
            rows.append([float(x) for x in l.split("\t")])
    return cols, rows, head


def sol(path):
    t, rows = None, []
    for l in open(path):
        if l.startswith("## time:"):
            t = float(l[8:])
        elif not l.startswith("#"):
            rows.append([float(x) for x in l.split("\t")])
    return t, rows


def states(path):
    r = []
    for l in open(path):
        f = l.split()
        r.append((f[0], float(f[1]), float(f[2]), [float(x) for x in f[3:]]))
    return r


SETTINGS = """outputs:
  directory: out
  file_basename: sim
  evol_time_step: {step}
  final_time: {tf}
  evol_columns: [{cols}]
  mag_config_every: {every}
mesh:
  filename: mesh.msh
  length_unit: 1e-9
  volume_regions:
{vols}
  surface_regions:
{surfs}
initial_magnetization: {mag}
Bext: {bext}
recentering: {{enable: {rec}, direction: {rdir}, threshold: {rthr}}}
spin_accumulation: {{enable: {spin}, V_file: {vfile}}}
finite_element_solver: {{max(iter): {maxiter}, tolerance: {tol}}}
demagnetizing_field_solver: {{nb_threads: 1}}
time_integration: {{max(du): {dumax}, min(dt): {dtmin}, max(dt): {dtmax}}}
"""


def settings(**k):
    d = dict(step="1e-12", tf="5e-12", cols="t, <Mx>, <My>, <Mz>, E_tot", every="false", mag='["1", "0.2", "0.1"]', bext='["0", "0", "0.5"]',
             rec="false", rdir="Z", rthr="0.1", spin="false", vfile="false", maxiter=500, tol="1e-10", dumax=0.1, dtmin="1e-16", dtmax="1e-13",
             vols={"vol": "{Ae: 1e-11, Ms: 8e5, alpha_LLG: 0.5}"}, surfs={})
    d.update(k)
    d["vols"] = "\n".join("    %s: %s" % i for i in d["vols"].items())
    d["surfs"] = "\n".join("    %s: %s" % i for i in d["surfs"].items())
    return SETTINGS.format(**d)


def fail(msg):
    print("FAILED: " + msg)
    sys.exit(1)
