"""Plumbing shared by all checks: build from /repo, run TLC, render scenarios as driver
scripts and configuration files, collect traces, report.  It decides nothing: plans,
expected values and acceptance all come from the TLA+ modules in /verif/spec."""
import concurrent.futures as cf, copy, hashlib, json, math, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TH = REPO + "/src/thunder"
CAS = "/opt/thunder_deps/py/casadi"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class ToolError(Exception):
    pass


class Violation(Exception):
    """(what, payload): the code under test cannot even be built or run for this property"""


def run(cmd, timeout=600, cwd=None, env=None, check=True):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd[:6]))
    if check and p.returncode != 0:
        raise ToolError("exit %d: %s\n%s" % (p.returncode, " ".join(cmd)[:400], p.stdout[-3000:]))
    return p


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("VP_SCRATCH", "/tmp"))
        self.ev = os.path.join(VERIF, "evidence")
        os.makedirs(self.ev, exist_ok=True)
        self.states = self.transitions = self.traces = self.violations = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.rejects = []
        self.log = []
        self.models = []
        self.bins = {}

    def note(self, s):
        print("[%6.1fs] %s" % (time.time() - self.t0, s), flush=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def sub(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(p, exist_ok=True)
        return p


# ----------------------------------------------------------------- building
INC = ["-I" + TH + "/library", "-I" + CAS + "/include"]
CASDEF = ["-DCASADI_SNPRINTF=snprintf", "-DCASADI_WITH_THREADSAFE_SYMBOLICS", "-DCASADI_WITH_THREAD"]
LINK = ["-L" + CAS, "-lcasadi", "-Wl,-rpath," + CAS, "-lyaml-cpp", "-lpthread", "-ldl", "-lstdc++fs"]


def par(jobs, fn):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(fn, jobs))


def build_java(c):
    d = c.sub("cls")
    run(["javac", "-cp", TLA.split(":")[0], "-d", d, VERIF + "/java/Rat.java", VERIF + "/java/Alg.java"])
    return d


def ensure_template():
    t = "/usr/local/share/thunder_dynamics/thunder_robot_template"
    if not os.path.exists(t):
        os.makedirs(os.path.dirname(t), exist_ok=True)
        if os.path.islink(t):
            os.unlink(t)
        os.symlink(TH + "/thunder_robot_template", t)


def build(c, need=("drv",)):
    """Compile /repo's library with the driver and/or the command line tool, and the Java overrides."""
    o = c.sub("obj")
    srcs = sorted(f for f in os.listdir(TH + "/src") if f.endswith(".cpp"))
    jobs = [("lib_" + f[:-4], TH + "/src/" + f, []) for f in srcs if f != "userDefined.cpp"]
    jobs.append(("userdef", VERIF + "/harness/userdef.cpp", []))
    jobs.append(("udexample", TH + "/src/userDefined.cpp", ["-Dcompute_userDefined=shipped_userDefined"]))
    if "odrv" in need:
        jobs.append(("odrv", VERIF + "/harness/objdrv.cpp", []))
    if "tdrv" in need:
        jobs.append(("tdrv", VERIF + "/harness/objdrv.cpp", ["-fsanitize=thread", "-g"]))
    if "drv" in need:
        jobs.append(("drv", VERIF + "/harness/libdrv.cpp", []))
    if "cli" in need:
        jobs.append(("main", TH + "/thunder_main.cpp", []))
    if "cliorig" in need:
        jobs.append(("main", TH + "/thunder_main.cpp", []))
        jobs.append(("udorig", TH + "/src/userDefined.cpp", []))

    def one(j):
        if j == "java":
            return ("java", build_java(c))
        n, s, x = j
        p = run(["g++", "-std=c++17", "-O0", "-w"] + CASDEF + INC + ["-I" + VERIF + "/harness", "-c", s, "-o", "%s/%s.o" % (o, n)] + x, check=False)
        return (n, p)
    big = {"lib_robot": 0, "drv": 1, "main": 2, "lib_utils": 3}
    jobs.sort(key=lambda j: big.get(j[0], 9))
    res = dict(par(["java"] + jobs, one))
    c.bins["cls"] = res.pop("java")
    bad = [n for n, p in res.items() if p.returncode]
    if bad:
        raise ToolError("cannot compile: " + ", ".join(bad) + "\n" + "\n".join(res[n].stdout[-1500:] for n in bad))
    lib = [o + "/" + n + ".o" for n in res if n.startswith("lib_")]
    links = []
    if "drv" in need:
        links.append(("drv", lib + [o + "/userdef.o", o + "/udexample.o", o + "/drv.o"]))
    if "cli" in need:
        links.append(("thunder", lib + [o + "/userdef.o", o + "/udexample.o", o + "/main.o"]))
    for n in ("odrv", "tdrv"):
        if n in need:
            links.append((n, [o + "/%s.o" % n, "-lyaml-cpp"] + (["-fsanitize=thread"] if n == "tdrv" else [])))
    if "cliorig" in need:
        links.append(("thunder_orig", lib + [o + "/udorig.o", o + "/main.o"]))
    for n, p in zip([l[0] for l in links], par(links, lambda l: run(["g++", "-o", c.path("bin", l[0])] + l[1] + LINK, check=False))):
        if p.returncode:
            raise ToolError("cannot link %s\n%s" % (n, p.stdout[-2000:]))
        c.bins[n] = c.path("bin", n)
    if "cli" in need or "cliorig" in need:
        ensure_template()
        c.bins["pch"] = build_pch(c)
    c.note("built " + ", ".join(l[0] for l in links))


# ----------------------------------------------------------------- generated robots
STUB = VERIF + "/harness/pybind_stub"
GENINC = ["-I" + VERIF + "/harness", "-I" + TH + "/library"]


def build_pch(c):
    """Precompiled header for the generated wrappers."""
    d = c.sub("pch")
    open(d + "/pre.h", "w").write("#include <iostream>\n#include <string>\n#include <cmath>\n#include <eigen3/Eigen/Dense>\n#include <yaml-cpp/yaml.h>\n#include <fstream>\n#include <functional>\n#include <map>\n")
    run(["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-x", "c++-header", d + "/pre.h", "-o", d + "/pre.h.gch"])
    return d


def thunder(c, args, cwd, exe="thunder", timeout=120):
    try:
        return subprocess.run([c.bins[exe], "gen"] + args, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, HOME=c.dir))
    except subprocess.TimeoutExpired:
        return None


def make_lib(c, key, cfg, names, gate="", exe="thunder", name="rob", opts=()):
    """Generate the class for cfg with the command line tool and compile it into a shared library.
    Returns (path, None) or (None, what failed)."""
    d = c.sub("lib_" + key)
    open(d + "/%s.yaml" % name, "w").write(yaml_of(cfg))
    p = thunder(c, ["%s.yaml" % name] + list(opts), d, exe)
    g = d + "/%s_generatedFiles" % name
    need = ["%s/%s_gen.cpp" % (g, name), "%s/%s_gen.h" % (g, name), "%s/thunder_%s.cpp" % (g, name), "%s/thunder_%s.h" % (g, name)]
    if p is None or p.returncode not in (0, 1) or any(not os.path.exists(f) for f in need):
        return None, "generator: exit %s %s" % (p and p.returncode, (p.stdout if p else "timeout")[-300:])
    return compile_lib(c, d, g, name, names, gate)


def compile_lib(c, d, g, name, names, gate=""):
    """gate: "g" puts gates around the generated functions, "t" also compiles with the thread sanitizer."""
    w, err = compile_robot(c, d, g, name, names, gate)
    if err:
        return None, err
    so = d + "/lib.so"
    err = link_robots([d], so, ["-fsanitize=thread"] if gate == "t" else [], w)
    if err:
        return None, err
    offered(so, name)
    return so, None


def attempt(j):
    """Run a compiler; once more if it fails (memory)."""
    for k in (1, 2):
        p = run(j, check=False)
        if p.returncode == 0:
            return None
    return p.stdout[-600:]


def compile_robot(c, d, g, name, names, gate="", maker="vp_make"):
    """The generated files of a robot (directory g) with the adaptor, as object files in d."""
    san = ["-fsanitize=thread", "-g"] if gate == "t" else []
    pch = [] if gate == "t" else ["-I" + c.bins["pch"], "-include", "pre.h"]
    w = []
    bad = attempt((["g++"] if san else ["clang++"]) + ["-std=c++17", "-O0", "-w", "-fPIC"] + san + ["-I" + g, "-c", "%s/%s_gen.cpp" % (g, name), "-o", d + "/gen.o"])
    if bad:
        return w, "generated code does not compile: " + bad
    if gate:
        syms = set(re.findall(r" T (\w+)$", run(["nm", "--defined-only", d + "/gen.o"]).stdout, re.M))
        w = sorted(s for s in syms if s + "_n_in" in syms and s + "_work" in syms)
    open(d + "/names.inc", "w").write("".join("F(%s)\n" % n for n in names) + "".join("W(%s)\n" % n for n in w))
    bad = attempt(["g++", "-std=c++17", "-O0", "-w", "-fPIC"] + san + pch + ["-I" + g, "-DCLS=thunder_" + name, "-DNAMEFIELD=%sName" % name, "-DVP_MAKE=" + maker,
                   '-DWRAPPER="thunder_%s.cpp"' % name, '-DFNS="names.inc"', "-I" + d] + (["-DVP_GATE"] if gate else []) + GENINC + ["-I" + STUB + "/include", "-c", VERIF + "/harness/adaptor.cpp", "-o", d + "/wrap.o"])
    return w, bad and "generated class does not compile: " + bad


def link_robots(ds, so, extra=(), w=()):
    bad = attempt(["g++", "-shared"] + list(extra) + ["-o", so] + [d + "/" + o for d in ds for o in ("wrap.o", "gen.o")] + ["-lyaml-cpp", "-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + n for n in w])
    return bad and "generated robots do not link: " + bad


def offered(so, name, fns=None):
    """Names of the functions that the class in a library has, for the driver."""
    nm = run(["nm", "-DC", "--defined-only", so]).stdout
    f = {m for m in re.findall(r"\bthunder_%s::get_(\w+)\(\)" % name, nm)} - PLAINGET
    open((fns or so) + ".fns", "w").write("\n".join(sorted(f)) + "\n")


PLAINGET = {"par_" + p for p in ("REG", "DYN", "K", "D", "Dm", "Mm", "Dl", "DHtable", "gravity", "world2L0", "Ln2EE")} | {"numJoints", "numParDYN", "numParREG"}


def make_libs(c, scens, gate="", exe="thunder"):
    """One library per distinct configuration of which a scenario makes objects."""
    if "pch" not in c.bins:
        c.bins["pch"] = build_pch(c)
    want, names = {}, {}
    for sc in scens:
        for e in sc["ev"]:
            if e["op"] == "onew":
                t = yaml_of(sc["cfgs"][e["ci"] - 1])
                k = want.setdefault(t, (len(want), sc["cfgs"][e["ci"] - 1], sc["id"]))
                e["lib"] = "%s/lib_%s%d/lib.so" % (c.dir, gate or "p", k[0])
        used = {f for e in sc["ev"] if e["op"] in ("oeval", "teval") for f in e["fs"]}
        lib = {e["ci"]: e["lib"] for e in sc["ev"] if e["op"] == "onew"}
        for e in sc["ev"]:
            if e["op"] == "onew":
                names.setdefault(e["lib"], set()).update(used)
            if e["op"] in ("cas", "genfiles"):
                e["gen"] = os.path.dirname(lib[e["ci"]]) + "/rob_generatedFiles"
                if e["op"] == "cas":
                    e["path"] = e["gen"] + "/" + e["f"] + ".casadi"
    jobs = list(want.values())
    jobs.sort(key=lambda j: -j[1]["nj"])

    def one(j):
        k = "%s%d" % (gate or "p", j[0])
        return make_lib(c, k, j[1], sorted(names["%s/lib_%s/lib.so" % (c.dir, k)]), gate, exe, opts=["-f"])
    res = par(jobs, one)
    c.note("%d generated robots compiled" % len(jobs))
    failed = False
    for j, (so, err) in zip(jobs, res):
        if err:
            failed = True
            report(c, {"id": j[2], "l": 0, "op": "generate", "bad": [err]}, {"cfgs": [j[1]]})
    c.extra["robots_generated"] = c.extra.get("robots_generated", 0) + len(jobs)
    if failed:
        bad = {"%s/lib_%s%d/lib.so" % (c.dir, gate or "p", j[0]) for j, (so, err) in zip(jobs, res) if err}
        scens[:] = [s for s in scens if not any(e.get("lib") in bad for e in s["ev"])]
    return not failed


def cmake_module(c, g, b):
    """Build a generated Python module with its own CMakeLists.txt, against the stand-in for pybind11."""
    dirs = ["-Dpybind11_DIR=" + STUB + "/cmake", "-Dyaml-cpp_DIR=" + STUB + "/cmake", "-DPython_DIR=" + STUB + "/cmake", "-DCMAKE_FIND_PACKAGE_PREFER_CONFIG=ON", "-DFETCHCONTENT_SOURCE_DIR_YAML-CPP=" + STUB + "/fetched"]
    for cmd in (["cmake", "-G", "Ninja", "-S", g, "-B", b, "-DCMAKE_CXX_FLAGS=-O0 -w", "-DCMAKE_BUILD_TYPE="] + dirs, ["cmake", "--build", b, "-j", "2"]):
        for attempt in (1, 2):
            p = run(cmd, check=False)
            if p.returncode == 0:
                break
        if p.returncode:
            return "module cannot be built: " + p.stdout[-600:]
    return None


def make_pymods(c, scens):
    """The Python module of every robot of which a scenario makes objects through Python."""
    jobs = []
    for sc in scens:
        for e in sc["ev"]:
            if e["op"] == "pynew":
                d = "%s/py_%s" % (c.dir, sc["id"])
                e["lib"] = "%s/b/thunder_%s_py.so" % (d, e["name"])
        x = [(e["name"], sc["cfgs"][e["ci"] - 1]) for e in sc["ev"] if e["op"] == "pynew"][0]
        jobs.append((sc["id"],) + x)

    def one(j):
        sid, n, cfg = j
        d = c.sub("py_" + sid)
        open(d + "/%s.yaml" % n, "w").write(yaml_of(cfg))
        p = thunder(c, ["%s.yaml" % n, "-p"], d)
        if p is None or p.returncode not in (0, 1):
            return "generator: exit %s" % (p and p.returncode)
        return cmake_module(c, "%s/%s_generatedFiles" % (d, n), d + "/b")
    res = par(jobs, one)
    c.note("%d Python modules built" % len(jobs))
    c.extra["modules_built"] = len(jobs)
    for j, err in zip(jobs, res):
        if err:
            report(c, {"id": j[0], "l": 0, "op": "generate", "bad": [err]}, {"cfgs": [j[2]]})
    scens[:] = [s for s, err in zip(scens, res) if not err]


# ----------------------------------------------------------------- runs of the generator
def digest(root):
    t = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            t[os.path.relpath(p, root)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:12]
    return t


TEMPLATE = "/usr/local/share/thunder_dynamics/thunder_robot_template/"


def make_fs(c, scens):
    """Carry out the file system events of the scenarios, then build what they use."""
    tmpl0 = digest(TEMPLATE)

    def hist(sc):
        root = c.sub("fs_" + sc["id"])
        at = lambda p: os.path.join(root, *p)
        for e in sc["ev"]:
            if e["op"] in ("mkcfg", "mkfile"):
                os.makedirs(os.path.dirname(at(e["path"])), exist_ok=True)
                open(at(e["path"]), "w").write(yaml_of(sc["cfgs"][e["ci"] - 1]) if e["op"] == "mkcfg" else e["text"] + "\n")
            elif e["op"] in ("gen", "genkill", "genbad", "gens"):
                # one run, one that is killed when its directory holds e["at"] new files, or several at the same time
                ps = [start(root, at, g) for g in (e["runs"] if e["op"] == "gens" else [e])]
                if e["op"] == "genkill":
                    out = at(e["cwd"] + [(e["name"] or e["base"]) + "_generatedFiles"])
                    t0 = time.time()
                    while ps[0].poll() is None and time.time() < t0 + 120:
                        if sum(1 for x in (os.scandir(out) if os.path.isdir(out) else ()) if x.stat().st_mtime >= ps[0].vp_t0) >= e["at"]:
                            ps[0].kill()
                        time.sleep(.001)
                ex = []
                for p in ps:
                    try:
                        ex.append(p.wait(120))
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                        ex.append(-99)
                e["exit"] = ex[0] if e["op"] != "gens" else ex
                e["tree"] = digest(root)
                e["tmpl"] = int(digest(TEMPLATE) != tmpl0)

    def start(root, at, e):
        cwd = at(e["cwd"])
        os.makedirs(cwd, exist_ok=True)
        rel = os.path.relpath(at(e["file"]), cwd)
        args = ["gen", [rel, at(e["file"]), "./" + rel][e["abs"]]]
        opts = (["-n", e["name"]] if e["name"] else []) + (["-p"] if e["p"] else []) + (["-f"] if e["f"] else []) + (["-c"] if e["c"] else [])
        args = args + opts if e["abs"] != 1 else args[:1] + opts + args[1:]
        if e.get("args"):
            args = e["args"]
        env = dict(os.environ, HOME=c.dir)
        if not e["home"]:
            del env["HOME"]
        t0 = time.time() - .01
        p = subprocess.Popen([c.bins["thunder"]] + args, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        p.vp_t0 = t0
        return p
    par(scens, hist)
    nruns = sum(len(e["runs"]) if e["op"] == "gens" else e["op"] in ("gen", "genkill", "genbad") for sc in scens for e in sc["ev"])
    c.note("%d runs of the generator" % nruns)
    jobs, groups = [], {}
    for sc in scens:
        root = c.dir + "/fs_" + sc["id"]
        used = {}
        for e in sc["ev"]:
            if e["op"] == "oeval":
                used.setdefault(e["s"], set()).update(e["fs"])
        for e in sc["ev"]:
            if e["op"] == "gnew":
                b = "%s/b%d" % (root, e["s"])
                os.makedirs(b, exist_ok=True)
                gso = "%s/g%d.so" % (root, e["grp"])
                e["lib"] = b + "/lib.so"
                j = dict(sc=sc, d=b, g=os.path.join(root, *e["dir"]), name=e["name"], names=sorted(used.get(e["s"], ())), so=gso)
                jobs.append(j)
                groups.setdefault(gso, []).append(j)
            if e["op"] == "gfiles":
                e["from"] = "%s/%s" % (os.path.join(root, *e["dir"]), e["name"])
            if e["op"] == "gcas":
                e["path"] = os.path.join(root, *e["dir"], e["f"] + ".casadi")

    def one(j):
        j["err"] = compile_robot(c, j["d"], j["g"], j["name"], j["names"], maker="vp_make_" + j["name"])[1]
        # any of them, from any other part of the program
        return j["err"]
    par(jobs, one)

    def link(so):
        js = groups[so]
        err = next((j["err"] for j in js if j["err"]), None)
        if not err:
            t = so[:-3] + "_all.cpp"
            open(t, "w").write("".join('#include "thunder_%s.h"\n' % j["name"] for j in js) +
                               "int vp_all(){ int n = 0; " + "".join("{ thunder_%s r; n += r.get_numJoints(); } " % j["name"] for j in js) + "return n; }\n")
            err = attempt(["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-I" + c.bins["pch"], "-include", "pre.h"] + ["-I" + j["g"] for j in js] + ["-c", t, "-o", t[:-4] + ".o"])
            err = err and "robots cannot be used together: " + err
        err = err or link_robots([j["d"] for j in js], so, [so[:-3] + "_all.o"])
        if not err:
            for j in js:
                os.symlink(so, j["d"] + "/lib.so")
                offered(so, j["name"], j["d"] + "/lib.so")
        return so, err
    for so, err in par(list(groups), link):
        if err:
            sc = groups[so][0]["sc"]
            report(c, {"id": sc["id"], "l": 0, "op": "generate", "bad": [err]}, {"cfgs": sc["cfgs"]})
            sc["ev"] = sc["ev"][:next((i for i, e in enumerate(sc["ev"]) if e["op"] == "gnew"), None)]
    c.note("%d programs with %d robots built" % (len(groups), len(jobs)))
    c.extra["generator_runs"] = nruns
    c.extra["programs_built"] = len(groups)


# ----------------------------------------------------------------- genYAML
GY = REPO + "/src/genYAML"
INERT_KEYS = ["xx", "xy", "xz", "yy", "yz", "zz"]


def build_panda(c):
    """The tool, built by its makefile from a copy of its sources."""
    d = c.sub("genYAML")
    for r, ds, fs in os.walk(GY):
        o = os.path.join(d, os.path.relpath(r, GY))
        os.makedirs(o, exist_ok=True)
        for f in fs:
            if not f.endswith(".o") and not os.access(os.path.join(r, f), os.X_OK):
                shutil.copy(os.path.join(r, f), o)
    env = dict(os.environ, CPLUS_INCLUDE_PATH=CAS + "/include", LIBRARY_PATH=CAS)
    p = run(["make", "-B", "-C", d], env=env, check=False)
    if p.returncode or not os.path.exists(d + "/main_YAML"):
        raise ToolError("cannot build genYAML\n" + p.stdout[-2000:])
    c.bins["panda"] = d + "/main_YAML"


def inertial_yaml(links, f):
    """The tool's input file: bodies with their frames as strings, in some layout."""
    o = ["# bodies"] if f["com"] else []
    sep = [" ", "  ", "   "][f["sp"]]
    for l in links:
        v = [g(num(x, k >= 10)) for k, x in enumerate(l["v"])]
        org = ["  origin:", "    xyz: " + sep.join(v[1:4]), "    rpy: " + sep.join(v[10:13])]
        if f["sp"] == 2:
            org = ["  origin: {rpy: '%s', xyz: \"%s\"}" % (" ".join(v[10:13]), " ".join(v[1:4]))]
        mass = ["  mass: " + v[0]]
        ks = list(zip(INERT_KEYS, v[4:10]))
        if f["order"]:
            ks = [ks[i] for i in ((0, 3, 5, 1, 2, 4) if f["order"] == 1 else (5, 4, 3, 2, 1, 0))]
        ine = ["  inertia:"] + ["    %s: %s" % x for x in ks]
        o += [l["n"] + ":"] + [org + mass + ine, mass + ine + org, ine + org + mass][f["order"]] + ([""] if f["com"] else [])
    return "\n".join(o) + "\n"


def read_inertial(f):
    """The bodies of an input file in the plain layout of the shipped one."""
    links, sec = [], None
    for s in open(f):
        s = s.split("#")[0].rstrip()
        m = re.match(r"(\s*)(\w+):\s*(.*)$", s)
        if not m:
            continue
        if not m.group(1):
            sec = {}
            links.append({"n": m.group(2), "d": sec, "alias": m.group(3)})
        else:
            sec[m.group(2)] = m.group(3)
    out = []
    for l in links:
        d = l["d"]
        if "mass" in d and all(x == 0 for x in map(float, d["rpy"].split())):
            out.append({"n": l["n"], "v": [d["mass"]] + d["xyz"].split() + [d[k] for k in INERT_KEYS] + ["0"] * 3})
    return out


def make_panda(c, scens):
    """Carry out the runs of the tool; the files it wrote are kept run by run."""
    def one(sc):
        root = c.sub("panda_" + sc["id"])
        inp = root + "/w/run/yaml/inertial.yaml"
        os.makedirs(os.path.dirname(inp))
        os.makedirs(root + "/w/generatedFiles")
        snap = ""
        for k, e in enumerate(sc["ev"]):
            if e["op"] == "panda":
                if e["shipped"]:
                    shutil.copy(GY + "/yaml/inertial.yaml", inp)
                    e["links"] = read_inertial(inp)
                else:
                    open(inp, "w").write(inertial_yaml(e["links"], e["fmt"]))
                text = open(inp).read()
                snap = "%s/s%d_" % (root, k)
                e["exit"] = 0
                for r in range(e["reps"]):
                    try:
                        x = subprocess.run([c.bins["panda"]], cwd=root + "/w/run", timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                           env=dict(os.environ, LD_LIBRARY_PATH=CAS)).returncode
                    except subprocess.TimeoutExpired:
                        x = -99
                    e["exit"] = e["exit"] or x
                    shutil.copytree(root + "/w/generatedFiles", snap + str(r + 1))
                e["tree"] = sorted(digest(root + "/w"))
                e["same"] = int(open(inp).read() == text)
            else:
                e["snap"] = snap
    par(scens, one)
    c.extra["tool_runs"] = sum(e["reps"] for sc in scens for e in sc["ev"] if e["op"] == "panda")
    c.note("%d runs of genYAML" % c.extra["tool_runs"])


# ----------------------------------------------------------------- TLC
def tlc(c, module, text=None, cfg="", env=None, timeout=850, workers=None, args=(), heap="12g"):
    d = c.sub("tlc_" + module)
    if text is not None:
        open(d + "/" + module + ".tla", "w").write(text)
    else:
        shutil.copy(VERIF + "/spec/" + module + ".tla", d)
    open(d + "/" + module + ".cfg", "w").write(cfg)
    e = dict(os.environ, VERIF_SEED=str(c.seed), VERIF_TIER=c.tier)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + VERIF + "/spec", "-Djava.io.tmpdir=" + c.sub("jtmp"), "-cp", c.bins["cls"] + ":" + TLA, "tlc2.TLC",
           "-deadlock", "-workers", str(workers or NCPU), "-metadir", c.sub("meta_" + module), "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    p = run(cmd, cwd=d, env=e, timeout=timeout, check=False)
    out = "\n".join(l for l in p.stdout.splitlines() if not re.match(r"(Loading|Parsing|Semantic|Linting) ", l))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out)
    stats = tuple(int(x) for x in m.groups()) if m else (0, 0, 0)
    return p.returncode, out, stats


def plan(c, op, module="Scen", env=None):
    """Let TLC evaluate the scenario plan `op` of a module and write it as JSON lines."""
    f = c.path("plan_%s.json" % op)
    t = "---- MODULE PlanRun ----\nEXTENDS %s\nASSUME ndJsonSerialize(IOEnv.VP_OUT, %s(0))\n====\n" % (module, op)
    rc, out, _ = tlc(c, "PlanRun", t, env=dict(env or {}, VP_OUT=f), workers=1)
    if rc != 0 or not os.path.exists(f):
        raise ToolError("plan failed:\n" + out[-3000:])
    return [json.loads(l) for l in open(f)]


def model(c, module, cfg, env=None, want_min=1, timeout=850, workers=None, args=(), refuted=None):
    """Model-check an explicit specification (no implementation involved).
    refuted: the invariant that TLC has to find violated (a faulty design)."""
    rc, out, st = tlc(c, module, None, cfg, env=env, timeout=timeout, workers=workers, args=args)
    if refuted:
        if rc != 12 or "Invariant %s is violated" % refuted not in out:
            raise ToolError("model %s: %s was not refuted (exit %d):\n%s" % (module, refuted, rc, out[-2000:]))
        c.models.append({"module": module, "faulty_design_refuted": refuted})
        return out
    if rc != 0 or (st[1] < want_min):
        raise ToolError("model %s not accepted by TLC (exit %d):\n%s" % (module, rc, out[-4000:]))
    c.states += st[1]
    c.transitions += st[0]
    c.models.append({"module": module, "states": st[1], "transitions": st[0]})
    c.note("model %s: %d distinct states" % (module, st[1]))
    return out


def tours(c, module, consts, prop, size=220):
    """Model-check a state machine completely and return walks through its graph, as
    scenarios, that together make every call in every reachable state."""
    cfg = "SPECIFICATION Spec\nCONSTANTS %s\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Sizes\nPROPERTY Relied\n" % consts
    out = model(c, module, cfg, workers=1, want_min=5)
    start, edges = None, {}
    for l in out.split("\n"):
        if l.startswith('"START ') or l.startswith('"EDGE '):
            k, x = json.loads(l).split(" ", 1)
            x = json.loads(x)
            if k == "START":
                start = x
            else:
                edges.setdefault(x["f"], {}).setdefault(json.dumps(x["e"], sort_keys=True), (x["e"], x["t"]))
    graph = {f: list(m.values()) for f, m in edges.items()}
    todo = {f: list(range(len(m))) for f, m in graph.items()}
    left = sum(map(len, todo.values()))
    total, walks = left, []

    def nearest(at):     # shortest path to a state in which some call has not been made
        seen, q = {at: None}, [at]
        for x in q:
            if todo.get(x):
                p = []
                while seen[x] is not None:
                    p.append(seen[x][1])
                    x = seen[x][0]
                return p[::-1]
            for e, t in graph.get(x, []):
                if t not in seen:
                    seen[t] = (x, (e, t))
                    q.append(t)
        return None
    while left:
        at, ev, n = start["init"], list(start["pre"]), 0
        while left and n < size:
            p = nearest(at)
            if p is None:
                break
            if not p:
                e, t = graph[at][todo[at].pop(0)]
                left -= 1
                p = [(e, t)]
            for e, t in p:
                ev.append(copy.deepcopy(e))
                at = t
                n += 1
            ev += copy.deepcopy(start["look"])
            if n % 9 == 0:
                ev += copy.deepcopy(start["eval"])
            if n % 25 == 0:
                ev += copy.deepcopy(start["all"])
        if n == 0:
            raise ToolError("tour of %s is stuck" % module)
        walks.append({"id": "%s_%s%d" % (prop, start["id"], len(walks) + 1), "cfgs": copy.deepcopy(start["cfgs"]), "ev": ev + copy.deepcopy(start["all"] + start["eval"])})
    c.models[-1].update({"group": start["id"], "every_transition_replayed": total})
    return walks


# ----------------------------------------------------------------- rendering
def frac(s):
    if "/" in s:
        a, b = s.split("/")
        n, d = int(a), int(b)
        return n / d
    return float(s)


def num(s, ang):
    if ang:
        t, _, k = s.partition("@")
        return math.pi if t == "inf" else 2 * math.atan(frac(t)) + 2 * math.pi * int(k or 0)
    return frac(s)


def g(x):
    return repr(float(x))


def vec(v, k=None):
    k = k or [0] * len(v)
    return "%d %s" % (len(v), " ".join(g(num(a, b)) for a, b in zip(v, k)))


INERT = ["mass", "CoM_x", "CoM_y", "CoM_z", "Ixx", "Ixy", "Ixz", "Iyy", "Iyz", "Izz"]


def sea_idx(cfg):
    return [i for i, t in enumerate(cfg["types"]) if t.endswith("SEA")]


def yaml_of(cfg, secs=None):
    """The configuration file of cfg, laid out as cfg.fmt says.  secs: sections to write."""
    f = cfg["fmt"]
    st = f["style"]
    n = cfg["nj"]

    def fl(x):
        x = float(x)
        if st == 2 and x != 0:
            return "%.17e" % x
        if st == 1 and x == int(x):
            return str(int(x))
        return repr(x)

    def lst(v, ind):
        if st == 1:
            return "\n" + "\n".join(" " * ind + "- " + x for x in v) if v else " []"
        return " [" + ", ".join(v) + "]"

    def nums(v, k, ind):
        return lst([fl(num(a, b)) for a, b in zip(v, k)], ind)

    def mask(m, ind):
        return lst([str(x) for x in m], ind)

    def symb(m):
        return f["symb0"] == 1 or any(m)
    xl = f["xlong"]
    S = {}
    dhk = [1 if i % 4 in (1, 3) else 0 for i in range(4 * n)]
    parts = []
    if symb(cfg["dhs"]):
        parts.append("  symb:" + mask(cfg["dhs"], 4))
    parts.append("  DH:" + nums(cfg["dh"], dhk, 4))
    S["kinematics"] = "kinematics:\n" + "\n".join(parts)
    if not (f["nograv"] and not any(cfg["gravs"]) and all(x == "0" for x in cfg["grav"])):
        parts = []
        if symb(cfg["gravs"]):
            parts.append("  symb:" + mask(cfg["gravs"], 4))
        parts.append("  value:" + nums(cfg["grav"], [0] * 3, 4))
        S["gravity"] = "gravity:\n" + "\n".join(parts)
    for sec, v, m in (("Base_to_L0", "base", "bases"), ("Ln_to_EE", "ee", "ees")):
        parts = []
        if symb(cfg[m]):
            parts.append("  symb:" + mask(cfg[m], 4))
        parts += ["  tr:" + nums(cfg[v][:3], [0] * 3, 4), "  ypr:" + nums(cfg[v][3:], [1] * 3, 4)]
        if f["order"] % 2:
            parts.reverse()
        S[sec] = sec + ":\n" + "\n".join(parts)
    links = []
    dlo = cfg["dlo"]
    for l in range(n + f["xlinks"]):
        x = l >= n
        dyn = cfg["dyn"][10 * l:10 * l + 10] if not x else ["9", "1/3", "1/3", "1/3", "1", "1/9", "1/9", "1", "1/9", "1"]
        ms = cfg["dyns"][10 * l:10 * l + 10] if not x else [1] * 10
        t = "  %s:\n    inertial:\n" % (["link%d", "body_%d"][f["lname"]] % (l + 1))
        rows = ["      %s: %s" % (k, fl(frac(v))) for k, v in zip(INERT, dyn)]
        if symb(ms):
            rows.insert(0 if f["order"] < 2 else len(rows), "      symb:" + mask(ms, 8))
        if f["order"] == 3:
            rows.reverse()
        t += "\n".join(rows)
        if dlo > 0 or not f["nofric"]:
            co = cfg["Dl"][dlo * l:dlo * l + dlo] if not x else ["7"] * dlo
            cm = cfg["Dls"][dlo * l:dlo * l + dlo] if not x else [1] * dlo
            extra = xl + (1 if dlo == 0 else 0)
            absent = dlo > 0 and all(v == "0" for v in co) and not any(cm)
            if not absent:
                t += "\n    friction:"
                fr = []
                if dlo > 0 and symb(cm):
                    fr.append("\n      symb:" + mask(cm + [1] * xl, 8))
                fr.append("\n      Dl:" + nums(co + ["11"] * extra, [0] * (dlo + extra), 8))
                if f["order"] == 1:
                    fr.reverse()
                t += "".join(fr)
        links.append(t)
    S["dynamics"] = "dynamics:\n" + "\n".join(links)
    el = sea_idx(cfg)
    if cfg["elastic"]:
        ko, do, dmo = cfg["ko"], cfg["do"], cfg["dmo"]
        t = "elastic:\n  K_order: %d\n  D_order: %d\n  Dm_order: %d\n  joints:\n" % (ko, do, dmo)
        js = []
        for i in range(len(el) + f["xel"]):
            x = i >= len(el)
            r = []
            for nm, o, v, m in (("K", ko, "K", "Ks"), ("D", do, "D", "Ds"), ("Dm", dmo, "Dm", "Dms")):
                co = cfg[v][o * i:o * i + o] if not x else ["13"] * o
                cm = cfg[m][o * i:o * i + o] if not x else [1] * o
                if o > 0 or f["order"] == 2:
                    if o > 0 and symb(cm):
                        r.append("      %s_symb:" % nm + mask(cm + [1] * xl, 8))
                    r.append("      %s:" % nm + nums(co + ["17"] * xl, [0] * (o + xl), 8))
            mm, mk = ("19", 1) if x else (cfg["Mm"][i], cfg["Mms"][i])
            if symb([mk]):
                r.append("      Mm_symb: %d" % mk)
            r.append("      Mm: " + fl(frac(mm)))
            if f["order"] == 1:
                r.reverse()
            js.append("    %s:\n" % (["joint%d", "motor_%d"][f["lname"]] % (100 + i if x else el[i] + 1)) + "\n".join(r))
        S["elastic"] = t + "\n".join(js)
    elif f["noel"] != 1:
        # an elastic section that is switched off
        S["elastic"] = "elastic:\n  K_order: 2\n  D_order: 1\n  Dm_order: 1\n  joints:\n    joint1:\n      K: [3, 4]\n      D: [5]\n      Dm: [6]\n      Mm: 7"
    head = ["num_joints: %d" % cfg["badnj"],
            "type_joints:" + lst(["'%s'" % t for t in cfg["types"]], 2)]
    if dlo > 0 or not f["nofric"]:
        head.append("Dl_order: %d" % dlo)
    if cfg["elastic"]:
        head.append("ELASTIC_MODEL: true")
    elif f["noel"] == 0:
        head.append("ELASTIC_MODEL: false")
    if cfg["ufs"]:
        S["vp_user"] = "vp_user:\n" + "\n".join("  - {name: %s, x: %s, args: [%s]}" % (u["n"], u["x"], ", ".join(u["args"])) for u in cfg["ufs"] if u["x"] != "dist")
        for u in cfg["ufs"]:
            if u["x"] == "dist":
                S["vp_user"] += "\nq0: [%s]" % ", ".join(u["q0"])
    order = [["kinematics", "gravity", "Base_to_L0", "Ln_to_EE", "dynamics", "elastic"],
             ["dynamics", "elastic", "Ln_to_EE", "Base_to_L0", "gravity", "kinematics"],
             ["gravity", "kinematics", "elastic", "dynamics", "Base_to_L0", "Ln_to_EE"],
             ["Ln_to_EE", "Base_to_L0", "kinematics", "dynamics", "gravity", "elastic"]][f["order"]]
    body = [S[k] for k in order if k in S and (secs is None or k in secs)]
    if "vp_user" in S:
        body.append(S["vp_user"])
    if secs is not None and "head" not in secs:
        return "\n".join(body) + "\n" if body else "{}\n"
    if f["order"] in (0, 2):
        return "\n".join(head + body) + "\n"
    return "\n".join(body + head) + "\n"


def render_event(e, D):
    """One driver line.  D: directory of the scenario's files.  t: the thread that makes the call."""
    l = render_call(e, D)
    return "@%d %s" % (e["t"], l) if "t" in e else l


def render_call(e, D):
    op = e["op"]
    cf_ = lambda i: "%s/cfg%d.yaml" % (D, i)
    fl = lambda n: "%s/%s" % (D, n)
    if op in ("new", "newf", "newb"):
        return "%s %d %s %s" % (op, e["s"], e.get("name", "rob"), cf_(e["ci"]))
    if op == "newbad":
        return "new %d rob %s" % (e["s"], cf_(e["ci"]))
    if op == "newfile":
        return "new %d rob %s" % (e["s"], fl(e["file"]))
    if op in ("copy", "ocopy"):
        return "%s %d %d" % (op, e["s"], e["from"])
    if op in ("del", "fns", "info", "odel", "oresize", "ofns", "oinfo"):
        return "%s %d" % (op, e["s"])
    if op == "mod":
        return "mod %d %s" % (e["s"], e["m"])
    if op in ("set", "setarg"):
        return "%s %d %s %s" % (op, e["s"], e["a"], vec(e["v"], e["k"]))
    if op == "oset":
        return "oset %d %s %d %s" % (e["s"], e["a"], e["upd"], vec(e["v"], e["k"]))
    if op == "osetall":
        return "osetall %d %s" % (e["s"], " ".join(vec(v, k) for v, k in zip(e["vs"], e["ks"])))
    if op in ("getargs", "oget"):
        return "%s %d %d %s" % (op, e["s"], len(e["as"]), " ".join(e["as"]))
    if op in ("eval", "oeval"):
        return "%s %d %d %s" % (op, e["s"], len(e["fs"]), " ".join(e["fs"]))
    if op == "addfn":
        u = e["u"]
        return "addfn %d %s %s %d %d %s" % (e["s"], u["n"], u["x"], int(e["ow"]), len(u["args"]), " ".join(u["args"]))
    if op in ("saveconf", "savereg", "osavereg", "osavedyn", "osavepar"):
        return "%s %d %s" % (op, e["s"], fl(e["file"]))
    if op in ("savepar", "loadpar"):
        return "%s %d %s %d %s" % (op, e["s"], fl(e["file"]), len(e["as"]), " ".join(e["as"]))
    if op == "loadconf":
        return "loadconf %d %s %d" % (e["s"], cf_(e["ci"]), e["upd"])
    if op == "loadconff":
        return "loadconf %d %s %d" % (e["s"], fl(e["file"]), e["upd"])
    if op == "loadreg":
        return "loadreg %d %s %d" % (e["s"], fl(e["file"]), e["upd"])
    if op == "teval":
        return "teval %d %d %d %s" % (e["s"], e["reps"], len(e["fs"]), " ".join(e["fs"]))
    if op == "tset":
        return "tset %d %d %s %d %s %d %s" % (e["s"], e["reps"], e["a"], e["upd"], vec(e["v"], e["k"]), len(e["as"]), " ".join(e["as"]))
    if op == "pynew":
        return "pynew %d %s thunder_%s" % (e["s"], e["lib"], e["name"])
    if op in ("pyinfo", "pymod"):
        return "%s %d" % (op, e["s"])
    if op == "races":
        return op
    if op == "sched":
        return "sched %d %s" % (len(e["order"]), " ".join(map(str, e["order"])))
    if op == "onew":
        return "onew %d %s" % (e["s"], e["lib"])
    if op == "oloadconf":
        return "oloadconf %d %s %d" % (e["s"], fl(e["yaml"]), e["upd"])
    if op == "oloadconff":
        return "oloadconf %d %s %d" % (e["s"], fl(e["file"]), e["upd"])
    if op == "oloadreg":
        return "oloadreg %d %s %d" % (e["s"], fl(e["file"]), e["upd"])
    if op in ("readpar", "readin"):
        return "yaml %s" % fl(e["file"])
    if op == "pread":
        return "yaml %s%d/%s" % (e["snap"], e["rep"], e["file"])
    if op == "ppert":
        return "yamls %d %s" % (e["reps"], " ".join("%s%d/inertial_DH_REG_p%d.yaml" % (e["snap"], r + 1, e["p"]) for r in range(e["reps"])))
    if op == "geninertial":
        return "geninertial rob %d %s %s %s" % (e["nj"], cf_(e["ci"]), fl(e["dynfile"]), fl(e["regfile"]))
    if op in ("mkcfg", "mkfile", "gen", "genkill", "genbad", "gens", "gfiles", "genfiles", "panda"):
        return "genfiles"
    if op == "gnew":
        return "onew %d %s vp_make_%s" % (e["s"], e["lib"], e["name"])
    if op in ("cas", "gcas"):
        return "cas %s %s %d %s" % (e["f"], e["path"], len(e["vs"]), " ".join(vec(v, k) for v, k in zip(e["vs"], e["ks"])))
    if op == "fcon":
        return "fcon %d %d %s %s %s" % (e["s"], e["how"], vec(e["y"], [1, 1, 1]), vec(e["p"], [0] * 3), vec(e["g"], [0] * 3))
    if op == "fbad":
        return "fbad %d %s %s %s" % (e["how"], vec(e["y"], [0] * len(e["y"])), vec(e["p"], [0] * len(e["p"])), vec(e["g"], [0] * len(e["g"])))
    if op == "fcopy":
        return "fcopy %d %d" % (e["s"], e["from"])
    if op == "fset":
        return "fset %d %s %s" % (e["s"], e["a"], vec(e["v"], e["k"]))
    if op == "fget":
        return "fget %d" % e["s"]
    if op == "pure":
        return e["fn"] + " " + " ".join(vec(a["v"], a["k"]) for a in e["args"])
    raise ToolError("cannot render " + op)


def write_cfgs(sc, D):
    for i, cfg in enumerate(sc["cfgs"]):
        open("%s/cfg%d.yaml" % (D, i + 1), "w").write(yaml_of(cfg))
    for k, e in enumerate(sc["ev"]):
        if e["op"] == "oloadconf":
            e["yaml"] = "load%d.yaml" % k
            open("%s/%s" % (D, e["yaml"]), "w").write(yaml_of(sc["cfgs"][e["ci"] - 1], e["secs"]))
        if e["op"] == "genfiles":
            g = e["gen"]
            shutil.copy(g + "/rob_conf.yaml", D + "/" + e["conf"])
            shutil.copy(g + "/rob_par_REG.yaml", D + "/" + e["reg"])
        if e["op"] == "gfiles":
            for k2, suf in (("conf", "_conf.yaml"), ("reg", "_par_REG.yaml")):
                if os.path.exists(e["from"] + suf):
                    shutil.copy(e["from"] + suf, D + "/" + e[k2])


def run_driver(c, scens, tag, drv="drv", env=None, wrap=None):
    """Run the scenarios on the real code; returns them with every event's results."""
    W = c.sub("run_" + tag)
    out = c.sub("out_" + tag)
    lines = []
    for sc in scens:
        D = W + "/" + sc["id"]
        os.makedirs(D, exist_ok=True)
        write_cfgs(sc, D)
        lines.append("scenario " + sc["id"])
        lines += [render_event(e, D) for e in sc["ev"]]
    s = W + "/script.txt"
    open(s, "w").write("\n".join(lines) + "\n")
    e = dict(os.environ)
    e.update(env or {})
    run((wrap or []) + [c.bins[drv], s, out, str(NCPU)], timeout=800, env=e)
    res = []
    for sc in scens:
        f = "%s/%s.out" % (out, sc["id"])
        got = []
        for l in open(f).read().split("\n"):
            if l:
                try:
                    got.append(json.loads(l))
                except ValueError:
                    pass
        ev = []
        for k, x in enumerate(sc["ev"]):
            if k >= len(got):
                break
            y = dict(x)
            y.update(got[k])
            ev.append(y)
            if y["crash"] or (y["exc"] and y["op"] != "newbad"):
                break
        if len(ev) < len(sc["ev"]) and not (ev and (ev[-1]["crash"] or ev[-1]["exc"])):
            raise ToolError("driver lost events of " + sc["id"])
        res.append({"id": sc["id"], "cfgs": sc["cfgs"], "ev": ev})
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    return res


TRACE_CFG = "SPECIFICATION Spec\nVIEW View\n"


def validate(c, traces, tag):
    """Check recorded traces against the specification with TLC; returns rejections."""
    f = c.path("trace_%s.ndjson" % tag)
    odd = []
    while True:
        with open(f, "w") as o:
            for t in traces:
                o.write(json.dumps(t) + "\n")
        rc, out, st = tlc(c, "Trace", None, TRACE_CFG, env={"VP_TRACE": f})
        # a result of another form than the specification speaks about (no such entry, not a number ...)
        m = re.findall(r"^/\\ (sc|l) = (\d+)$", out, re.M)
        if rc == 0 or len(m) < 2 or not re.search("Attempted to|was not in the domain|no value|Evaluating ", out):
            break
        d = dict(m[-2:])
        if set(d) != {"sc", "l"}:
            break
        t = traces[int(d["sc"]) - 1]
        l = int(d["l"])
        odd.append({"id": t["id"], "l": l, "op": t["ev"][l - 1]["op"] if l <= len(t["ev"]) else "", "bad": ["a result that has no meaning"]})
        traces = [x for x in traces if x is not t]
        c.note("%s: %s" % (t["id"], " ".join(re.findall(r"(?:Attempted|Error: ).*", out))[:300]))
        if not traces or len(odd) >= 4:
            return odd
    rej = []
    for m in re.finditer(r'"REJECT (.*)"\s*$', out, re.M):
        rej.append(json.loads(json.loads('"' + m.group(1) + '"')))
    rej = [r for i, r in enumerate(rej) if r not in rej[:i]]
    want = 0
    byid = {r["id"]: r for r in rej}
    for t in traces:
        want += 1 + (byid[t["id"]]["l"] if t["id"] in byid else len(t["ev"]))
    if rc != 0 or st[1] != want:
        raise ToolError("trace validation did not finish (exit %d, %d states, expected %d):\n%s" % (rc, st[1], want, out[-4000:]))
    c.states += st[1]
    c.transitions += st[0]
    c.traces += len(traces)
    os.remove(f)
    return rej + odd


def perturbed(v, k, rel):
    """v (numerals) with entry k moved by rel * max(1, |v|)."""
    x = [float(t) for t in v]
    if not all(map(math.isfinite, x)):
        return None
    w = list(v)
    w[k] = repr(x[k] + rel * max([1.0] + [abs(t) for t in x]))
    return w


def mutants(c, traces, n=3):
    """Corrupted copies of recorded traces: for every kind of call with an observable
    result, a copy that ends with that call and in which the result is slightly wrong.
    Returns (trace, names that must be rejected or None)."""
    out, seen = [], {}
    order = sorted(range(len(traces)), key=lambda i: len(json.dumps(traces[i])))
    for ti in order:
        t = traces[ti]
        for l in range(len(t["ev"]) - 1, -1, -1):
            e = t["ev"][l]
            if seen.get(e["op"], 0) >= n:
                continue
            m = copy.deepcopy(e)
            names = None
            if e.get("out"):
                names = set()
                for j, o in enumerate(m["out"]):
                    if o["v"]:
                        w = perturbed(o["v"], (c.seed + l + j) % len(o["v"]), 1e-3 if o["f"] == "J_ee_pinv" else 1e-6)
                        if w:
                            o["v"] = w
                            names.add(o["f"])
                if e["op"] not in ("eval", "oeval", "teval"):
                    names = None
            elif "vs" in e and e["op"] in ("getargs", "oget"):
                js = [j for j, v in enumerate(e["vs"]) if v]
                names = set()
                for j in js:
                    w = perturbed(e["vs"][j], (c.seed + l) % len(e["vs"][j]), 1e-6)
                    if w:
                        m["vs"][j] = w
                        names.add(e["as"][j])
                if not names:
                    continue
            elif e.get("vss"):
                w = perturbed(e["vss"][-1][0], (c.seed + l) % len(e["vss"][-1][0]), 1e-6)
                if not w:
                    continue
                m["vss"][-1][0] = w
            elif e["op"] == "races":
                m["n"] = 1
            elif "fns" in e and e["fns"]:
                m["fns"] = m["fns"][:-1]
            elif "nj" in e and e["op"] in ("info", "oinfo"):
                m["nj"] += 1
            elif "ret" in e:
                m["ret"] = 1 - e["ret"] if e["ret"] in (0, 1) else 0
            elif e["op"] == "newbad":
                m["exc"] = ""
            elif e["op"] in ("genbad", "genkill"):
                m["tree"].pop(sorted(p for p in m["tree"] if p.endswith("/c1.yaml"))[0])
            elif e["op"] in ("gen", "gens"):
                m["tree"].pop(sorted(p for p in m["tree"] if p.endswith("_conf.yaml"))[0])
            elif e["op"] in ("pread", "ppert"):
                ys = m["ys"] if e["op"] == "ppert" else [m["y"]]
                for y in ys:
                    x = y.get("link%d" % (1 + (c.seed + l) % 7), {"Ixx": "0", "mass": "0"})
                    x["Ixx"] = repr(float(x["Ixx"]) + 1e-3 * (1 + abs(float(x["mass"]))) + (abs(float(x["Ixx"])) * 20 if e["op"] == "ppert" else 0))
            elif e["op"] == "panda":
                m["tree"] = m["tree"][1:]
            elif e["op"] == "pure" and e.get("v"):
                m["v"] = perturbed(e["v"], c.seed % len(e["v"]), 1e-6)
            else:
                continue
            seen[e["op"]] = seen.get(e["op"], 0) + 1
            out.append(({"id": "SELF%d" % len(out), "cfgs": t["cfgs"], "ev": t["ev"][:l] + [m]}, names))
    return out


def conform(c, scens, tag="t", drv="drv", env=None, racy=False):
    """Run scenarios, validate, and confirm rejections by repeating them.  racy: the outcome
    may depend on timing, and a repetition confirms when it fails anywhere in the scenario."""
    if not scens:
        if c.violations:
            return []
        raise ToolError("no scenarios")
    c.note("%d scenarios, %d calls" % (len(scens), sum(len(s["ev"]) for s in scens)))
    traces = run_driver(c, scens, tag, drv, env)
    c.note("driver done")
    ok = [t for t in traces if not any(e["crash"] or (e["exc"] and e["op"] != "newbad") for e in t["ev"])]
    mut = mutants(c, ok)
    rej = validate(c, traces + [m for m, _ in mut], tag)
    c.traces -= len(mut)
    byid = {r["id"]: r for r in rej}
    rej = [r for r in rej if not r["id"].startswith("SELF")]
    c.note("validated, %d rejected" % len(rej))
    if not rej:
        for m, names in mut:
            r = byid.get(m["id"])
            if r is None or r["l"] != len(m["ev"]) or (names is not None and set(r["bad"]) != names):
                raise ToolError("self-check: corrupted %s result was accepted: %s, expected %s" % (m["ev"][-1]["op"], r and r["bad"], names))
        c.extra["corrupted_traces_rejected"] = c.extra.get("corrupted_traces_rejected", 0) + len(mut)
    ops = c.extra.setdefault("calls_validated", {})
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    c.extra["values_compared"] = c.extra.get("values_compared", 0) + sum(len(o["v"]) for t in traces for e in t["ev"] for o in e.get("out", []))
    if not c.samples:
        for t in (traces[0], traces[len(traces) // 2]):
            c.samples.append({"id": t["id"], "types": t["cfgs"][0]["types"] if t["cfgs"] else [], "events": [slim(e) for e in t["ev"][:6]]})
    if rej:
        ids = {r["id"] for r in rej}
        again = [s for s in scens if s["id"] in ids][:20]
        for k in range(4 if racy else 1):
            tr2 = run_driver(c, again, tag + "_again", drv, env)
            r2 = validate(c, tr2, tag + "_again")
            c.traces -= len(tr2)
            conf = {r["id"]: r for r in r2}
            for r in rej:
                x = conf.get(r["id"])
                if x and not r.get("done") and (racy or x["l"] == r["l"]):
                    r["done"] = True
                    report(c, x, next(t for t in tr2 if t["id"] == r["id"]))
            if all(r.get("done") for r in rej[:20]):
                break
        if racy and not c.violations:
            report(c, rej[0], next(t for t in traces if t["id"] == rej[0]["id"]))
    return rej


def slim(e):
    return {k: (v if len(json.dumps(v)) < 400 else "(%d bytes)" % len(json.dumps(v))) for k, v in e.items()}


# ----------------------------------------------------------------- reporting
def known(prop):
    f = VERIF + "/known_findings.txt"
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def report(c, r, trace):
    """r: {id, l, op, bad}.  One replay file per violation."""
    what = "%s event %s (%s): %s" % (r["id"], r.get("l"), r.get("op"), ", ".join(map(str, r["bad"]))[:300])
    c.violations += 1
    f = "%s/replay_%s_%d.json" % (c.ev, c.prop, c.violations)
    if c.violations <= 10:
        files = {("cfg%d.yaml" % (i + 1)): yaml_of(cfg) for i, cfg in enumerate(trace.get("cfgs", []))}
        json.dump({"property": c.prop, "what": what, "rejection": r, "configs": files, "trace": trace}, open(f, "w"), indent=1)
        c.rejects.append({"what": what, "replay": f})
        print("  " + what)


def finish(c, level="model_checking"):
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level,
          "coverage": dict({"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
                            "samples": c.samples[:3], "models": c.models}, **c.extra),
          "assumptions": c.assumptions, "wall_s": round(time.time() - c.t0, 1), "violations": c.violations}
    json.dump(ev, open("%s/%s.json" % (c.ev, c.prop), "w"), indent=1)
    for r in c.rejects:
        print("VIOLATION property=%s replay=%s" % (c.prop, r["replay"]))
    c.note("%d states, %d traces, %d violations" % (c.states, c.traces, c.violations))
    return 1 if c.violations else 0
