"""Builds the simulators from /repo's working tree into /verif/build (ignored by git)."""
import hashlib, os, subprocess, sys, shutil, sysconfig
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=c++14", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
          "-DNDEBUG", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-w"]


class BuildError(Exception):
    pass


def tree_hash(dirs, extra="", ext=(".hxx", ".cxx", ".hpp", ".cpp", ".h", ".py")):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            ds[:] = [x for x in ds if x not in ("_build", ".git", "__pycache__")]
            for f in sorted(fs):
                if f.endswith(ext):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build_cpp(name, main, repo_sources, includes, libs):
    """compile repo_sources (relative to REPO) and sim/main, link; returns the binary"""
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "sim")], name + " ".join(COMMON + libs),
                    (".hxx", ".cxx", ".hpp", ".cpp", ".h"))
    d = os.path.join(OUT, name + "-" + key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    if os.path.isdir(OUT):  # drop outdated builds of this simulator
        for e in os.listdir(OUT):
            if e.startswith(name + "-"):
                shutil.rmtree(os.path.join(OUT, e), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in includes] + ["-I" + os.path.join(VERIF, "sim")]
    jobs = [(os.path.join(REPO, s), os.path.join(d, "r%d.o" % i)) for i, s in enumerate(repo_sources)]
    jobs.append((os.path.join(VERIF, "sim", main), os.path.join(d, "main.o")))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(["g++"] + COMMON + inc + ["-c", j[0], "-o", j[1]]), jobs))
    tmp = exe + ".tmp%d" % os.getpid()
    sh(["g++", "-fsanitize=address"] + [j[1] for j in jobs] + libs + ["-o", tmp])
    os.rename(tmp, exe)
    for j in jobs:
        os.remove(j[1])
    return exe


def map_sim():
    return [build_cpp("simmap", "simmap.cpp",
                      ["src/geomap/cppmap.cxx", "src/geomap/cppmap_utils.cxx", "src/geomap/crackedgemap.cxx"],
                      ["src/geomap"], ["-lvigraimpex"])]


def poly_sim():
    return [build_cpp("simpoly", "simpoly.cpp", [], ["src/geomap"], [])]


def cell_sim():
    return [build_cpp("simcell", "simcell.cpp", ["src/cellimage/foureightsegmentation.cxx", "src/cellimage/cellstatistics.cxx"],
                      ["src/cellimage", "src/geomap"], ["-lvigraimpex"])]


PY_MODULE = ["src/python_bindings/%s.cxx" % n for n in ("vectorconv", "pythondiff2d", "polygon", "statistics", "cppmapmodule_utils", "cppmapmodule_stats",
             "cppmapmodule", "geomapmodule", "subpixel_watersheds", "dsl")] + ["src/geomap/%s.cxx" % n for n in ("cppmap", "cppmap_utils", "crackedgemap")]
PYTHON = "/usr/bin/python3"
VIGRA_PY = "/usr/lib/python3/dist-packages/vigra"


def py_module():
    """the Python module geomap, with AddressSanitizer; returns its directory"""
    import glob
    key = tree_hash([os.path.join(REPO, "src", "python_bindings"), os.path.join(REPO, "src", "geomap"), os.path.join(REPO, "include")],
                    "py" + " ".join(COMMON), (".hxx", ".cxx", ".h"))
    d = os.path.join(OUT, "pymod-" + key)
    so = os.path.join(d, "geomap.so")
    if os.path.exists(so):
        return d
    if os.path.isdir(OUT):
        for e in os.listdir(OUT):
            if e.startswith("pymod-"):
                shutil.rmtree(os.path.join(OUT, e), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    info = sh([PYTHON, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include()); print(sysconfig.get_config_var('py_version_nodot'))"]).split()
    inc = ["-I" + os.path.join(REPO, "src/python_bindings"), "-I" + os.path.join(REPO, "src/geomap"), "-I" + info[0], "-I" + info[1]]
    defs = ["-fPIC", "-DAVOID_DUPLICATE_DEFINITION_FROM_VIGRANUMPYCORE", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
    jobs = [(os.path.join(REPO, f), os.path.join(d, os.path.basename(f) + ".o")) for f in PY_MODULE]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(["g++"] + COMMON + defs + inc + ["-c", j[0], "-o", j[1]]), jobs))
    core = glob.glob(os.path.join(VIGRA_PY, "vigranumpycore.cpython-3*.so"))[0]
    tmp = so + ".tmp%d" % os.getpid()
    sh(["g++", "-shared", "-fsanitize=address"] + [j[1] for j in jobs] + [core, "-lboost_python" + info[2], "-lvigraimpex", "-Wl,-rpath," + VIGRA_PY, "-o", tmp])
    os.rename(tmp, so)
    for j in jobs:
        os.remove(j[1])
    return d


def py_sources():
    """the Python 3 copy of /repo/python (lib2to3, as the build of the project does it); returns its directory"""
    src = os.path.join(REPO, "python")
    key = tree_hash([src], "py3", (".py",))
    d = os.path.join(OUT, "pysrc-" + key)
    if os.path.exists(os.path.join(d, "done")):
        return d
    if os.path.isdir(OUT):
        for e in os.listdir(OUT):
            if e.startswith("pysrc-"):
                shutil.rmtree(os.path.join(OUT, e), ignore_errors=True)
    sh([PYTHON, "-W", "ignore", os.path.join(VERIF, "sim", "py", "convert.py"), src, d])
    open(os.path.join(d, "done"), "w").close()
    return d


def py_sim():
    mod, src = py_module(), py_sources()
    asan = sh(["gcc", "-print-file-name=libasan.so"]).strip()
    return ["/usr/bin/env", "LD_PRELOAD=" + asan + " " + sh(["gcc", "-print-file-name=libstdc++.so"]).strip(), "SIM_PYMOD=" + mod, "SIM_PYSRC=" + src, PYTHON, "-W", "ignore", os.path.join(VERIF, "sim", "py", "main.py")]


ENGINES = {"py": py_sim, "map": map_sim, "poly": poly_sim, "cell": cell_sim}
