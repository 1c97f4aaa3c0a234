"""Builds harness binaries from /repo's working tree and /verif's simulator."""
import hashlib, os, subprocess, sys, shutil, concurrent.futures as cf, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = REPO + "/libsymmetrix/source"
PAIR = REPO + "/pair_symmetrix"
CACHE = os.environ.get("VERIF_CACHE", VERIF + "/.cache")
CXX = "g++"

# flags of the project (libsymmetrix/CMakeLists.txt), with a fixed instruction set
REPO_FLAGS = ["-std=c++20", "-O2", "-march=x86-64-v3", "-ffast-math", "-w"]
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
SIM_FLAGS = ["-std=c++20", "-O2", "-w", "-g1"]
BLAS = ["-I" + VERIF + "/shims/blas/source"]
SMALL = ["tools", "multilayer_perceptron", "multivariate_polynomial", "cubic_spline", "cubic_spline_set", "zbl"]

def src(p): return p if os.path.isabs(p) else VERIF + "/" + p

TARGETS = {}

def target(name, units, link=None, out="bin", post=None):
    """units are (source, flags); sources of the repository that a later version splits off are found by spare()"""
    link = list(link or [])
    if ("sim/heap.cpp", SIM_FLAGS) in units: link += ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"))]
    TARGETS[name] = dict(units=units, link=link, out=out, post=post)
def others(d, have, kokkos):
    names = sorted(f for f in os.listdir(d) if f.endswith(".cpp")) if os.path.isdir(d) else []
    return [f"{d}/{f}" for f in names if f"{d}/{f}" not in have and (kokkos or "kokkos" not in f)]
def spare(t):
    """the repository's other sources, with the flags of a unit of the same directory"""
    have = {s: f for s, f in t["units"]}; out = []
    for d in (LIB, BIND, PAIR):
        mine = [s for s in have if os.path.dirname(s) == d]
        kk = [s for s in mine if "kokkos" in s]
        for o in (others(d, have, bool(kk)) if mine else []): out.append((o, have[(kk if kk and "kokkos" in o else [s for s in mine if s not in kk] or mine)[0]]))
    return out

def lib(names, extra=()):
    return [(f"{LIB}/{n}.cpp", REPO_FLAGS + BLAS + ["-I" + LIB] + list(extra)) for n in names]

def simu(names):
    return [(f"sim/{n}.cpp", SIM_FLAGS) for n in names]

target("evaluators",
       lib(SMALL) + simu(["main", "heap"]) + [("harness/h_evaluators.cpp", SIM_FLAGS + ["-I" + LIB])],
       ["-lopenblas"])
target("threads",
       lib(SMALL, TSAN) + simu(["main", "heap", "sched", "hooks"]) + [("harness/h_threads.cpp", SIM_FLAGS + ["-I" + LIB])],
       ["-lopenblas", "-lpthread", "-ldl"])
SPH = ["-I" + VERIF + "/shims/sphericart"]
target("mace",
       lib(SMALL + ["mace"], SPH) + simu(["main", "heap"]) + [("harness/h_mace.cpp", SIM_FLAGS + ["-I" + LIB])],
       ["-lopenblas", "-rdynamic", "-ldl"])
target("helpers",
       lib(["tools", "spherical_harmonic"], SPH) + simu(["main", "heap"]) + [("harness/h_helpers.cpp", SIM_FLAGS + ["-I" + LIB])])
target("helpers_threads",
       lib(["tools", "spherical_harmonic"], TSAN + SPH) + simu(["main", "heap", "sched", "hooks"]) + [("harness/h_helpers.cpp", SIM_FLAGS + ["-DHELPERS_THREADS", "-I" + LIB])],
       ["-lpthread", "-ldl"])
target("io",
       lib(SMALL + ["mace"], SPH) + simu(["main", "heap", "iofault"]) + [("harness/h_io.cpp", SIM_FLAGS + ["-I" + LIB])],
       ["-lopenblas", "-ldl"])
target("mace_threads",
       lib(SMALL + ["mace"], TSAN + SPH) + simu(["main", "heap", "sched", "hooks"]) + [("harness/h_mace_threads.cpp", SIM_FLAGS + ["-I" + LIB])],
       ["-lopenblas", "-lpthread", "-ldl"])
LMP = ["-I" + VERIF + "/shims/lammps", "-I" + PAIR]
target("lammps",
       lib(SMALL + ["mace"], SPH) + [(PAIR + "/pair_symmetrix_mace.cpp", REPO_FLAGS + BLAS + SPH + LMP + ["-I" + LIB])] + simu(["main", "heap", "sched", "hooks"])
       + [("harness/lmp_impl.cpp", SIM_FLAGS + LMP), ("harness/h_lammps.cpp", SIM_FLAGS + LMP + BLAS + SPH + ["-I" + LIB])],
       ["-lopenblas", "-lpthread", "-ldl"])
# ---- Kokkos evaluators on the simulated Kokkos backend: host memory / separate device memory
KSMALL = ["cubic_spline_kokkos", "cubic_spline_set_kokkos", "multilayer_perceptron_kokkos", "multivariate_polynomial_kokkos", "radial_function_set_kokkos", "tools_kokkos", "zbl_kokkos"]
for kd, kn in ((0, "host"), (1, "device")):
    KK = ["-I" + VERIF + "/shims/kokkos", f"-DKSIM_DEVICE={kd}", "-DSYMMETRIX_KOKKOS"]
    target("kokkos_" + kn,
           lib(["tools", "multivariate_polynomial"]) + [(f"{LIB}/{n}.cpp", REPO_FLAGS + KK + TSAN + ["-I" + LIB]) for n in KSMALL] + simu(["main", "heap", "sched", "hooks"])
           + [("shims/kokkos/ksim.cpp", SIM_FLAGS + KK), ("harness/h_kokkos.cpp", SIM_FLAGS + KK + ["-I" + LIB])],
           ["-lopenblas", "-lpthread", "-ldl"])
    target("mace_kokkos_" + kn,
           lib(["tools", "multivariate_polynomial"]) + [(f"{LIB}/mace_kokkos.cpp", REPO_FLAGS + KK + TSAN + SPH + BLAS + ["-O1", "-I" + LIB])]
           + [(f"{LIB}/{n}.cpp", REPO_FLAGS + KK + TSAN + ["-I" + LIB]) for n in KSMALL] + simu(["main", "heap", "sched", "hooks"])
           + [("shims/kokkos/ksim.cpp", SIM_FLAGS + KK), ("harness/h_mace_kokkos.cpp", SIM_FLAGS + KK + ["-I" + LIB])],
           ["-lopenblas", "-lpthread", "-ldl"])
    LKK = LMP + ["-I" + VERIF + "/shims/lammps_kokkos"]
    target("lammps_kokkos_" + kn,
           lib(["tools", "multivariate_polynomial"]) + [(PAIR + "/pair_symmetrix_mace_kokkos.cpp", REPO_FLAGS + KK + TSAN + SPH + BLAS + LKK + ["-O1", "-I" + LIB]), (f"{LIB}/mace_kokkos.cpp", REPO_FLAGS + KK + TSAN + SPH + BLAS + ["-O1", "-I" + LIB])]
           + [(f"{LIB}/{n}.cpp", REPO_FLAGS + KK + TSAN + ["-I" + LIB]) for n in KSMALL] + simu(["main", "heap", "sched", "hooks"])
           + [("shims/kokkos/ksim.cpp", SIM_FLAGS + KK), ("harness/lmp_impl.cpp", SIM_FLAGS + LMP), ("harness/h_lammps_kokkos.cpp", SIM_FLAGS + KK + SPH + BLAS + LKK + ["-I" + LIB])],
           ["-lopenblas", "-lpthread", "-ldl"])
# ---- Python package: real bindings, real Python sources
PYINC = ["-I" + x for x in ("/usr/include/python3.12", "/usr/include/pybind11", "/usr/include")][:1] + ["-fPIC", "-fvisibility=hidden"]
BIND = REPO + "/symmetrix/source/cpp"
BINDINGS = ["cubic_spline", "cubic_spline_set", "mace", "multilayer_perceptron", "multivariate_polynomial", "spherical_harmonic", "tools", "zbl", "symmetrix"]
def py_package(out):
    d = out + "/pkg/symmetrix"
    shutil.copytree(REPO + "/symmetrix/source/symmetrix", d, ignore=shutil.ignore_patterns("__pycache__", "*.so"))
    os.rename(out + "/symmetrix.so", d + "/symmetrix.so")
    os.symlink("pkg/symmetrix/symmetrix.so", out + "/symmetrix.so")
target("pymod",
       lib(SMALL + ["mace", "spherical_harmonic"], SPH + ["-fPIC"]) + [(f"{BIND}/{n}.cpp", ["-std=c++20", "-O1", "-w"] + PYINC + ["-I" + LIB]) for n in BINDINGS],
       ["-shared", "-lopenblas"], out="symmetrix.so", post=py_package)
KBINDINGS = ["cubic_spline_kokkos", "cubic_spline_set_kokkos", "mace_kokkos", "multilayer_perceptron_kokkos", "multivariate_polynomial_kokkos", "tools_kokkos", "zbl_kokkos"]
for kd, kn in ((0, "host"), (1, "device")):
    KK = ["-I" + VERIF + "/shims/kokkos", f"-DKSIM_DEVICE={kd}", "-DSYMMETRIX_KOKKOS"]
    target("pymod_kokkos_" + kn,
       lib(SMALL + ["mace", "spherical_harmonic"], SPH + ["-fPIC"]) + [(f"{LIB}/{n}.cpp", REPO_FLAGS + KK + SPH + BLAS + ["-O1", "-fPIC", "-I" + LIB]) for n in KSMALL + ["mace_kokkos"]]
       + [(f"{BIND}/{n}.cpp", ["-std=c++20", "-O1", "-w"] + PYINC + KK + BLAS + SPH + ["-I" + LIB]) for n in BINDINGS + KBINDINGS] + [("shims/kokkos/ksim_py.cpp", SIM_FLAGS + KK + ["-fPIC"])],
       ["-shared", "-lopenblas"], out="symmetrix.so", post=py_package)
KNOWN = {n + ".cpp" for n in SMALL + ["mace", "spherical_harmonic"] + KSMALL + ["mace_kokkos"] + BINDINGS + KBINDINGS} | {"pair_symmetrix_mace.cpp", "pair_symmetrix_mace_kokkos.cpp"}
target("pyref", [("harness/pyref.cpp", SIM_FLAGS + ["-fPIC"])], ["-shared"], out="pyref.so")
target("vfault", [("pysim/vfault.c", ["-xc", "-O1", "-w", "-fPIC"])], ["-shared", "-ldl"], out="vfault.so")
target("vtree", [("pysim/vtree.c", ["-xc", "-O1", "-w", "-fPIC"])], ["-shared", "-ldl"], out="vtree.so")


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        for d, ds, fs in sorted(os.walk(top)):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", ".git", "external"))
            for f in sorted(fs):
                if f.endswith((".cpp", ".hpp", ".h", ".c", ".py", ".cu")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(b"\0")
                    try: h.update(open(p, "rb").read())
                    except OSError: pass
    return h.hexdigest()

def source_key():
    return tree_hash([LIB, PAIR, REPO + "/symmetrix/source", VERIF + "/sim", VERIF + "/shims", VERIF + "/harness", VERIF + "/pysim", VERIF + "/bin"])

class BuildError(Exception): pass

def build(name, key=None):
    """Returns the path of the harness binary (or shared object) for target `name`."""
    t = TARGETS[name]
    key = key or source_key()
    out = f"{CACHE}/{name}-{key[:24]}"
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/{name}.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res_path = out + "/" + t["out"]
        if os.path.exists(out + "/ok"): return res_path
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        def one(iu):
            i, (s, flags) = iu
            o = f"{out}/{i}.o"
            if callable(flags): flags = flags(out)
            r = subprocess.run([CXX] + flags + ["-c", src(s), "-o", o], capture_output=True, text=True, errors="replace")
            return o, s, r
        units = list(t["units"])
        if "-shared" in t["link"]: units += [u for u in spare(t) if os.path.basename(u[0]) not in KNOWN]
        with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(units)))
        bad = [(s, r) for _, s, r in res if r.returncode]
        if bad:
            s, r = bad[0]
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError(f"{s} does not compile against the simulator:\n" + r.stderr[:6000])
        r = subprocess.run([CXX] + [o for o, _, _ in res] + t["link"] + ["-o", res_path], capture_output=True, text=True, errors="replace")
        if r.returncode and "undefined reference" in r.stderr and spare(t):   # something moved to another source file
            with cf.ThreadPoolExecutor(8) as ex: more = [m for m in ex.map(one, enumerate(spare(t), len(units))) if m[2].returncode == 0]
            lib_a = out + "/spare.a"
            subprocess.run(["ar", "rcs", lib_a] + [o for o, _, _ in more], capture_output=True)
            r = subprocess.run([CXX] + [o for o, _, _ in res] + [lib_a] + t["link"] + ["-o", res_path], capture_output=True, text=True, errors="replace")
        if r.returncode:
            shutil.rmtree(out, ignore_errors=True)
            raise BuildError("link failed:\n" + r.stderr[:6000])
        for o, _, _ in res: os.unlink(o)
        if t["post"]: t["post"](out)
        open(out + "/ok", "w").close()
        # keep the cache small
        old = sorted((d for d in os.listdir(CACHE) if d.startswith(name + "-")), key=lambda d: os.path.getmtime(f"{CACHE}/{d}"))
        for d in old[:-6]: shutil.rmtree(f"{CACHE}/{d}", ignore_errors=True)
        return res_path

if __name__ == "__main__":
    key = source_key()
    for n in (sys.argv[1:] or TARGETS): print(n, build(n, key))
