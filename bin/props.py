"""What each property's check runs."""
PROPS = {}
def prop(id, **k): PROPS[id] = k
def B(target, name, quick, thorough):
    return dict(type="bin", target=target, name=name,
                quick=dict(runs=quick[0], seconds=quick[1]), thorough=dict(runs=thorough[0], seconds=thorough[1]))
def PY(script, name, needs, quick, thorough):
    return dict(type="py", script=script, name=name, needs=needs,
                quick=dict(runs=quick[0], seconds=quick[1]), thorough=dict(runs=thorough[0], seconds=thorough[1]))

SMALL = ["libsymmetrix/source/{multilayer_perceptron,multivariate_polynomial,cubic_spline,cubic_spline_set,zbl,tools}.cpp compiled unmodified with the project's flags (-O2 -ffast-math), linked with the system OpenBLAS"]
HEAP = "operator new/delete and malloc replaced by the simulator's heap (seeded garbage in fresh and freed memory, guard zones, scripted failures)"
FP = "floating-point tolerance 1e-9 relative to the largest expected value (the project compiles with -ffast-math)"

PYKH, PYKD = dict(V_PYMOD="pymod_kokkos_host", V_PYREF="pyref"), dict(V_PYMOD="pymod_kokkos_device", V_PYREF="pyref")
PYNEED = dict(V_PYMOD="pymod", V_PYREF="pyref")
prop("C01",
  harnesses=[B("evaluators", "history", (60000, 45), (3000000, 1200)), PY("pysim/h_bind.py", "bind_small", PYNEED, (8000, 30), (400000, 600))],
  rule="a case is one seeded history of 4-40 operations on 1-4 objects; distinct by hash of all observed results; non-trivial because every history has at least four operations whose results are compared with an independent long-double reference",
  real=SMALL + ["the pybind11 bindings of symmetrix/source/cpp"], stub=[HEAP],
  assumptions=[FP, "object sizes up to those drawn by harness/evaluators.hpp"])
prop("C02",
  harnesses=[B("evaluators", "alloc", (48000, 35), (3000000, 900)), B("evaluators", "alloc_fresh", (12000, 20), (600000, 500)),
             B("mace", "mace_alloc", (20000, 35), (1000000, 900)), B("mace", "mace_alloc_fresh", (6000, 15), (300000, 500))],
  rule="a case is one seeded history in which about half of the operations run with an allocation failure armed at a drawn position; distinct by hash of observed results and fault positions",
  real=SMALL, stub=[HEAP],
  assumptions=[FP, "failures are injected at operator new; allocations made inside OpenBLAS, by exception handling itself and in the destructor of nlohmann::json (which terminates by that library's contract) are not failed"])
prop("C03",
  harnesses=[B("threads", "threads", (16000, 40), (1500000, 1000)), B("threads", "threads_fresh", (8000, 25), (600000, 600)),
             B("mace_threads", "mace_threads", (1200, 35), (60000, 800)), B("mace_threads", "mace_threads_fresh", (600, 20), (30000, 500))],
  rule="a case is one seeded interleaving of 2-4 threads, switched at instrumented memory accesses; distinct by hash of the switch decisions and observed results",
  real=SMALL + ["real pthreads, thread-local storage and static-initialisation guards, serialised by the simulator's scheduler"],
  stub=[HEAP, "scheduler: a seeded one-at-a-time scheduler preempting at every instrumented load/store (compiler's thread-sanitizer instrumentation with the simulator's own runtime)", "OpenBLAS runs atomically between switches"],
  assumptions=[FP, "sequentially consistent interleavings; hardware reordering is not simulated"])

MACE_R = SMALL + ["libsymmetrix/source/mace.cpp compiled unmodified, with the system nlohmann::json"]
SPHS = "sphericart (not installed here): shims/sphericart computes the same real spherical harmonics by recursion"
GENM = "model files are synthetic (drawn sizes and weights) because no extracted model can be made offline; the reference is an independent long-double transcription of the network with tape differentiation"
prop("C04",
  harnesses=[B("mace", "mace_history", (12000, 60), (600000, 1500)), PY("pysim/h_bind.py", "bind_mace", PYNEED, (8000, 30), (400000, 600))],
  rule="a case is one seeded history of 3-16 structures (fresh ones and variants of earlier ones) on 1-2 models; distinct by hash of all observed energies and forces; every structure is compared with the reference",
  real=MACE_R + ["the pybind11 bindings of symmetrix/source/cpp"], stub=[HEAP, SPHS], assumptions=[FP, GENM])
prop("C05",
  harnesses=[B("io", "io_load", (8000, 50), (400000, 1500)), B("io", "io_load_fresh", (1600, 15), (80000, 500))],
  rule="a case is one seeded history of 3-12 loads from 3 path names with a drawn storage fault each, other evaluators being used in between; distinct by hash of outcomes and results",
  real=MACE_R + ["libstdc++ file streams, the kernel's file system"], stub=[HEAP, SPHS, "open/fopen/read/pread/readv interposed in the harness binary: failures, short reads, EINTR, EIO, early end of file"],
  assumptions=[FP, GENM, "a byte of the file that is delivered is delivered unaltered or as a zero byte; silent bit flips are not simulated"])

KSTUB = ["Kokkos, Kokkos Kernels (not installed here): shims/kokkos runs every kernel on fibers switched at every instrumented load and store; work-item order, thread count, team sizes within the limits asked for, start of asynchronous kernels, scratch and fresh view contents are drawn; views check bounds, lifetime and, in the device build, that host code never touches device memory and the reverse", HEAP]
KASS = ["sequentially consistent interleavings; hardware reordering is not simulated", "vector lanes are run as permuted loops or as fibers of their own; warp-synchronous execution is not simulated", "a team's members meet at barriers as Kokkos requires; a deadlock is a violation"]
KSM = ["libsymmetrix/source/{cubic_spline,cubic_spline_set,multilayer_perceptron,multivariate_polynomial,radial_function_set,zbl,tools}_kokkos.cpp compiled unmodified, once with one memory space and once with separate device memory"]
KPY = "the pybind11 bindings of the Kokkos classes (symmetrix/source/cpp/*_kokkos.cpp, utilities_kokkos.hpp), called from CPython 3.12"
KPS = "Kokkos under the Python module: kernels run one after another, started at once or late, their work items in drawn order, fresh memory with drawn contents"
prop("C08",
  harnesses=[B("kokkos_host", "kokkos_host", (120000, 25), (6000000, 900)), B("kokkos_device", "kokkos_device", (120000, 25), (6000000, 900)),
             PY("pysim/h_bind_kokkos.py", "bind_small_kokkos", PYKH, (4000, 15), (400000, 400)), PY("pysim/h_bind_kokkos.py", "bind_small_kokkos_device", PYKD, (4000, 15), (400000, 400))],
  rule="a case is one seeded history of operations on 1-3 Kokkos evaluators, every kernel run under a drawn thread count, work-item order and interleaving; distinct by hash of switch decisions and observed results; every result is compared with an independent long-double reference",
  real=KSM + [KPY], stub=KSTUB + [KPS], assumptions=[FP + "; single-precision instances 1e-4"] + KASS)
prop("C09",
  harnesses=[B("mace_kokkos_host", "mace_kokkos_host", (12000, 40), (300000, 1200)), B("mace_kokkos_device", "mace_kokkos_device", (12000, 40), (300000, 1200)),
             PY("pysim/h_bind_kokkos.py", "bind_mace_kokkos", PYKH, (4000, 15), (400000, 400)), PY("pysim/h_bind_kokkos.py", "bind_mace_kokkos_device", PYKD, (4000, 15), (400000, 400))],
  rule="a case is one seeded history of structures on 1-2 Kokkos MACE models (double or float), every kernel under a drawn schedule; distinct by hash of switch decisions and observed energies and forces; every structure is compared with the reference",
  real=["libsymmetrix/source/mace_kokkos.cpp compiled unmodified", KPY] + KSM, stub=KSTUB + [KPS, SPHS], assumptions=[FP + "; single-precision models to single-precision accuracy", GENM] + KASS)

LMPR = ["pair_symmetrix/pair_symmetrix_mace.cpp compiled unmodified", "libsymmetrix/source/mace.cpp and what it uses, unmodified"]
LMPS = ["LAMMPS (not installed here): shims/lammps declares what a pair style sees, with LAMMPS semantics for ev_setup, full/half/ghost neighbour lists with skin and special bits, atom maps and newton reverse communication", "MPI: ranks are fibers in one process; ghost exchanges are messages staged by dimension (brick) or direct from the owner (tiled), delivered in drawn order"]
LMPA = ["tolerance 1e-10 relative to the largest force, energy or virial term (at least 1)", GENM, "orthogonal boxes, up to 8 ranks and about a dozen atoms", "neighbour lists run over owned atoms in index order, as every LAMMPS list this style can be given does", "off-diagonal virial compared up to the choice of symmetrisation because the synthetic models are not rotation invariant"]
prop("C06",
  harnesses=[B("lammps", "lmp_layouts", (12000, 45), (600000, 1500))],
  rule="a case is one system evaluated on 1-3 drawn job layouts (ranks, grid or bisection, mode, orders, message schedule); distinct by hash of all observed results; every evaluation is compared with the reference on the whole system",
  real=LMPR, stub=[HEAP, SPHS] + LMPS, assumptions=LMPA)
prop("C07",
  harnesses=[B("lammps", "lmp_steps", (9000, 50), (500000, 1500))],
  rule="a case is one job of 3-14 steps with drawn changes between them (motion, migration, insertion, removal, retyping, rebalancing, re-initialisation, new pair_coeff or pair_style); distinct by hash of all observed results",
  real=LMPR, stub=[HEAP, SPHS] + LMPS, assumptions=LMPA)
KKS = ["LAMMPS's KOKKOS package (not installed here): shims/lammps_kokkos provides its dual views with modify/sync semantics, neighbour lists in device memory, host- or device-side communication as drawn"]
prop("C10",
  harnesses=[B("lammps_kokkos_host", "kklmp_layouts", (4000, 20), (200000, 600)), B("lammps_kokkos_host", "kklmp_steps", (4000, 20), (200000, 600)),
             B("lammps_kokkos_device", "kklmp_layouts_device", (4000, 20), (200000, 600)), B("lammps_kokkos_device", "kklmp_steps_device", (4000, 20), (200000, 600)),
             B("lammps_kokkos_device", "kklmp_hoststyle_device", (200, 5), (2000, 30))],
  rule="a case is one LAMMPS job (1-3 layouts of one system, or 3-5 steps with drawn changes between them) with every kernel under a drawn schedule and every message delivered in drawn order; distinct by hash of switch decisions and observed results; every evaluation is compared with the reference on the whole system",
  real=["pair_symmetrix/pair_symmetrix_mace_kokkos.cpp compiled unmodified, once with one memory space and once with separate device memory", "libsymmetrix/source/mace_kokkos.cpp compiled unmodified"] + KSM, stub=KSTUB + [SPHS] + LMPS + KKS, assumptions=["tolerance 1e-9 relative in double, 3e-4 in single precision"] + LMPA[1:] + KASS)
prop("C14",
  harnesses=[B("lammps", "lmp_setups", (12000, 40), (400000, 900)), B("lammps_kokkos_host", "kklmp_setups", (4000, 20), (150000, 600))],
  rule="a case is a job that gets 1-4 impossible set-ups and then a correct one, which is evaluated; distinct by hash of outcomes and results",
  real=LMPR + ["pair_symmetrix/pair_symmetrix_mace_kokkos.cpp and libsymmetrix/source/mace_kokkos.cpp, unmodified"], stub=[SPHS] + LMPS + KSTUB + KKS, assumptions=LMPA)

VF = dict(PYNEED, LD_PRELOAD="vfault")
PYR = ["symmetrix/source/symmetrix/*.py unmodified, the real pybind11 bindings of symmetrix/source/cpp and libsymmetrix, CPython 3.12, ASE 3.22.1 with its neighbour list"]
VFS = "storage: open, read, write, close, fsync, rename, unlink and their variants on the scratch directory follow a drawn plan (preloaded pysim/vfault.c); data that was written goes to a real file"
EXS = "torch extraction (torch, e3nn and mace are not installed): a stand-in for extract_mace_data returns a synthetic model that depends on every argument"
prop("C11",
  harnesses=[PY("pysim/h_calc.py", "calc_history", PYNEED, (4000, 35), (300000, 1000)), PY("pysim/h_calc.py", "calc_history_fresh", PYNEED, (800, 15), (60000, 400)), PY("pysim/h_calc.py", "calc_history_kokkos", PYKH, (1600, 20), (100000, 600)), PY("pysim/h_calc.py", "calc_history_kokkos_device", PYKD, (1600, 20), (100000, 600))],
  rule="a case is one seeded history of 4-18 edits and property requests on 1-3 Atoms objects and 1-2 calculators with failures and interrupts injected into about a fifth of the requests; distinct by hash of all answers",
  real=PYR + ["libsymmetrix/source/*_kokkos.cpp and the bindings of the Kokkos classes (the calculator's default evaluators, in double and single precision)"], stub=[SPHS, KPS, "failures: the neighbour list raises MemoryError, or an interrupt arrives at the n-th executed line of the calculator"],
  assumptions=["tolerance 1e-7 relative (2e-4 for dtype float32)", GENM, "stress is compared up to the choice of symmetrisation because the synthetic models are not rotation invariant"])
prop("C12",
  harnesses=[PY("pysim/h_convert.py", "convert_history", VF, (3200, 40), (200000, 1500)), PY("pysim/h_convert.py", "convert_history_fresh", VF, (800, 15), (60000, 400))],
  rule="a case is one seeded history of 2-6 calculator creations from torch, JSON and damaged files with a drawn storage plan each, some with other creations nested inside system calls; distinct by hash of outcomes, results and call counts",
  real=PYR + ["CPython's tempfile and json modules, the kernel's file system"], stub=[SPHS, EXS, VFS, "temporary file names are drawn from the seed"],
  assumptions=["tolerance 1e-7 relative", GENM, "concurrent creators are simulated as creations running inside a system call of the first one", "deleting a file never fails"])
prop("C13",
  harnesses=[PY("pysim/h_extract.py", "extract_history", VF, (3200, 60), (200000, 1500))],
  rule="a case is one seeded history of 2-6 extraction commands writing to a few output paths, each with a drawn kill point or storage plan; distinct by hash of exit states, call counts and file sizes",
  real=PYR + ["symmetrix/source/symmetrix/cli/extract_mace.py run in a process of its own"], stub=[SPHS, EXS, VFS],
  assumptions=["tolerance 1e-7 relative", GENM, "process kill: what was written before the kill survives; loss of the page cache is not simulated"])
prop("C15",
  harnesses=[B("helpers", "helpers", (40000, 20), (3000000, 600)), B("helpers", "helpers_alloc", (40000, 20), (3000000, 600)), B("helpers", "helpers_alloc_fresh", (8000, 12), (400000, 300)),
             B("helpers_threads", "helpers_threads", (6000, 20), (400000, 600)), B("helpers_threads", "helpers_threads_fresh", (6000, 20), (300000, 400)),
             PY("pysim/h_bind.py", "bind_helpers", PYNEED, (12000, 15), (600000, 400))],
  rule="a case is one seeded history of helper calls (single caller, single caller with allocation failures, or 2-4 concurrent callers); distinct by hash of results, faults and switches; every result is compared with an independent enumeration or closed form",
  real=["libsymmetrix/source/{tools,spherical_harmonic}.cpp and tools.hpp compiled unmodified", "the pybind11 bindings of symmetrix/source/cpp"], stub=[HEAP, SPHS, "scheduler: threads switched at instrumented memory accesses, as in C03"],
  assumptions=["harmonics compared to 1e-7, away from directions where the polar angle is ill-conditioned", "results that fit in an int"])
prop("C16",
  harnesses=[PY("pysim/h_install.py", "install_history", dict(V_VTREE="vtree"), (1600, 45), (60000, 900))],
  rule="a case is one seeded sequence of 1-4 installation runs with a drawn kill point or storage plan each, and an undisturbed run at the end; distinct by hash of exit states, operation counts and faults",
  real=["pair_symmetrix/install.sh run by bash with the system's coreutils and grep in a scratch copy"], stub=["the LAMMPS tree is a small stand-in", "storage: operations that change files below the tree (open for writing, write, symlink, link, rename, unlink, truncate) follow a drawn plan shared by all processes of the script (preloaded pysim/vtree.c)"],
  assumptions=["reading never fails", "what was written before a kill survives; loss of the page cache is not simulated", "paths without spaces", "cmake accepts the instructions if they parse and add libsymmetrix once (checked by a small parser)"])
