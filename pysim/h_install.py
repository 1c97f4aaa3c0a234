"""The install script run, killed, starved and repeated on a LAMMPS source tree."""
import ctypes, errno, json, mmap, os, re, shutil, signal, subprocess
import core
from core import choose, rng, chance, pick, event, fault, note, fail
REPO = os.environ.get("VERIF_REPO", "/repo"); LIB = os.environ["V_VTREE"]
BASE = os.path.realpath(os.path.abspath("in%d" % os.getpid()))
PASS, SHORT, ERRNO, KILL_BEFORE, KILL_AFTER, TORN_KILL, NOSPC = range(7)
NAMES = {SHORT: "short-write", ERRNO: "syscall-error", KILL_BEFORE: "kill-before-syscall", KILL_AFTER: "kill-after-syscall", TORN_KILL: "kill-mid-write", NOSPC: "disk-full"}
class Plan(ctypes.Structure):
    _fields_ = [("prefix", ctypes.c_char * 512), ("ops", ctypes.c_int), ("at", ctypes.c_int * 8), ("kind", ctypes.c_int * 8), ("arg", ctypes.c_int * 8), ("budget", ctypes.c_longlong), ("count", ctypes.c_int * 16)]
SOURCES = {"src/pair_symmetrix_mace.h": "pair_symmetrix_mace.h", "src/pair_symmetrix_mace.cpp": "pair_symmetrix_mace.cpp", "src/KOKKOS/pair_symmetrix_mace_kokkos.h": "pair_symmetrix_mace_kokkos.h", "src/KOKKOS/pair_symmetrix_mace_kokkos.cpp": "pair_symmetrix_mace_kokkos.cpp"}
ORIGINAL = ["# LAMMPS\ncmake_minimum_required(VERSION 3.16)\nproject(lammps CXX)\nadd_library(lammps x.cpp)\n", "project(lammps CXX)\nadd_library(lammps x.cpp)\nadd_subdirectory(tools tools)\ntarget_link_libraries(lammps PRIVATE m)\n# the end, without newline", "# " + "x" * 5000 + "\nproject(lammps)\n" + "message(STATUS ok)\n" * 600, "# for symmetrix see pair_symmetrix/install.sh\nproject(lammps CXX)\nadd_library(lammps x.cpp)\nset(LINK_TO symmetrix)\ntarget_link_libraries(lammps PRIVATE symmetrical)\n"]

def setup():
    shutil.rmtree(BASE, ignore_errors=True); s = BASE + "/symmetrix"; os.makedirs(s)
    shutil.copytree(REPO + "/pair_symmetrix", s + "/pair_symmetrix", ignore=shutil.ignore_patterns("test")); os.makedirs(s + "/libsymmetrix/source"); open(s + "/libsymmetrix/CMakeLists.txt", "w").close()
    l = BASE + "/lammps"; os.makedirs(l + "/src/KOKKOS"); os.makedirs(l + "/cmake")
    text = pick(ORIGINAL); open(l + "/cmake/CMakeLists.txt", "w").write(text); open(l + "/src/pair.cpp", "w").write("// pair\n")
    if chance(1, 4):        # what an installation from another checkout left behind
        o = BASE + "/elsewhere"; os.makedirs(o)
        for d, n in SOURCES.items():
            k = choose(4)
            if k == 1: open(f"{l}/{d}", "w").write("// an older version\n")
            if k >= 2: os.symlink(f"{o}/{n}", f"{l}/{d}")
            if k == 3: open(f"{o}/{n}", "w").write("// an older version\n")
        event("install.over-older-installation")
    return s + "/pair_symmetrix", l, text
def script(where, lammps, arm):
    p = BASE + "/plan"; f = open(p, "wb+"); f.truncate(ctypes.sizeof(Plan)); m = mmap.mmap(f.fileno(), ctypes.sizeof(Plan)); plan = Plan.from_buffer(m)
    plan.prefix = lammps.encode(); plan.budget = -1
    for i in range(8): plan.at[i] = -1
    how = arm(plan); tree = lammps if chance(1, 2) else os.path.relpath(lammps, where)
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}; env.update(LD_PRELOAD=LIB, VT_PLAN=p)
    q = subprocess.Popen(["/bin/bash", "./install.sh", tree], cwd=where, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try: rc = q.wait(30)
    except subprocess.TimeoutExpired: os.killpg(q.pid, signal.SIGKILL); q.wait(); fail("install:hang", f"the script did not end ({how})")
    counts = {k: int(plan.count[k]) for k in NAMES if plan.count[k]}; ops = plan.ops
    del plan; m.close(); f.close(); os.unlink(p)
    return rc, counts, ops, how
def commands(text):
    """the cmake commands of a text, without comments"""
    text = re.sub(r"#[^\n]*", "", text)
    return [(a.lower(), b.split()) for a, b in re.findall(r"(\w+)\s*\(([^()]*)\)", text)], re.sub(r"\w+\s*\([^()]*\)", "", text).strip()
def check(where, l, text, final, how):
    try: now = open(l + "/cmake/CMakeLists.txt").read()
    except FileNotFoundError: fail("install:lost-file", f"LAMMPS's CMakeLists.txt is gone ({how})")
    if open(l + "/src/pair.cpp").read() != "// pair\n": fail("install:foreign-write", "a LAMMPS source was changed")
    old, new = text.rstrip("\n").split("\n"), iter(now.split("\n"))
    for line in old:
        if not any(x == line or (line == old[-1] and x.startswith(line)) for x in new): fail("install:lost-lines", f"LAMMPS's own build instructions are no longer complete ({how}): {line[:60]!r} is missing")
    core.ctx.stats.evaluations += 1
    if not final: return
    for d, s in SOURCES.items():
        try: same = open(f"{l}/{d}").read() == open(f"{where}/{s}").read()
        except OSError: fail("install:missing-source", f"{d} is missing after a successful installation ({how})")
        if not same: fail("install:wrong-source", f"{d} is not the pair style's source ({how})")
    cmds, rest = commands(now); own, _ = commands(text); lib = os.path.realpath(where + "/../libsymmetrix")
    if rest: fail("install:broken-instructions", f"the build instructions do not parse ({how}): {rest[:80]!r}")
    def real(p): return os.path.realpath(p)
    add = [a for c, a in cmds if c == "add_subdirectory" and a and os.path.basename(real(a[0])) == "libsymmetrix"]
    if len(add) != 1 or real(add[0][0]) != lib: fail("install:add-subdirectory", f"libsymmetrix is added to the build {len(add)} times, which cmake refuses unless it is once ({how})")
    inc = [real(p) for c, a in cmds if c == "target_include_directories" and a[:1] == ["lammps"] for p in a[2:]]
    if lib + "/source" not in inc: fail("install:include", f"the include directory is missing ({how})")
    if not any(c == "target_link_libraries" and a[:1] == ["lammps"] and "symmetrix" in a for c, a in cmds): fail("install:link", f"lammps is not linked with symmetrix ({how})")
    if not any(c == "install" and a[:2] == ["TARGETS", "symmetrix"] for c, a in cmds): fail("install:export", f"symmetrix is not exported with lammps ({how})")
    core.ctx.stats.evaluations += 6

ncalls = 12
def draw(plan):
    r = choose(9); n = choose(ncalls)
    def at(i, k, kind, arg=0): plan.at[i], plan.kind[i], plan.arg[i] = k, kind, arg
    err = pick([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EDQUOT, errno.EROFS])
    if r <= 1: return "no fault"
    if r <= 3: at(0, n, pick([KILL_BEFORE, KILL_AFTER, TORN_KILL]), choose(100000)); return f"killed at operation {n}"
    if r <= 5: at(0, n, ERRNO, err); return f"error {err} at operation {n}"
    if r == 6: plan.budget = choose(400) if chance(1, 2) else choose(14000); return f"disk full after {plan.budget} bytes"
    if r == 7:
        for i in range(4): at(i, choose(ncalls), SHORT, choose(100000))
        return "short writes"
    at(0, n, SHORT, choose(100000)); at(1, n + 1, pick([ERRNO, KILL_BEFORE]), err); return f"short write at operation {n}, then the end"
def install_history():
    where, l, text = setup()
    try:
        for step in range(rng(1, 4)):
            core.ctx.stats.steps += 1
            rc, c, n, how = script(where, l, draw)
            for k, v in c.items(): fault(NAMES[k], v)
            hard = any(k in c for k in (ERRNO, NOSPC, KILL_BEFORE, KILL_AFTER, TORN_KILL))
            note(f"install with {how}: exit {rc} ({n} operations)"); event("install.ok" if rc == 0 else "install.failed")
            core.ctx.mix(json.dumps([rc, n, sorted(c.items())]).encode())
            if rc != 0 and not hard: fail("install:failed-without-error", f"exit status {rc} without any storage error ({how}, run {step + 1})")
            check(where, l, text, rc == 0, f"run {step + 1}, {how}")
        rc, c, n, how = script(where, l, lambda p: "no fault"); note(f"final install: exit {rc}")
        if rc != 0: fail("install:no-recovery", f"after earlier runs, an undisturbed installation ends with status {rc}")
        check(where, l, text, True, "undisturbed run at the end")
    finally: shutil.rmtree(BASE, ignore_errors=True)
if __name__ == "__main__": core.main({"install_history": install_history})
