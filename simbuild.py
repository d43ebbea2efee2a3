"""Builds the simulator executable from /repo's current working tree.

The library's own sources and the adapter are compiled with clang's
-fsanitize=thread *instrumentation only*: its runtime is not linked, the calls
it inserts (one per memory access) land in sim/rt.cpp, which is the simulator.
Objects are cached by content, so an unchanged tree is not recompiled.
"""
import concurrent.futures as cf
import glob, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
CACHE = os.environ.get("DST_BUILD", os.path.join(HERE, "build"))
M = "/opt/bezdeps/main/lib/python3.12/site-packages/cmeel.prefix"
H = "/opt/bezdeps/hcd/lib/python3.12/site-packages/cmeel.prefix"
DEFS = ["-std=gnu++17", "-w", "-g1", "-DNDEBUG", "-DUSE_GLPK_SOLVER=1", "-DCURVES_WITH_PINOCCHIO_SUPPORT",
        "-DBOOST_MPL_LIMIT_LIST_SIZE=30", "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30", "-fno-pie"]
EIGEN = M + "/include/eigen3"
INC = ["-isystem", CACHE + "/eigen3", "-isystem", M + "/include", "-isystem", H + "/include",
       "-isystem", H + "/include/cddlib", "-isystem", H + "/include/coin"]
QPSYM = ("_ZN4tsid7solvers14EiquadprogFast14solve_quadprogERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEE"
         "RKNS3_IdLin1ELi1ELi0ELin1ELi1EEES6_S9_S6_S9_RS7_")
EQSYM = ("_ZNK19centroidal_dynamics11Equilibrium23getPolytopeInequalitiesERN5Eigen6MatrixIdLin1ELin1ELi1ELin1ELin1EEE"
         "RNS2_IdLin1ELi1ELi0ELin1ELi1EEE")
WRAP = ["glp_simplex", "glp_mem_limit", "glp_free_env", "memcpy", "memmove", "memset", QPSYM, EQSYM]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _compile(cmd, out, post=None):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0 and post:
        r = subprocess.run(post + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    os.rename(tmp, out)


def eigen_overlay():
    """Eigen's headers with one repair, so that Eigen's own conduct when an
    allocation fails is not counted against this library: the stock
    DenseStorage::resize() frees the buffer before allocating the new one and
    keeps the dangling pointer when that allocation throws.  Everything else is
    a link to the installed header.  (DESIGN.md, "Fault model".)"""
    top = os.path.join(CACHE, "eigen3")
    if os.path.exists(top + "/ok"):
        return
    tmp = top + ".%d" % os.getpid()
    core = tmp + "/Eigen/src/Core"
    os.makedirs(core)
    for d, skip in ((tmp, "Eigen"), (tmp + "/Eigen", "src"), (tmp + "/Eigen/src", "Core"), (core, "DenseStorage.h")):
        real = EIGEN + d[len(tmp):]
        for n in os.listdir(real):
            if n != skip:
                os.symlink(os.path.join(real, n), os.path.join(d, n))
    txt = _read(EIGEN + "/Eigen/src/Core/DenseStorage.h").decode()
    dele = "internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, %s);"
    for size, dims in (("m_rows*m_cols", "m_rows = 0; m_cols = 0;"), ("_Rows*m_cols", "m_cols = 0;"), ("_Cols*m_rows", "m_rows = 0;")):
        old = dele % size + "\n        if"
        if old in txt:
            txt = txt.replace(old, dele % size + "\n        m_data = 0; " + dims + "\n        if")
    with open(core + "/DenseStorage.h", "w") as f:
        f.write(txt)
    open(tmp + "/ok", "w").close()
    try:
        os.rename(tmp, top)
    except OSError:
        shutil.rmtree(tmp)  # somebody else was faster


def sources():
    """The compiled sources of the library: those its build file lists."""
    return sorted(glob.glob(REPO + "/src/*.cpp"))


def build(log=lambda s: None, filled=False):
    """The simulator.  filled: with every local variable the code leaves
    uninitialised filled with a pattern (a compiled program may otherwise
    assume any value, and assumes the same one every time)."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    eigen_overlay()
    hdrs = sorted(p for p in glob.glob(REPO + "/include/**/*", recursive=True) if os.path.isfile(p))
    srchdrs = sorted(p for p in glob.glob(REPO + "/src/**/*", recursive=True) if os.path.isfile(p) and not p.endswith(".cpp"))
    hk = _sha(*[x for p in hdrs + srchdrs for x in (os.path.relpath(p, REPO), _read(p))])
    simh = _sha(*[_read(p) for p in sorted(glob.glob(HERE + "/sim/*.h"))])
    rinc = ["-I" + REPO + "/include"] + INC
    instr = ["clang++"] + DEFS + ["-fsanitize=thread", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-assume-sane-operator-new"] + \
        (["-ftrivial-auto-var-init=pattern"] if filled else []) + rinc
    plain = ["g++"] + DEFS + ["-O2"] + rinc
    jobs, objs = [], []

    def add(cmd, src, extra, post=None):
        o = os.path.join(CACHE, os.path.basename(src)[:-4] + "-" + _sha(" ".join(cmd), _read(src), *extra, str(post)) + ".o")
        objs.append(o)
        jobs.append((cmd + ["-c", src], o, post))

    srcs = sources()
    srcs.sort(key=lambda s: (0 if "waypoints_definition" in s else 1, -os.path.getsize(s)))
    for s in srcs:
        add(instr + ["-O1" if "waypoints_definition" in s else "-O2"], s, [hk])
    add(instr + ["-O1"], HERE + "/sim/adapter.cpp", [hk, simh])
    add(plain, HERE + "/sim/exec.cpp", [hk, simh])
    add(plain, HERE + "/sim/wraps.cpp", [hk, simh])
    add(plain, HERE + "/sim/host.cpp", [hk, simh])
    add(plain, HERE + "/sim/disk.cpp", [simh])
    add(["g++"] + DEFS + ["-O2", "-fno-builtin"] + INC, HERE + "/sim/rt.cpp", [simh],
        ["objcopy"] + ["--redefine-sym=%s=__real_%s" % (s, s) for s in ("memset", "memcpy", "memmove")])
    exe = os.path.join(CACHE, "sim-" + _sha(*objs))
    if not os.path.exists(exe):
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for f in [ex.submit(_compile, *j) for j in jobs]:
                f.result()
        cmd = (["g++", "-no-pie", "-rdynamic"] + objs + ["-Wl,--wrap=" + s for s in WRAP] +
               [H + "/lib/libhpp-centroidal-dynamics.so", M + "/lib/libglpk.so"] +
               [H + "/lib/lib%s.so" % x for x in ("cdd", "CoinUtils", "Clp", "qpOASES")] +
               ["-Wl,--disable-new-dtags,-rpath,%s/lib:%s/lib" % (M, H), "-lpthread", "-ldl"])
        _compile(cmd, exe)
    # drop what older trees left behind
    keep = set(objs + [exe])
    for f in glob.glob(CACHE + "/*"):
        if f not in keep and (f.endswith(".o") or os.path.basename(f).startswith("sim-")) and time.time() - os.path.getmtime(f) > 3600:
            try:
                os.remove(f)
            except OSError:
                pass
    log("built %s in %.1f s" % (os.path.basename(exe), time.time() - t0))
    return exe


if __name__ == "__main__":
    try:
        print(build(lambda s: print(s, file=sys.stderr)))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
