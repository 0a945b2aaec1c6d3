"""Builds harness programs from /repo's *current working tree* (never from prebuilt objects).

ccache, when present, only keys on file contents, so a cached object is always the object of the
current sources.  Build products live in /verif/build (git-ignored)."""
import os, subprocess, sys, shutil, concurrent.futures as cf, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "core", "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARN = os.path.join(VERIF, "harness")

DEFS = ["-DBITPIT_ENABLE_MPI", "-DKOKKOS_DEPENDENCE", "-DNDEBUG", "-DDYABLO_USE_HDF5",
        "-DDYABLO_USE_HDF5_PARALLEL", "-DDYABLO_USE_DOUBLE", "-DDYABLO_USE_MPI"]
COMPAT = "/opt/vp/kokkos37_compat.h"
INC = ["-I" + HARN + "/include", "-I/usr/include/hdf5/openmpi", "-I" + SRC,
       "-I" + SRC + "/utils/mpi", "-I" + SRC + "/utils", "-I" + SRC + "/utils/config/inih",
       "-I" + SRC + "/utils/monitoring",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include",
       "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
LIBS = ["-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi:/usr/lib/x86_64-linux-gnu/openmpi/lib",
        "/usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so",
        "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so", "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so",
        "/usr/lib/x86_64-linux-gnu/libkokkoscontainers.so.3.7.01", "/usr/lib/x86_64-linux-gnu/libkokkoscore.so.3.7.01",
        "-ldl", "-lm", "-lpthread"]

class BuildError(Exception):
    pass

def all_lib_sources():
    """every library source of the current tree: those of the CMake lists, or (fallback) the file system."""
    res = []
    for root, dirs, files in os.walk(SRC):
        for f in sorted(files):
            if f.endswith(".cpp"):
                res.append(os.path.relpath(os.path.join(root, f), SRC))
    skip = {"dyablo_main.cpp"}
    # only sources named by some CMakeLists.txt (files kept in the tree but not built are ignored)
    named = ""
    for root, dirs, files in os.walk(os.path.join(REPO, "core", "src")):
        for f in files:
            if f == "CMakeLists.txt":
                for line in open(os.path.join(root, f), errors="replace"):
                    named += line.split("#")[0] + "\n"
    out = [r for r in res if r not in skip and os.path.basename(r) in named]
    return sorted(out)

CORE_MIN = ["amr/AMRmesh.cpp", "amr/AMRmesh_hashmap.cpp", "amr/AMRmesh_hashmap_new.cpp", "amr/AMRmesh_pablo.cpp",
            "amr/MapUserData_mean.cpp", "mpi/ViewCommunicator.cpp", "mpi/GhostCommunicator_partial_blocks.cpp",
            "utils/config/inih/ini.cpp", "utils/monitoring/OpenMPTimer.cpp", "utils/monitoring/SimpleTimer.cpp",
            "utils/monitoring/Timers.cpp", "utils/misc/utils.cpp", "utils/mpi/GlobalMpiSession.cpp"]

def _compile(args):
    src, obj, opt, extra = args
    cmd = ["g++", "-c", src, "-o", obj] + DEFS + INC + (["-include", COMPAT] if os.path.exists(COMPAT) else []) + \
          [opt, "-std=c++17", "-fopenmp", "-w"] + extra
    env = dict(os.environ)
    if shutil.which("ccache") and not env.get("VERIF_NOCCACHE"):
        cmd = ["ccache"] + cmd
        env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
        env["CCACHE_MAXSIZE"] = "2G"
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, r.returncode, r.stdout

def build(name, harness, lib, opt="-O1", extra=()):
    """name: output binary; harness: sources relative to /verif/harness; lib: sources relative to core/src, or 'all'."""
    t0 = time.time()
    odir = os.path.join(BUILD, "obj", name)
    os.makedirs(odir, exist_ok=True)
    if lib == "all":
        lib = all_lib_sources()
    lib = [l for l in lib if os.path.exists(os.path.join(SRC, l))]
    jobs = []
    for h in harness:
        p = h if os.path.isabs(h) else os.path.join(HARN, h)
        jobs.append((p, os.path.join(odir, "h_" + os.path.basename(p).replace(".cpp", ".o")), opt, list(extra)))
    for l in lib:
        jobs.append((os.path.join(SRC, l), os.path.join(odir, l.replace("/", "_").replace(".cpp", ".o")), opt, list(extra)))
    # big translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if j[0].startswith(HARN) else 0))
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for src, rc, out in ex.map(_compile, jobs):
            if rc != 0:
                raise BuildError("compilation of %s failed:\n%s" % (src, out[-4000:]))
    exe = os.path.join(BUILD, name)
    r = subprocess.run(["g++", "-fopenmp", "-o", exe] + [j[1] for j in jobs] + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        full = all_lib_sources()
        if set(lib) != set(full) and "undefined reference" in r.stdout:
            return build(name, harness, full, opt, extra)   # a refactoring moved code: take the whole library
        raise BuildError("link of %s failed:\n%s" % (name, r.stdout[-4000:]))
    return exe, time.time() - t0

TARGETS = {
    "vdrive": (["main.cpp", "ops_mesh.cpp", "ops_fields.cpp", "ops_particles.cpp", "ops_cells.cpp"], CORE_MIN),
    "vphys": (["main.cpp", "ops_mesh.cpp", "ops_fields.cpp", "ops_particles.cpp", "ops_cells.cpp", "ops_phys.cpp"], "all"),
    "vloop": (["vloop.cpp"], "all"),
    "vconf": (["vconf.cpp"], "all"),
}
if __name__ == "__main__":
    for t in sys.argv[1:]:
        h, l = TARGETS[t]
        print(build(t, h, l))
