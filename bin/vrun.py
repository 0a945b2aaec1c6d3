"""Running the harness under MPI and TLC on the recorded traces."""
import os, subprocess, shutil, tempfile, json, re, time, concurrent.futures as cf, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")

def mpi_env(threads=1, tmp="/tmp"):
    e = dict(os.environ)
    for k, v in dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1",
                     OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
                     OMPI_MCA_io="romio321", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_mpi_yield_when_idle="1", OMP_NUM_THREADS=str(threads),
                     OMP_PROC_BIND="false", OMP_WAIT_POLICY="passive", TMPDIR=tmp).items():
        e[k] = v
    e.pop("VERIF_SEED", None); e.pop("VERIF_TIER", None)
    return e

def mpirun(cmd, np, cwd, timeout, threads=1, log=None):
    """returns (rc, timed_out, tail of output)"""
    full = ["mpiexec", "-np", str(np)] + cmd
    log = log or os.path.join(cwd, "out.log")
    # the session directory of Open MPI has to be short: sockets live there
    tmp = tempfile.mkdtemp(prefix="vm", dir="/tmp")
    try:
        with open(log, "wb") as lf:
            p = subprocess.Popen(full, cwd=cwd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=mpi_env(threads, tmp), start_new_session=True)
            try:
                rc = p.wait(timeout=timeout); to = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = -9; to = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    with open(log, "rb") as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 3000)); tail = f.read().decode(errors="replace")
    return rc, to, tail

def tlc(module, cfg, trace=None, workdir=None, timeout=600, workers=1, extra=(), heap="2g", consts=None, simulate=None):
    """runs TLC on spec/<module>.tla; returns dict(ok, out, states, distinct, diameter, error)"""
    wd = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    meta = os.path.join(wd, "states")
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, wd)
    cfgp = os.path.join(wd, module + ".cfg")
    text = open(os.path.join(SPEC, cfg)).read() if cfg.endswith(".cfg") else cfg
    for k, v in (consts or {}).items():
        text += "\nCONSTANT %s = %s\n" % (k, v)
    open(cfgp, "w").write(text)
    if trace:
        shutil.copy(trace, os.path.join(wd, "trace.ndjson"))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + wd, "-cp", "/opt/veriftools/tla/tla2tools.jar:" + find_cm(), "tlc2.TLC",
           "-config", cfgp, "-workers", str(workers), "-metadir", meta, "-noTE"] + list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -9
    res = dict(rc=rc, out=out, wall=time.time() - t0, states=0, distinct=0)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    if m:
        res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    shutil.rmtree(wd, ignore_errors=True)
    return res

_cm = None
def find_cm():
    global _cm
    if _cm is None:
        c = [p for p in glob.glob("/opt/veriftools/tla/*.jar") if "tla2tools" not in p]
        _cm = ":".join(c)
    return _cm
