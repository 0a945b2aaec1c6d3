"""What is run for each property."""
import os, concurrent.futures as cf
import vbuild, vrun, scen, models, check as ck

ASSUME = ["the projection in harness/*.cpp reads the state through the public API of the mesh and of UserData",
          "Open MPI point-to-point semantics; one process count at a time, up to 8 processes",
          "release build without the debug assertions (NDEBUG), Kokkos OpenMP with one to three threads per process"]

def build(name):
    h, l = vbuild.TARGETS[name]
    return vbuild.build(name, h, l)

LOOP_ONLY = ("C15", "C16", "C17", "C19", "C20")   # decided on whole simulations
LOOP_TOO = ("C11",)
CONF = ("C18", "C24")
PHYS = ("C21", "C22", "C23", "C25", "C26", "C27", "C28", "C29")
import loops, confs
LOOP_ASSUME = ["the observing modules of harness/vloop.cpp are called by the time loop like any other module and show the state through the public API",
               "times and time steps are compared exactly when they are multiples of 2^-20, otherwise by their bit patterns",
               "states are compared through 31-bit hashes of every octant and field",
               "Open MPI with ROMIO for MPI-IO (the installed OMPIO component corrupts its heap)"]

def run(c, a):
    c.slots = ck.SL
    if c.pid in CONF:
        exe, w = build("vconf")
        c.log("vconf built in %.0fs" % w)
        c.exe, c.module = "vconf", "ConfTrace"
    if c.pid in PHYS:
        exe, w = build("vphys")
        c.log("vphys built in %.0fs" % w)
        c.exe = "vphys"
    if c.pid in LOOP_ONLY or c.pid in LOOP_TOO:
        exe, w = build("vloop")
        c.log("vloop built in %.0fs" % w)
    if a.replay and os.path.exists(os.path.join(a.replay, "campaign.json")):
        loops.decide(c, [loops.load(open(os.path.join(a.replay, "campaign.json")).read())], ck.tlc_trace)
        return c.finish()
    if c.pid not in LOOP_ONLY + CONF + PHYS:
        exe, w = build("vdrive")
        c.log("built in %.0fs" % w)
    if a.replay:
        np = int(open(os.path.join(a.replay, "np")).read())
        ls = open(os.path.join(a.replay, "scenario.txt")).read().splitlines()
        tp = os.path.join(a.replay, "threads")
        c.threads = int(open(tp).read()) if os.path.exists(tp) else 1
        c.traces([(np, [("replay", ls)])])
        return c.finish()
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(c.model, m[0], m[1], what=m[2]) for m in models.of(c.pid, c.tier)]
        if c.pid in CONF: c.traces(confs.generate(c.pid, c.seed, c.tier))
        elif c.pid not in LOOP_ONLY:
            o = scen.generate(c.pid, c.seed, c.tier)
            per = 8 if c.tier == "quick" else 12
            c.traces(o.groups(per))
        if c.pid in LOOP_ONLY or c.pid in LOOP_TOO:
            camps, expand = loops.gen(c.pid, c.seed, c.tier)
            loops.decide(c, camps, ck.tlc_trace, expand)
        for f in fs: f.result()
    return c.finish(assumptions=ASSUME + (LOOP_ASSUME if c.pid in LOOP_ONLY + LOOP_TOO else []))
