"""Whole simulations: campaigns of runs of the real time loop (harness/vloop.cpp), checked against spec/LoopTrace.tla.
A campaign is a base run followed by restarts of it and variants of it.  Nothing is decided here: this file draws the
configurations, runs them and puts what was written (XML descriptors) beside the recorded events."""
import os, re, json, math, time, random, shutil, tempfile, threading, struct, concurrent.futures as cf, xml.etree.ElementTree as ET
import scen, vrun, vbuild

UNIT = 1 << 20
def ms(t): return int(round(t * UNIT))
def tbits(d):
    u = struct.unpack("<Q", struct.pack("<d", d))[0]
    return [u >> 42, (u >> 21) & 0x1fffff, u & 0x1fffff]

class Run:
    """one simulation: ini = {section: {key: value}}; restart = iteration of the base run's checkpoint it starts from"""
    def __init__(s, ini, np, kind="base", threads=1, restart=None, alone=False, over=None):
        s.ini, s.np, s.kind, s.threads, s.restart, s.alone, s.over = ini, np, kind, threads, restart, alone, over or {}
class Campaign:
    def __init__(s, id, runs): s.id, s.runs = id, runs
    def dump(s):
        return json.dumps([dict(ini=r.ini, np=r.np, kind=r.kind, threads=r.threads, restart=r.restart, alone=r.alone, over=r.over) for r in s.runs], indent=1)
def load(text, id="replay"):
    return Campaign(id, [Run(d["ini"], d["np"], d["kind"], d["threads"], d["restart"], d["alone"], d["over"]) for d in json.loads(text)])

def merge(a, b):
    r = {k: dict(v) for k, v in a.items()}
    for k, v in b.items():
        r.setdefault(k, {}).update(v)
    return r
def text(ini): return "".join("[%s]\n" % s + "".join("%s=%s\n" % kv for kv in d.items()) for s, d in ini.items())
def get(ini, s, k, d):
    for a, b in ini.items():
        if a.lower() == s.lower():
            for x, y in b.items():
                if x.lower() == k.lower(): return y
    return d

# ------------------------------------------------------------------ drawing configurations
def geo(r, blocks=((2, 2, 2), (2, 2, 2), (4, 4, 2), (4, 2, 2), (2, 4, 4), (4, 4, 4)), dims=(2, 2, 3), maxfull=700, mincoarse=8, maxd=2):
    while True:
        g = scen.geometry(r, 40, dims, blocks, maxfull)
        if g.coarse >= mincoarse and g.lmax - g.lmin <= maxd and g.full * g.b[0] * g.b[1] * (g.b[2] if g.dim == 3 else 1) <= 16000: return g

def base_ini(r, g, ring=True):
    names = "xyz"
    bc = {}
    for d in range(3):
        for e in ("min", "max"): bc["boundary_type_%s%s" % (names[d], e)] = "periodic" if g.per[d] else r.choice(("absorbing", "reflecting"))
    ini = dict(run=dict(initial_conditions="vd_init,vd_snap", nstepmax=r.randint(3, 6), output_frequency=r.choice((-1, 1, 2, 3)), checkpoint_frequency=-1),
               mesh=dict(ndim=g.dim, **bc),
               amr=dict(level_min=g.lmin, level_max=g.lmax, bx=g.b[0], by=g.b[1], bz=g.b[2] if g.dim == 3 else 1, markers_kernel="vd_ref", remap="vd_map",
                        load_balancing_frequency=r.choice((1, 2, 2, 3, 5)), loadbalance_coherent_levels=r.choice((0, 1, 2, 3)), cycle_frequency=r.choice((1, 1, 1, 2, 3)), nboctspergroup=g.group),
               hydro=dict(update="vd_hydro"), dt=dict(dt_kernel=r.choice(("vd_dt1", "vd_dt1,vd_dt2", "vd_dt1,vd_dt2,vd_dt3"))),
               particles=dict(update_position="vd_move"),
               output=dict(backend="vd_io", checkpoint="vd_ck", outputPrefix="o"),
               vd=dict(seed=r.randrange(10**6), pct=r.choice((10, 25, 35)), npart=r.choice((0, 3, 20, 40)), naux=r.choice((0, 0, 5, 15)), up=r.choice((2, 5, 10, 15)), down=r.choice((20, 50, 80))))
    for d in range(g.dim):
        ini["amr"]["coarse_oct_resolution_" + names[d]] = g.cgs[d]
        if g.hi[d] != 1 or g.lo[d] != 0: ini["mesh"][names[d] + "min"], ini["mesh"][names[d] + "max"] = g.lo[d], g.hi[d]
    if r.random() < 0.3: ini["vd"]["extra"] = r.choice(("aa", "zz+b", "rho2"))
    if r.random() < 0.4:
        ini["gravity"] = dict(solver="vd_grav", gravity_type=r.choice(("field", "field", "constant_field", "constant_scalar")))
        if r.random() < 0.5: ini["particles"]["update_density"] = "vd_dens"
    elif r.random() < 0.15: ini["particles"]["update_density"] = "vd_dens"     # nothing without gravity
    for sec in ("viscosity", "thermal_conduction", "cooling"):
        if r.random() < 0.25: ini[sec] = dict(update="vd_cool" if sec == "cooling" else "vd_para")
    if r.random() < 0.15 or ini["vd"]["npart"] == 0: ini["particles"]["update_position"] = "none"
    return ini

def npof(r, g, top=5): return r.choice([n for n in (1, 2, 3, 3, 4, 5) if n <= top])
def thr(r, np): return r.choice((1, 1, 2, 3)) if np <= 3 else 1

def schedule(r, ini):
    """any combination of frequencies, intervals, limits and switches"""
    run = ini["run"]
    k = r.random
    run["nstepmax"] = r.choice((1, 3, 5, 8, 8))
    if k() < 0.5: run["iter_start"] = r.choice((1, 2, 3, 5, 7, 12)); run["nstepmax"] = run["iter_start"] + r.randint(1, 7)
    if k() < 0.4: run["tStart"] = r.choice((0.25, 1.5, 0.125 + 1. / 1024, 3))
    t0 = run.get("tStart", 0)
    if k() < 0.5:
        run["tEnd"] = t0 + r.choice((1, 3, 17, 40, 64, 100, 150)) / 1024.
        if k() < 0.5: run["nstepmax"] = r.choice((-1, 0, run.get("iter_start", 0) + 12))
        if k() < 0.2 and run["nstepmax"] > 0: run["use_tEnd"] = r.choice(("false", "off"))
    elif k() < 0.1: run["use_tEnd"] = "false"
    if k() < 0.08 and run.get("iter_start", 0) > 0: run["nstepmax"] = max(1, run["iter_start"] - r.choice((0, 0, 1)))     # nothing left to do
    elif k() < 0.08 and t0 > 0: run["tEnd"] = t0 - r.choice((0, 0, 0.0625))
    run["output_frequency"] = r.choice((-1, 0, 1, 2, 3, 4, 5, 10)); run["checkpoint_frequency"] = r.choice((-1, 0, 1, 2, 3, 4))
    if k() < 0.5: run["output_timeslice"] = r.choice((1, 7, 16, 32, 33, 100, 256)) / 1024.
    if k() < 0.4: run["checkpoint_timeslice"] = r.choice((5, 20, 32, 64, 90)) / 1024.
    if k() < 0.15: run["enable_output"] = "false"
    if k() < 0.15: run["enable_checkpoint"] = "false"
    if k() < 0.2: run["nlog"] = 1
    ini["amr"]["cycle_frequency"] = r.choice((1, 1, 2, 3, 4, 0, -1)); ini["amr"]["load_balancing_frequency"] = r.choice((1, 2, 3, 4, 0, -1, 1000))
    if k() < 0.15:
        ini["hydro"]["update"] = "none"
        for sec in ("viscosity", "thermal_conduction", "cooling"): ini.pop(sec, None)
    ini["output"]["checkpoint"] = "vd_ck"; ini["vd"]["checkpoint"] = "none"
    return ini

RECIPES = {   # real modules, bitwise independent of the decomposition as far as the algorithm goes
    "euler": dict(hydro="HydroUpdate_euler"), "hancock": dict(hydro="HydroUpdate_hancock"), "rk2": dict(hydro="HydroUpdate_RK2"),
    "oneneighbor": dict(hydro="HydroUpdate_hancock_oneneighbor"), "legacy": dict(hydro="HydroUpdate_legacy"),
    "mhd": dict(hydro="MHDUpdate_euler", ic="MHD_blast"), "mhdh": dict(hydro="MHDUpdate_hancock", ic="orszag_tang"),
    "mhdrk": dict(hydro="MHDUpdate_RK2", ic="MHD_rotor"), "mhdone": dict(hydro="MHDUpdate_hancock_oneneighbor", ic="orszag_tang"),
    "glm": dict(hydro="GLMMHDUpdate_euler", ic="MHD_blast_glm"), "glmrk": dict(hydro="GLMMHDUpdate_RK2", ic="orszag_tang_glm"),
    "star": dict(hydro="HydroUpdate_euler", extra=dict(gravity=dict(solver="GravitySolver_point_mass", gravity_type="constant_field", point_mass_x=0.4, point_mass_y=0.6, point_mass_z=0.45, point_mass_Gmass=0.1, softening=0.1))),
    "fall": dict(hydro="HydroUpdate_hancock", extra=dict(gravity=dict(solver="GravitySolver_constant", gravity_type="constant_scalar", gx=0.3, gy=-0.5, gz=0.2))),
    "starh": dict(hydro="HydroUpdate_hancock", extra=dict(gravity=dict(solver="GravitySolver_point_mass", gravity_type="constant_field", point_mass_Gmass=0.1, softening=0.1))),
    "orbits": dict(hydro="HydroUpdate_euler", dims=(3,), move="ParticleUpdate_CIC_move", extra=dict(gravity=dict(solver="GravitySolver_point_mass", gravity_type="constant_field", point_mass_x=0.4, point_mass_y=0.55, point_mass_z=0.3, point_mass_Gmass=5, softening=0.1), particle_grid=dict(nx=5, ny=4, nz=3, total_mass=1, dt_perturb=0))),
    "drops": dict(hydro="HydroUpdate_RK2", move="ParticleUpdate_NGP_move", extra=dict(gravity=dict(solver="GravitySolver_point_mass", gravity_type="constant_field", point_mass_x=0.7, point_mass_Gmass=5, softening=0.1), particle_grid=dict(nx=7, ny=6, nz=2, total_mass=1, dt_perturb=0))),
    "visc": dict(hydro="HydroUpdate_RK2", extra=dict(viscosity=dict(update="ParabolicUpdate_explicit", viscosity_type="constant", mu=0.0002), thermal_conduction=dict(update="ParabolicUpdate_explicit", kappa=0.0002)))}
def dims_of(name): return RECIPES[name].get("dims") or ((2,) if RECIPES[name].get("ic") in FLAT else (2, 2, 3))
FLAT = ("orszag_tang", "orszag_tang_glm", "MHD_rotor")

def real_ini(r, g, name=None, refine=None):
    rec = RECIPES[name]
    ini = base_ini(r, g)
    ic = rec.get("ic") or r.choice(("blast", "sod", "implode", "riemann2d", "kelvin_helmholtz") if g.dim == 2 else ("blast", "sod"))
    ini["run"].update(initial_conditions=ic + ",vd_snap", nstepmax=r.randint(3, 5))
    ini["hydro"] = dict(update="vd_" + rec["hydro"], gamma0=1.4, riemann="hlld" if "MHD" in rec["hydro"] else "hllc")
    for sec in ("viscosity", "thermal_conduction", "cooling"): ini.pop(sec, None)
    for sec, d in rec.get("extra", {}).items(): ini[sec] = dict(d)
    ini["vd"].update(hydro=rec["hydro"], dt1="Compute_dt_hydro", npart=0, naux=0, refine=refine or r.choice(("RefineCondition_pseudo_gradient", "RefineCondition_second_derivative_error", "hash")))
    ini["dt"] = dict(dt_kernel="vd_dt1", hydro_cfl=r.choice((0.2, 0.4)))   # gentle: the kernels must not diverge
    ini["amr"].update(epsilon_refine=r.choice((0.02, 0.1)), epsilon_coarsen=r.choice((0.005, 0.05)), error_min=0.2, error_max=0.6)
    ini["particles"] = dict(update_position="none")
    if "gravity" not in rec.get("extra", {}): ini.pop("gravity", None)
    if "move" in rec:
        ini["run"]["initial_conditions"] = ic + ",particle_grid,vd_snap"; ini["vd"]["move"] = rec["move"]
        ini["particles"] = dict(update_position="vd_move", update_density=rec["move"].replace("move", "density"))
    ini["blast"] = dict(radius=r.choice((0.15, 0.25)), density_in=1.0, density_out=1.2, pressure_in=2.0, pressure_out=1.0)
    ini["run"]["tEnd"] = r.choice((0, 0, 0, 0.015625, 0.0078125))
    return ini

# ------------------------------------------------------------------ what TLC is told about a configuration
def config(run, t0=None, tb0=None):
    ini = run.ini
    i = lambda s, k, d: int(get(ini, s, k, d))
    f = lambda s, k, d: float(get(ini, s, k, d))
    b = lambda s, k, d: 1 if str(get(ini, s, k, d)).lower() in ("1", "yes", "true", "on") else 0
    tend = f("run", "tEnd", 0)
    upd = get(ini, "hydro", "update", "none")
    wv = str(get(ini, "output", "write_variables", "rho"))
    pv = {}
    for x in str(get(ini, "output", "write_particle_variables", "")).split(","):
        x = x.strip()
        if not x: continue
        a, _, t = x.partition("/")
        pv.setdefault(a, [])
        if t: pv[a].append(t)
    mhd = (["Bx", "By", "Bz"] if "MHD" in upd else []) + (["psi"] if "GLM" in upd else [])
    return dict(enOut=b("run", "enable_output", "true"), enCk=b("run", "enable_checkpoint", "true"), out=i("run", "output_frequency", -1), ck=i("run", "checkpoint_frequency", -1),
                amr=i("amr", "cycle_frequency", 1), lb=i("amr", "load_balancing_frequency", 1000), outTs=ms(f("run", "output_timeslice", -1)), ckTs=ms(f("run", "checkpoint_timeslice", -1)),
                nstep=i("run", "nstepmax", 1000), useEnd=b("run", "use_tEnd", "true" if tend > 0 else "false"), tEnd=ms(tend), tEndb=tbits(abs(tend)),
                ndt=len(str(get(ini, "dt", "dt_kernel", "x")).split(",")), move=0 if get(ini, "particles", "update_position", "none") == "none" else 1, hydro=0 if upd == "none" else 1,
                visc=0 if get(ini, "viscosity", "update", "none") != "vd_para" else 1, cond=0 if get(ini, "thermal_conduction", "update", "none") != "vd_para" else 1, cool=0 if get(ini, "cooling", "update", "none") != "vd_cool" else 1,
                grav=0 if get(ini, "gravity", "solver", "none") != "vd_grav" else 1, dens=0 if get(ini, "particles", "update_density", "none") == "none" else 1,
                gfield=1 if get(ini, "gravity", "solver", "none") != "none" and "field" in get(ini, "gravity", "gravity_type", "none") else 0,
                i0=i("run", "iter_start", 0) if run.restart is None else run.restart, t0=ms(f("run", "tStart", 0)) if t0 is None else t0, mhd=mhd, wvars=wv.split(","), pvars=pv,
                prec=8 if get(ini, "output", "output_real_type", "float") == "double" else 4)

def xmf(path):
    """a descriptor, as it is; one that cannot be understood matches nothing"""
    try: return xmf_read(path)
    except (ET.ParseError, AttributeError, TypeError, ValueError): return dict(topo="unreadable", n=-1, tlo=1, thi=0, items=[], base="unreadable")
def xmf_read(path):
    root = ET.parse(path).getroot()
    grid = root.find("Domain").find("Grid")
    items = []
    def item(e, role):
        it = e.find("DataItem")
        fn, _, p = it.text.strip().partition(":/")
        prec = it.get("Precision"); nt = it.get("NumberType") or it.get("DataType") or "?"
        items.append(dict(role=role, file=fn, path=p, dims=[int(x) for x in it.get("Dimensions").split()], prec=int(prec), float=1 if nt == "Float" else 0))
    tv = grid.find("Time").get("Value")
    v = float(tv)
    d = 10.0 ** (math.floor(math.log10(abs(v))) - 5) * 0.5000001 if v else 1e-9
    topo = grid.find("Topology")
    if topo.find("DataItem") is not None: item(topo, "topology")
    item(grid.find("Geometry"), "geometry")
    for a in grid.findall("Attribute"): item(a, a.get("Name"))
    return dict(topo=topo.get("TopologyType"), n=int(topo.get("NumberOfElements")), tlo=math.floor((v - d) * UNIT), thi=math.ceil((v + d) * UNIT), items=items, base=os.path.basename(path)[:-4])
def main_refs(path):
    try: root = ET.parse(path).getroot()
    except ET.ParseError: return ["unreadable"]
    return [e.get("href") for e in root.iter() if e.tag.endswith("include")]

def augment(run, lines, t0):
    """adds the configuration and the descriptors to the recorded events"""
    out = []
    files = get(run.ini, "vd", "files", 0)
    for l in lines:
        if l.startswith('{"op":"run"'):
            e = json.loads(l); e["cfg"] = config(run, t0); e["kind"] = run.kind; l = json.dumps(e)
        elif files and l.startswith('{"op":"out"') and '"base":' in l:
            e = json.loads(l)
            p = os.path.join(run.dir, e["base"] + ".xmf")
            if os.path.exists(p): e["xmf"] = xmf(p)
            e["pxmf"] = {}
            for n in e["pfile"]:
                q = os.path.join(run.dir, e["pfile"][n]["name"][:-3] + ".xmf")
                if os.path.exists(q): e["pxmf"][n] = xmf(q)
            l = json.dumps(e)
        elif files and l.startswith('{"op":"end"'):
            e = json.loads(l)
            p = os.path.join(run.dir, str(get(run.ini, "output", "outputPrefix", "output")) + "_main.xmf")
            if os.path.exists(p): e["main"] = main_refs(p)
            l = json.dumps(e)
        out.append(l)
    return out

# ------------------------------------------------------------------ running
class Runner:
    def __init__(s, check, slots):
        s.c, s.SL, s.wd = check, slots, tempfile.mkdtemp(prefix="vl", dir="/tmp")
        s.exe = os.path.join(vbuild.BUILD, "vloop")
        s.n, s.lock = 0, threading.Lock()
    def close(s): shutil.rmtree(s.wd, ignore_errors=True)
    def prepare(s, camp, run, base):
        with s.lock: s.n += 1; k = s.n
        run.dir = os.path.join(s.wd, "d%d" % k); os.makedirs(run.dir)
        run.label = re.sub(r"[^A-Za-z0-9_.-]", "_", camp.id) + "." + str(camp.runs.index(run))
        if run.restart is None:
            open(os.path.join(run.dir, "run.ini"), "w").write(text(run.ini)); return True
        pre = get(run.ini, "output", "outputPrefix", "output")
        f = "restart_%s_%d" % (pre, run.restart)
        if not os.path.exists(os.path.join(base.dir, f + ".ini")) or not os.path.exists(os.path.join(base.dir, f + ".h5")): return False
        shutil.copy(os.path.join(base.dir, f + ".h5"), run.dir)
        # the configuration written by the code, with the observer added to the initial conditions and the overrides of this run
        sec, outl = "", []
        over = {(a.lower(), k.lower()): v for a, d in run.over.items() for k, v in d.items()}
        for l in open(os.path.join(base.dir, f + ".ini")).read().splitlines():
            m = re.match(r"\s*\[(.*)\]", l)
            if m:
                sec = m.group(1).lower(); outl.append(l)
                for (a, k), v in over.items():
                    if a == sec: outl.append("%s=%s" % (k, v))
                continue
            m = re.match(r"\s*([^=;]+?)\s*=\s*([^;]*)", l)
            if m and (sec, m.group(1).lower()) in over: continue
            if m and sec == "run" and m.group(1).lower() == "initial_conditions": l = "initial_conditions=%s,vd_snap" % m.group(2).strip()
            outl.append(l)
        open(os.path.join(run.dir, "run.ini"), "w").write("\n".join(outl) + "\n")
        return True
    def batch(s, jobs):
        """jobs: [(camp, run)] with the same np and threads.  Fills run.lines, run.fail"""
        while jobs:
            if s.c.over() or s.c.hung or len(s.c.viol) >= 6:
                for _, r in jobs: r.lines, r.fail = None, None
                return
            np, th = jobs[0][1].np, jobs[0][1].threads
            with s.lock: s.n += 1; lf = os.path.join(s.wd, "l%d" % s.n)
            d = lf + ".d"; os.makedirs(d)
            open(lf, "w").write("".join("%s run.ini trace.ndjson %s\n" % (r.dir, r.label) for _, r in jobs))
            for _, r in jobs:
                if os.path.exists(r.dir + "/trace.ndjson"): os.remove(r.dir + "/trace.ndjson")
            k = s.SL.take(np)
            try:
              if s.c.hung:
                for _, r in jobs: r.lines, r.fail = None, None
                return
              rc, to, tail = vrun.mpirun([s.exe, lf], np, d, 40 + 40 * len(jobs), th)
            finally: s.SL.give(k)
            why = [x for x in open(os.path.join(d, "out.log"), errors="replace").read().splitlines() if re.search(r"what\(\)|ssert|Signal:|rror:|Error", x)]
            tail = ("timeout " if to else "exit code %s " % rc) + " | ".join(why[:6]) + "\n" + tail[-1500:]
            done = 0
            for _, r in jobs:
                p = r.dir + "/trace.ndjson"
                ls = open(p, errors="replace").read().splitlines() if os.path.exists(p) else []
                if ls and ls[-1].startswith('{"op":"end"'): r.lines, r.fail = ls, None; done += 1
                else: break
            if done == len(jobs):
                if rc != 0: s.c.log("runs completed but the process group ended with", rc)
                return
            camp, r = jobs[done]
            if s.c.hung:
                for _, r in jobs[done:]: r.lines, r.fail = None, None
                return
            if len(jobs) > 1:   # the failing one alone
                s.batch([(camp, r)])
            elif getattr(r, "tries", 0) < 1 and "timeout" not in tail and "142" not in tail:
                r.tries = 1; s.batch([(camp, r)])
            else:
                p = r.dir + "/trace.ndjson"
                ls = open(p, errors="replace").read().splitlines() if os.path.exists(p) else []
                r.lines, r.fail = None, "after %d events, last %s: %s" % (len(ls), ls[-1][:60] if ls else "none", tail)
                if "timeout" in tail or "142" in tail: s.c.hung = True   # one is enough
            jobs = jobs[done + 1:]
    def phase(s, jobs, size=6):
        groups = {}
        for c, r in jobs:
            groups.setdefault((r.np, r.threads, id(r) if r.alone else 0), []).append((c, r))
        parts = []
        for g in groups.values():
            for i in range(0, len(g), size): parts.append(g[i:i + size])
        parts.sort(key=lambda p: -len(p) * p[0][1].np)
        with cf.ThreadPoolExecutor(12) as ex:
            for f in [ex.submit(s.batch, p) for p in parts]: f.result()

def trace_of(camp):
    """the lines of the whole campaign, and the run every line belongs to"""
    lines, own = [], []
    base = camp.runs[0]
    for i, r in enumerate(camp.runs):
        if r.lines is None: continue
        t0 = None
        if r.restart is not None:
            t0 = -2000000001
            for l in base.lines:
                if l.startswith('{"op":"ckpt","iter":%d,' % r.restart): t0 = int(re.search(r'"t":(-?\d+)', l).group(1))
        a = augment(r, r.lines, t0)
        lines += a; own += [i] * len(a)
    return lines, own

def decide(check, camps, tlc_trace, expand=None):
    """runs the campaigns and has TLC check them; expand(camp): more runs once the base run is known"""
    R = Runner(check, check.slots)
    try:
        jobs = []
        for c in camps:
            R.prepare(c, c.runs[0], None); jobs.append((c, c.runs[0]))
        R.phase(jobs)
        jobs = []
        for c in camps:
            b = c.runs[0]
            if b.lines is None: continue
            if expand: expand(c)
            for r in c.runs[1:]:
                r.lines, r.fail = None, None
                if R.prepare(c, r, b): jobs.append((c, r))
                else: r.fail = "the checkpoint of iteration %s was not written" % r.restart
        R.phase(jobs)
        todo = []
        for c in camps:
            for i, r in enumerate(c.runs):
                if getattr(r, "fail", None):
                    check.violation("crash:" + c.id, "campaign %s run %d (%s, np=%d): %s" % (c.id, i, r.kind, r.np, r.fail), {"campaign.json": c.dump()})
            if c.runs[0].lines is not None:
                try: todo.append((c,) + trace_of(c))
                except Exception as e: check.violation("file:" + c.id, "campaign %s: unreadable output: %r" % (c.id, e), {"campaign.json": c.dump()})
        check.log("recorded %d campaigns, %d runs, %d events, %.1f MB" % (len(todo), sum(len(c.runs) for c, _, _ in todo), sum(len(l) for _, l, _ in todo), sum(len(x) for _, l, _ in todo for x in l) / 1e6))
        # several campaigns per TLC run
        todo.sort(key=lambda u: -sum(map(len, u[1])))
        total = sum(len(x) for _, l, _ in todo for x in l)
        nb = max(1, min(len(todo), max(8, -(-total // 1500000))))
        bins = [[0, []] for _ in range(nb)]
        for u in todo:
            b = min(bins, key=lambda b: b[0]); b[0] += sum(map(len, u[1])); b[1].append(u)
        lock = threading.Lock()
        def verify(us):
            us = list(us)
            while us and len(check.viol) < 40:
                lines = [x for u in us for x in u[1]]
                st, info, r = tlc_trace(check.pid, lines, "LoopTrace", 850)
                with lock: check.cov["states"] += r["distinct"]; check.cov["transitions"] += max(0, r["states"] - 1)
                def count(u):
                    check.cov["traces_validated_against_impl"] += len([x for x in u[0].runs if x.lines])
                    for x in u[1]:
                        m = re.match(r'\{"op": ?"(\w+)"', x)
                        if m: check.cases[m.group(1)] = check.cases.get(m.group(1), 0) + 1
                    check.cov["samples"] += len(u[1])
                if st == "ok":
                    with lock:
                        for u in us: count(u)
                    return
                if st == "error":
                    with lock: check.errors.append(info)
                    return
                n, k = info[0], 0
                while n >= len(us[k][1]): n -= len(us[k][1]); k += 1
                c, ls, own = us[k]
                with lock:
                    for v in us[:k]: count(v)
                    run = c.runs[own[n]]
                    check.violation(c.id, "campaign %s, run %d (%s, np=%d, threads=%d), event %s: %s" % (c.id, own[n], run.kind, run.np, run.threads, ls[n][:70], "; ".join(info[2])),
                                    {"campaign.json": c.dump(), "trace.ndjson": "\n".join(ls) + "\n"})
                us = us[k + 1:]
        with cf.ThreadPoolExecutor(12) as ex:
            for f in [ex.submit(verify, b[1]) for b in bins if b[1]]: f.result()
    finally:
        R.close()

# ------------------------------------------------------------------ campaigns of each property
def gen(pid, seed, tier):
    big = tier == "thorough"
    camps, expand = [], None
    def R(i): return random.Random("%s/%s/%d/%d" % (pid, tier, seed, i))
    if pid in ("C16", "C17"):
        n = 900 if big else 150
        if pid == "C17": n = 600 if big else 110
        for i in range(n):
            r = R(i); g = geo(r, maxfull=200)
            ini = schedule(r, base_ini(r, g))
            if pid == "C17":
                if i % 3 == 0:   # real limits: hydro, particle velocity
                    name = r.choice(sorted(RECIPES)); dims = dims_of(name)
                    g = geo(r, blocks=((4, 4, 4),), dims=dims, maxfull=128); ini2 = real_ini(r, g, name)
                    ini2["dt"]["dt_kernel"] = r.choice(("vd_dt1", "vd_dt1,vd_dt2", "vd_dt2,vd_dt1"))
                    ini2["run"]["tEnd"] = r.choice((0, 0.03125, 0.0078125, 0.25, 1. / 1024))
                    ini2["run"]["nstepmax"] = 6
                    ini2["vd"]["checkpoint"] = "none"
                    ini = ini2
                else:
                    ini["dt"]["dt_kernel"] = r.choice(("vd_dt1,vd_dt2,vd_dt3", "vd_dt1,vd_dt2", "vd_dt1")); ini["run"]["use_tEnd"] = "true" if "tEnd" in ini["run"] else "false"
            np = npof(r, g, 4)
            alone = False
            if pid == "C16" and i % 8 == 5:
                alone = True; ini["vd"].update(sigint_iter=int(ini["run"].get("iter_start", 0)) + r.randint(0, 2), sigint_rank=r.choice((-1, 0, 1, 2)))
            camps.append(Campaign("c%d" % i, [Run(ini, np, threads=thr(r, np), alone=alone)]))
    elif pid == "C15":
        n = 150 if big else 42
        for i in range(n):
            r = R(i)
            if i % 3 == 2:
                name = sorted(RECIPES)[(i // 3 + seed) % len(RECIPES)]
                g = geo(r, blocks=((4, 4, 4),), dims=dims_of(name), maxfull=256); ini = real_ini(r, g, name)
            else:
                g = geo(r, maxfull=400); ini = base_ini(r, g)
                if r.random() < 0.4: ini["run"]["tStart"] = 0.5
                if r.random() < 0.4: ini["run"]["iter_start"] = 7; ini["run"]["nstepmax"] += 7
                if r.random() < 0.4: ini["run"]["output_timeslice"] = r.choice((16, 50)) / 1024.
                if r.random() < 0.4: ini["run"]["checkpoint_timeslice"] = r.choice((33, 50)) / 1024.
                if r.random() < 0.4: ini["run"]["tEnd"] = ini["run"].get("tStart", 0) + r.choice((50, 100, 170)) / 1024.
            ini["run"]["checkpoint_frequency"] = r.choice((1, 2, 2, 3)); ini["output"]["outputPrefix"] = r.choice(("o", "Run_1"))
            np = npof(r, g)
            camps.append(Campaign("c%d" % i, [Run(ini, np, threads=thr(r, np))]))
        def expand(c):
            r = random.Random("x%s%s%d" % (c.id, pid, seed))
            its = [int(re.match(r'\{"op":"ckpt","iter":(\d+)', l).group(1)) for l in c.runs[0].lines if l.startswith('{"op":"ckpt"')]
            pick = its if big else sorted(set([its[0], its[-1]] if r.random() < 0.5 else its[:2]))
            for k in pick:
                np = r.choice([c.runs[0].np] + [1, 2, 3, 4, 5]); th = thr(r, np)
                c.runs.append(Run(c.runs[0].ini, np, "restart", th, k))
    elif pid == "C19":
        n = 150 if big else 44
        for i in range(n):
            r = R(i)
            if i % 2:
                name = sorted(RECIPES)[(i // 2 + seed) % len(RECIPES)]
                b = r.choice(((4, 4, 4), (4, 4, 4), (6, 4, 4), (4, 6, 4), (4, 4, 6), (8, 4, 4))) if name in ("euler", "rk2", "legacy", "oneneighbor", "mhd", "mhdrk") else (4, 4, 4)
                g = geo(r, blocks=(b,), dims=dims_of(name), maxfull=256); ini = real_ini(r, g, name)
            else:
                g = geo(r, maxfull=400); ini = base_ini(r, g)
            ini["vd"]["checkpoint"] = "none"
            runs = [Run(ini, r.choice((1, 1, 2)))]
            for v in range(3 if big else 2):
                np = r.choice((2, 3, 4, 5)) if v == 0 else npof(r, g)
                over = dict(amr=dict(load_balancing_frequency=r.choice((0, 1, 2, 3, 1000)), loadbalance_coherent_levels=r.choice((0, 1, 2, 3)), nboctspergroup=r.choice((1024, 3, 7))), vd=dict(init_lb=r.choice((0, 1))))
                runs.append(Run(merge(ini, over), np, "variant", thr(r, np)))
            camps.append(Campaign("c%d" % i, runs))
    elif pid == "C20":
        n = 250 if big else 80
        for i in range(n):
            r = R(i); g = geo(r, blocks=((2, 2, 2), (2, 4, 2), (4, 2, 2), (4, 4, 2), (2, 2, 4)), dims=(2, 3, 3) if i % 2 else (2,), maxfull=150); ini = base_ini(r, g)
            ini["vd"].update(files=1, backend="IOManager_hdf5", checkpoint="none", npart=r.choice((0, 2, 20)), naux=r.choice((0, 5)))
            if ini["vd"]["npart"] == 0: ini["particles"]["update_position"] = "none"
            allv = ["rho", "e_tot", "rho_vx", "rho_vy", "rho_vz", "level", "rank", "ioct", "unknown", "aa", "zz", "b", "iOct", "rho_next"]
            r.shuffle(allv)
            ini["output"].update(write_variables=",".join(allv[:r.randint(1, 9)]), outputPrefix=r.choice(("o", "Snap_x")), output_real_type=r.choice(("float", "double")))
            if r.random() < 0.15: del ini["output"]["write_variables"]
            if r.random() < 0.2: del ini["output"]["output_real_type"]
            pv = ["particles", "particles/id", "particles/m", "particles/none", "aux/id", "aux/m", "aux"]; r.shuffle(pv)
            if r.random() < 0.85: ini["output"]["write_particle_variables"] = ",".join(pv[:r.randint(1, 4)])
            ini["run"].update(output_frequency=r.choice((1, 2, -1)), nstepmax=r.randint(1, 4))
            if r.random() < 0.3: ini["run"].update(iter_start=r.choice((7, 123, 10000000)), ); ini["run"]["nstepmax"] += ini["run"]["iter_start"]
            if r.random() < 0.3: ini["run"]["tStart"] = r.choice((0.5, 100.25, 1000))
            np = npof(r, g)
            camps.append(Campaign("c%d" % i, [Run(ini, np, threads=thr(r, np))]))
    elif pid == "C11":
        for i in range(60 if big else 10):
            r = R(i); g = geo(r, maxfull=300); ini = base_ini(r, g)
            ini["vd"].update(checkpoint="none", npart=r.choice((3, 20, 40)), naux=r.choice((0, 5, 15))); ini["particles"]["update_position"] = "vd_move"
            np = r.choice((2, 3, 4, 5))
            camps.append(Campaign("loop%d" % i, [Run(ini, np, threads=thr(r, np))]))
    return camps, expand
