"""Scenario generation (driver side).  The expected behaviour is never computed here: it is decided by the
TLA+ specification when the recorded trace is checked.  Everything derives from (property, seed, tier)."""
import random, itertools, math

def fmt(_op, **kw):
    return _op + "".join(" %s=%s" % (k, ",".join(str(x) for x in v) if isinstance(v, (list, tuple)) else v) for k, v in kw.items())

class Geo:
    def __init__(s, dim, cgs, lmin, lmax, per, b=(2, 2, 2), lo=(0, 0, 0), hi=(1, 1, 1), group=1024):
        s.dim, s.cgs, s.lmin, s.lmax, s.per, s.b, s.lo, s.hi, s.group = dim, list(cgs), lmin, lmax, list(per), list(b), lo, hi, group
        if dim == 2:
            s.cgs[2:] = [1]; s.per[2:] = [0]; s.b[2:] = [1]
    @property
    def coarse(s):
        return s.cgs[0] * s.cgs[1] * (s.cgs[2] if s.dim == 3 else 1)
    @property
    def full(s):
        return s.coarse << (s.dim * (s.lmax - s.lmin))
    def begin(s, id, obs, **kw):
        return fmt("begin", id=id, dim=s.dim, cgs=s.cgs, lmin=s.lmin, lmax=s.lmax, per=s.per, b=s.b, lo=s.lo, hi=s.hi, group=s.group, obs=obs, **kw)

def geometry(r, maxcoarse=40, dims=(2, 2, 3), blocks=((2, 2, 2),), maxfull=6000):
    tiny = r.random() < 0.2     # fewer octants than processes, domains one octant wide, level 0
    dim = r.choice(dims)        # before the bounds on the size, which would leave few 3D meshes
    while True:
        lmin = r.choice((0, 1, 1, 2) if tiny else (1, 2, 2, 3))
        top = 1 << lmin
        if r.random() < 0.3:
            cgs = [top] * 3
        else:
            cgs = [r.randint(1, top) for _ in range(3)]
            # the level has to be needed by at least one direction
            cgs[r.randrange(dim)] = r.randint(top // 2 + 1, top)
        per = [r.choice((0, 0, 1)) for _ in range(3)]
        lmax = lmin + r.choice([1, 2, 2, 3])
        b = r.choice(blocks)
        g = Geo(dim, cgs, lmin, lmax, per, b, group=r.choice((1024, 1024, 3, 7)))
        if (g.coarse <= 4 if tiny else 4 <= g.coarse <= maxcoarse) and (1 << lmax) <= 256 and g.full <= maxfull:
            if r.random() < 0.3:
                g.lo = [r.choice((-1.5, 0.25, 2.0)) for _ in range(3)]
                g.hi = [x + r.choice((0.5, 2.0, 3.0)) for x in g.lo]
            return g

def marks(r, g, np):
    """arguments of one adapt"""
    k = r.random()
    # expected size stays around a few hundred octants: refine a fraction of the mesh that depends on how much room there is
    room = min(1.0, 300.0 / g.full)
    if k < 0.45:
        pr = int(1000 * min(0.5, r.choice((0.08, 0.2, 0.45, 0.9)) * (room + 0.05)))
        return dict(marks="rand", seed=r.randrange(10**6), pr=max(20, pr), pc=r.choice((50, 200, 500, 900)))
    if k < 0.72:
        return dict(marks="ball", cx=r.randint(0, 100), cy=r.randint(0, 100), cz=r.randint(0, 100), r=r.choice((3, 8, 15, 25, 35) if room > 0.3 else (3, 8, 15)), other=r.choice((0, 0, -1)))
    if k < 0.85 and np > 1:
        return dict(marks="rank", rank=r.randrange(np), mark=r.choice((1, 1, -1)) if room > 0.05 else -1, other=r.choice((0, 0, -1)))
    if k < 0.89:
        return dict(marks="all", mark=-1)
    if room == 1.0 and k < 0.93:
        return dict(marks="all", mark=1)
    return dict(marks="code", code="".join(r.choice("+-.....") for _ in range(200)))

def adapt(r, g, np, op="adapt", **kw):
    m = marks(r, g, np)
    if op == "adapt" and r.random() < 0.4:
        kw["via"] = "setMarkers"
    return fmt(op, **m, **kw)

def compact(r, g):
    return r.choice((0, 1, 1, 2, g.lmax - g.lmin, g.lmax))

def walk(r, g, np, n, extra=(), padapt=0.6, plb=0.35):
    """a mesh history; extra: operations observed after each step with probability"""
    out = [adapt(r, g, np)] if r.random() < 0.7 else []
    if r.random() < 0.15 and g.full <= 300:
        out.append("grefine")
    for _ in range(n):
        k = r.random()
        if k < padapt:
            out.append(adapt(r, g, np))
        elif k < padapt + plb:
            out.append(fmt("lb", compact=compact(r, g)))
        elif g.full <= 150:
            out.append("grefine")
        for name, p, kw in extra:
            if r.random() < p:
                out.append(fmt(name, **{a: (v(r) if callable(v) else v) for a, v in kw.items()}))
    return out

SEEDARG = lambda r: r.randrange(10**6)
NPS = [1, 2, 3, 3, 4, 5, 8]

class Out:
    """scenarios grouped per number of processes"""
    def __init__(s, pid):
        s.pid, s.by = pid, {}
    def add(s, np, head_obs, g, ops, threads=0, **kw):
        """threads: Kokkos threads of every process (0: varied)"""
        k = s.by.setdefault((np, threads), [])
        id = "%s-%d-%d%s" % (s.pid, np, len(k), "t" if threads else "")
        k.append((id, [g.begin(id, head_obs, **kw)] + ops))
    def groups(s, per):
        for np, th in sorted(s.by, reverse=True):
            l = s.by[np, th]
            for i in range(0, len(l), per):
                yield (np, l[i:i + per], th) if th else (np, l[i:i + per])

def direct(r):
    return dict(direct=1) if r.random() < 0.3 else {}

def staircase(r):
    """tightly graded meshes: one more refinement at the tip forces a chain of refinements down to the coarsest level,
    through the octants of many processes"""
    dim = r.choice((2, 2, 2, 3))
    lmin = r.choice((0, 1, 1, 2))
    lmax = lmin + (r.choice((4, 5, 6)) if dim == 2 else 4)
    g = Geo(dim, [1 << lmin] * 3, lmin, min(lmax, 7), [r.choice((0, 1)) for _ in range(3)])
    p = [r.randint(1, 999) for _ in range(3)]
    if r.random() < 0.5: p = [r.choice((1, 499, 501, 249, 251, 999, x)) for x in p]
    m = lambda q: fmt("adapt", marks="ball", mil=1, cx=q[0], cy=q[1], cz=q[2], r=0, other=0)
    ops = [m(p) for _ in range(g.lmax - lmin - r.choice((0, 1)))]
    for _ in range(r.randint(2, 4)):
        ops.append("lb compact=0")
        # next to the tip, or a second tip
        q = [min(999, max(1, x + r.choice((-1, 0, 1)) * r.choice((1, 4, 8, 16, 32, 64)))) for x in p]
        ops += [m(q)] * r.choice((1, 1, 2))
    return g, ops

def deep(r):
    """few octants, very fine ones: positions and curve keys of up to 20 levels"""
    dim = r.choice((2, 2, 3))
    lmin = r.choice((0, 1))
    top = r.choice((9, 12, 16, 20)) if dim == 2 else r.choice((9, 11, 17))
    g = Geo(dim, [1 << lmin] * 3, lmin, top, [r.choice((0, 1)) for _ in range(3)])
    c = [r.choice((0, 999, 500, r.randint(1, 999))) for _ in range(3)]
    ops = []
    for l in range(top - lmin):
        ops.append(fmt("adapt", marks="ball", mil=1, cx=c[0], cy=c[1], cz=c[2], r=0, other=r.choice((0, 0, 0, -1)) if l > 2 else 0))
        if r.random() < 0.25: ops.append(fmt("lb", compact=r.choice((0, 0, 1, 2))))
    ops.append("lb compact=0")
    for _ in range(2): ops.append(fmt("adapt", marks="rand", pr=r.choice((0, 30)), pc=r.choice((200, 600)), seed=r.randrange(10**6)))
    return g, ops

def big(r):
    """many octants on every process: tables larger than their first size"""
    dim = r.choice((3, 3, 2))
    cgs = [8, 8, r.choice((4, 8))] if dim == 3 else [16, 16]
    g = Geo(dim, cgs, 3 if dim == 3 else 4, 5, [r.choice((0, 1)) for _ in range(3)])
    ops = [fmt("adapt", marks="ball", cx=r.randint(0, 100), cy=r.randint(0, 100), cz=r.randint(0, 100), r=r.choice((6, 12)), other=0)]
    ops += [fmt("lb", compact=r.choice((0, 1)))]
    return g, ops

def mesh_prop(pid, r, tier, n, obs, extra, geo=geometry, steps=(4, 9), stair=4, nbig=30, **wk):
    o = Out(pid)
    for i in range(n):
        np = NPS[i % len(NPS)]
        if stair and i % stair == 0:
            g, ops = staircase(r)
            for name, p, kw in extra:
                for k in range(len(ops), 0, -1):
                    if r.random() < 0.3 * p: ops.insert(k, fmt(name, **{a: (v(r) if callable(v) else v) for a, v in kw.items()}))
            o.add(r.choice((3, 4, 5, 8, 8)), obs, g, ops); continue
        if nbig and i % nbig == 7:
            g, ops = deep(r)
            o.add(r.choice((1, 2, 3, 5)), obs, g, ops); continue
        if nbig and i % nbig == 1:
            g, ops = big(r)
            o.add(8, obs, g, ops); continue
        g = geo(r)
        pre = [fmt(name, **{a: (v(r) if callable(v) else v) for a, v in kw.items()}) for name, p, kw in extra if r.random() < p]
        o.add(np, obs, g, pre + walk(r, g, np, r.randint(*steps), extra, **wk), **direct(r))
    return o

def gen_C01(r, tier): return mesh_prop("C01", r, tier, 700 if tier == "quick" else 4000, "mesh", [])
def gen_C02(r, tier): return mesh_prop("C02", r, tier, 700 if tier == "quick" else 4000, "mesh", [], padapt=0.75, plb=0.2)
def gen_C03(r, tier): return mesh_prop("C03", r, tier, 700 if tier == "quick" else 4000, "mesh", [], padapt=0.45, plb=0.5)
def gen_C04(r, tier): return mesh_prop("C04", r, tier, 600 if tier == "quick" else 3000, "mesh,ghosts", [("tags", 0.3, {})])
def gen_C05(r, tier):
    return mesh_prop("C05", r, tier, 450 if tier == "quick" else 2000, "", [("query", 0.35, {}), ("points", 0.5, dict(seed=SEEDARG, count=40))],
                     geo=lambda r: geometry(r, maxcoarse=20, maxfull=2000), steps=(3, 6), stair=10, nbig=0)

# ------------------------------------------------ data carried by the mesh
CUBES = ((1, 1, 1), (2, 2, 2), (2, 2, 2), (3, 3, 3), (4, 4, 4), (4, 2, 2), (2, 4, 2), (2, 2, 4), (3, 2, 4), (1, 2, 1), (2, 1, 3), (5, 4, 2), (4, 4, 2))
EVEN = ((2, 2, 2), (2, 2, 2), (4, 4, 4), (4, 2, 2), (2, 4, 6), (2, 2, 4), (6, 2, 2))

def small(r, blocks=CUBES, maxcells=2600, maxfull=400):
    """geometry with blocks; the number of cells stays bounded"""
    dim = r.choice((2, 2, 2, 3, 3))
    while True:
        g = geometry(r, maxcoarse=16, dims=(dim,), maxfull=maxfull, blocks=blocks)
        n = g.b[0] * g.b[1] * (g.b[2] if g.dim == 3 else 1)
        if n * min(g.full, 8 * g.coarse) <= maxcells: return g

def mesh_prefix(r, g, np):
    """a mesh and a partition, before there is any data"""
    ops = []
    for _ in range(r.randint(1, 3)):
        ops.append(adapt(r, g, np))
        if r.random() < 0.6: ops.append(fmt("lb", compact=compact(r, g)))
    if r.random() < 0.5: ops.append(adapt(r, g, np))
    return ops

NAMES = ["rho", "e_tot", "a", "b", "c"]
def subset(r, names, lo=1, hi=9):
    k = r.randint(lo, min(hi, len(names)))
    return r.sample(names, k)
def depth(r, g):
    m = min(g.b[0], g.b[1])
    if r.random() < 0.07: return r.randint(1, 4)     # possibly more than the block holds
    return r.randint(1, max(1, min(3, m)))
def registry_noise(r, names):
    """operations that make the storage columns differ from the name order"""
    ops, have = [], []
    pool = names[:]
    r.shuffle(pool)
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if (k < 0.5 or len(have) < 2) and pool:
            n = pool.pop(); have.append(n); ops.append(fmt("newf", names=[n]))
        elif k < 0.7 and len(have) > 1:
            n = have.pop(r.randrange(len(have))); pool.append(n); ops.append(fmt("delf", name=n))
        elif k < 0.9 and pool:
            d = pool.pop(); n = have.pop(r.randrange(len(have))); have.append(d); pool.append(n); ops.append(fmt("movef", dest=d, src=n))
        else: ops.append(fmt("extendf"))
    if not have: have.append(pool.pop()); ops.append(fmt("newf", names=[have[0]]))
    return ops, have

def gen_C06(r, tier):
    o = Out("C06")
    for i in range(360 if tier == "quick" else 2500):
        np = NPS[1 + i % (len(NPS) - 1)]
        g = small(r)
        ops = mesh_prefix(r, g, np)
        if r.random() < 0.25:
            for _ in range(3):
                ops.append(fmt("axchg", n=r.randint(1, 3), gc=depth(r, g), seed=SEEDARG(r), impl=r.choice(("partial", "partial", "full"))))
                ops.append(adapt(r, g, np))
            o.add(np, "ghosts", g, ops); continue
        n, have = registry_noise(r, NAMES)
        ops += n
        for _ in range(r.randint(2, 4)):
            ops.append(fmt("setf", seed=SEEDARG(r)))
            ops.append(fmt("ghostset", mode="garbage", seed=SEEDARG(r)))
            ops.append(fmt("xchg", names=subset(r, have), gc=depth(r, g), impl=r.choice(("partial", "partial", "full")), times=r.choice((1, 1, 2))))
            k = r.random()
            if k < 0.35: ops.append(adapt(r, g, np, "adaptmap"))
            elif k < 0.6: ops.append(fmt("lbdata", compact=compact(r, g)))
            elif k < 0.7: ops.append(fmt("extendf"))
            elif k < 0.8: ops += ["reallocf", "extendf"]
        o.add(np, "ghosts,fields,gcells", g, ops)
    return o

def gen_C07(r, tier):
    o = Out("C07")
    for i in range(360 if tier == "quick" else 2500):
        np = NPS[1 + i % (len(NPS) - 1)]
        g = small(r)
        ops = mesh_prefix(r, g, np)
        if r.random() < 0.25:
            for _ in range(3):
                ops.append(fmt("areduce", n=r.randint(1, 3), gc=depth(r, g), seed=SEEDARG(r), impl=r.choice(("partial", "partial", "full"))))
                ops.append(adapt(r, g, np))
            o.add(np, "ghosts", g, ops); continue
        n, have = registry_noise(r, NAMES)
        ops += n
        for _ in range(r.randint(2, 4)):
            gc = depth(r, g)
            ops.append(fmt("setf", seed=SEEDARG(r)))
            ops.append(fmt("ghostset", mode="depth", depth=gc, seed=SEEDARG(r)))
            ops.append(fmt("reduce", names=subset(r, have), gc=gc, impl=r.choice(("partial", "partial", "full"))))
            k = r.random()
            if k < 0.35: ops.append(adapt(r, g, np, "adaptmap"))
            elif k < 0.6: ops.append(fmt("lbdata", compact=compact(r, g)))
            elif k < 0.7: ops.append(fmt("extendf"))
        o.add(np, "ghosts,fields,gcells", g, ops)
    # every process has a copy of every octant: threads add to the same cells at the same time
    for i in range(8 if tier == "quick" else 60):
        dim = 2 + i % 2
        g = Geo(dim, (2, 2, 2), 1, 2, (1, 1, 1), r.choice(((2, 2, 2), (4, 2, 2), (3, 3, 3), (4, 4, 4))))
        ops = [fmt("newf", names=NAMES[:r.randint(1, 3)])]
        for _ in range(2):
            ops += [fmt("setf", seed=SEEDARG(r)), fmt("ghostset", mode="depth", depth=1, seed=SEEDARG(r)), fmt("reduce", names=NAMES[:1], gc=1, impl=("partial", "full")[i // 2 % 2], times=400)]
        o.add(4, "ghosts,fields,gcells", g, ops, threads=3)
    return o

def field_op(r, names):
    k = r.random()
    n = lambda: r.choice(names)
    if k < 0.22: return fmt("newf", names=subset(r, names, 1, 3))
    if k < 0.42: return fmt("setf", names=subset(r, names, 1, 3), seed=SEEDARG(r))
    if k < 0.58: return fmt("movef", dest=n(), src=n())
    if k < 0.72: return fmt("delf", name=n())
    if k < 0.78: return fmt("hasf", name=n())
    if k < 0.84: return fmt("getf", name=n())
    if k < 0.92: return fmt("acc", names=subset(r, names, 1, 3))
    if k < 0.96: return fmt("reallocf")
    return fmt("extendf")

def gen_C08(r, tier):
    o = Out("C08")
    for i in range(450 if tier == "quick" else 3000):
        np = r.choice((1, 1, 2, 3))
        g = small(r, blocks=((1, 1, 1), (2, 1, 2), (2, 2, 2)), maxcells=200, maxfull=100)
        ops = [adapt(r, g, np)] if r.random() < 0.7 else []
        if np > 1 and r.random() < 0.7: ops.append("lb")
        names = NAMES[:r.randint(2, 5)]
        ops.append(fmt("newf", names=subset(r, names)))
        ops.append("setf seed=%d" % SEEDARG(r))
        for _ in range(r.randint(10, 25)):
            x = field_op(r, names)
            ops.append(x)
            if x == "reallocf": ops += ["extendf", "setf seed=%d" % SEEDARG(r)]
            if r.random() < 0.07: ops.append(adapt(r, g, np, "adaptmap"))
            if r.random() < 0.07: ops.append(fmt("lbdata", compact=0))
        o.add(np, "fields,gcells" if r.random() < 0.6 else "fields", g, ops)
    return o

ATTS = ["m", "vx", "id", "q"]
def particles_setup(r, g, np, arrays=("p", "q"), many=14):
    ops = []
    for a in subset(r, list(arrays)):
        ops.append(fmt("newpa", array=a, n=[r.choice((0, 1, 3, r.randint(1, many))) for _ in range(np)], seed=SEEDARG(r), **(dict(cluster=1) if r.random() < 0.3 else {})))
        at = subset(r, ATTS, 1, 4)
        for t in at: ops.append(fmt("newat", array=a, name=t))
        for t in at: ops.append(fmt("setat", array=a, name=t, seed=SEEDARG(r)))
        if r.random() < 0.4 and len(at) > 1:
            ops.append(fmt("delat", array=a, name=at[0]))
            if r.random() < 0.5: ops += [fmt("newat", array=a, name="z"), fmt("setat", array=a, name="z", seed=SEEDARG(r))]
        if r.random() < 0.3: ops.append(fmt("mvat", array=a, dest="w", src=at[-1]))
    return ops

def gen_C09(r, tier):
    o = Out("C09")
    for i in range(450 if tier == "quick" else 3000):
        np = NPS[1 + i % (len(NPS) - 1)]
        g = small(r, maxcells=1200)
        ops = mesh_prefix(r, g, np)
        n, have = registry_noise(r, NAMES)
        ops += n + [fmt("setf", seed=SEEDARG(r))]
        ops += particles_setup(r, g, np)
        for _ in range(r.randint(2, 4)):
            if r.random() < 0.75: ops.append(adapt(r, g, np, "adaptmap", dist=r.choice((0, 1))))
            if r.random() < 0.3:
                x, have2 = registry_noise(r, [n for n in NAMES if n not in have] + ["x", "y"])
                have = have + have2
                ops += x
                if len(have) > 7: have = []
            if r.random() < 0.7: ops.append(fmt("setf", seed=SEEDARG(r)))
            ops.append(fmt("lbdata", compact=compact(r, g)))
        o.add(np, "fields,particles", g, ops)
    return o

def gen_C10(r, tier):
    o = Out("C10")
    for i in range(450 if tier == "quick" else 3000):
        np = NPS[i % len(NPS)]
        g = small(r, blocks=EVEN + ((1, 1, 1), (3, 3, 3), (5, 3, 1)), maxcells=2000)
        ops = mesh_prefix(r, g, np)
        n, have = registry_noise(r, NAMES)
        ops += n
        for _ in range(r.randint(1, 3)):
            ops.append(fmt("setf", seed=SEEDARG(r), scale=4096))
            for _ in range(r.randint(1, 3)):
                ops.append(adapt(r, g, np, "adaptmap"))
            if r.random() < 0.4: ops.append(fmt("lbdata", compact=r.choice((0, 0, 1))))
        o.add(np, "fields", g, ops)
    return o

def gen_C11(r, tier):
    o = Out("C11")
    for i in range(450 if tier == "quick" else 3000):
        np = NPS[i % len(NPS)]
        g = small(r, blocks=((1, 1, 1), (2, 2, 2)), maxcells=1000)
        ops = mesh_prefix(r, g, np)
        ops += ["newf names=a"] + particles_setup(r, g, np, many=20)
        for _ in range(r.randint(3, 6)):
            k = r.random()
            if k < 0.3: ops.append(adapt(r, g, np, "adaptmap", dist=1))
            elif k < 0.45: ops.append(fmt("lbdata", compact=compact(r, g)))
            elif k < 0.7:
                ops.append(fmt("movepos", array=r.choice(("p", "q")), seed=SEEDARG(r)))
                ops.append("dist" if r.random() < 0.6 else fmt("dist", array=r.choice(("p", "q", "nope"))))
            elif k < 0.85: ops.append("dist")
            else: ops.append(fmt("dist", array=r.choice(("p", "q"))))
        o.add(np, "fields,particles", g, ops)
    return o

def gen_C12(r, tier):
    o = Out("C12")
    for i in range(450 if tier == "quick" else 3000):
        np = r.choice((1, 1, 2, 3))
        g = small(r, blocks=((1, 1, 1),), maxcells=200, maxfull=100)
        ops = [adapt(r, g, np)] if r.random() < 0.5 else []
        arrays, names = ["p", "q", "s"], ATTS[:r.randint(2, 4)]
        ops.append(fmt("newpa", array="p", n=[r.randint(0, 5) for _ in range(np)], seed=SEEDARG(r)))
        n = lambda: r.choice(names)
        for _ in range(r.randint(10, 30)):
            a = r.choice(("p", "p", "p", "q", "s"))
            k = r.random()
            if k < 0.07: x = fmt("newpa", array=a, n=[r.randint(0, 4) for _ in range(np)], seed=SEEDARG(r))
            elif k < 0.3: x = fmt("newat", array=a, name=n())
            elif k < 0.5: x = fmt("setat", array=a, name=n(), seed=SEEDARG(r))
            elif k < 0.62: x = fmt("mvat", array=a, dest=n(), src=n())
            elif k < 0.76: x = fmt("delat", array=a, name=n())
            elif k < 0.81: x = fmt("getat", array=a, name=n())
            elif k < 0.86: x = fmt("hasp", array=a, name=n())
            elif k < 0.92: x = fmt("pacc", array=a, names=subset(r, names, 1, 3))
            elif k < 0.96: x = fmt("movepos", array=a, seed=SEEDARG(r))
            else: x = r.choice(("dist", fmt("dist", array=a)))
            ops.append(x)
        o.add(np, "particles", g, ops)
    return o

def gen_C13(r, tier):
    o = Out("C13")
    for i in range(320 if tier == "quick" else 2000):
        np = NPS[i % len(NPS)]
        kind = i % 4
        if kind == 3:     # ghosted blocks need even blocks at least twice as wide as the ghosts
            g = small(r, blocks=EVEN, maxcells=1000, maxfull=300)
        else:
            g = small(r, blocks=CUBES, maxcells=900 if kind else 2600, maxfull=300)
        w = min(g.b[:g.dim])
        ops = []
        if r.random() < 0.3: ops.append("cells seed=%d" % SEEDARG(r))
        for _ in range(r.randint(1, 3)):
            ops.append(adapt(r, g, np))
            if r.random() < 0.6: ops.append(fmt("lb", compact=compact(r, g)))
            if kind == 0 or r.random() < 0.2: ops.append(fmt("cells", seed=SEEDARG(r)))
            if kind == 1 or r.random() < 0.2:
                ops.append(fmt("nbcells", seed=SEEDARG(r), sample=1000 if w <= 2 and g.dim == 2 else 300))
            if kind == 2 and w >= 3 and w % 2 == 1 or kind == 2 and w >= 4:
                ops.append(fmt("nbcells", seed=SEEDARG(r), width=2, sample=300))
            if kind == 2: ops.append(fmt("cellpos", seed=SEEDARG(r), count=60))
            if kind == 3:
                ops.append(fmt("patchghost", g=r.choice([k for k in (1, 2) if w >= 2 * k]), conv=r.choice(("ghost", "neighbor"))))
        o.add(np, "", g, ops)
    return o

def gen_C14(r, tier):
    o = Out("C14")
    for i in range(300 if tier == "quick" else 2000):
        np = NPS[i % len(NPS)]
        g = Geo(2, (2, 2, 1), 1, 2, (0, 0, 0))
        ops = []
        for _ in range(8):
            kind = r.choice(("domains", "map", "sizes"))
            kw = dict(kind=kind, dim=r.randrange(3), a=r.randint(1, 3), bb=r.randint(1, 3), max=r.choice((0, 1, 4, 12)), seed=SEEDARG(r),
                      pct=r.choice((0, 15, 40, 100)), self=r.choice((0, 1)), perm=r.choice((0, 1)))
            if kind != "domains" and r.random() < 0.5: kw.update(reduce=1, self=0)   # the reduction excludes elements sent to oneself
            if r.random() < 0.4: kw["empty"] = r.randrange(np)
            ops.append(fmt("vc", **kw))
        o.add(np, "", g, ops)
    # threads that add to the same elements at the same time
    for i in range(10 if tier == "quick" else 80):
        np = (4, 5, 4, 3)[i % 4]
        o.add(np, "", Geo(2, (2, 2, 1), 1, 2, (0, 0, 0)), [fmt("vc", kind=r.choice(("map", "sizes")), dim=r.randrange(3), a=9, bb=9, max=r.choice((8, 20, 30)),
              seed=SEEDARG(r), pct=100, self=0, perm=0, reduce=1, times=400) for _ in range(2)], threads=max(2, np - 1))
    return o

def gen_C23(r, tier):
    o = Out("C23")
    for i in range(900 if tier == "quick" else 6000):
        np = NPS[i % len(NPS)]
        flat = r.random() < 0.15          # 2D: nearest cell and tracers only
        while True:
            g = small(r, blocks=((2, 2, 2), (2, 2, 2), (4, 4, 4), (1, 1, 1), (2, 4, 2), (4, 2, 2)), maxcells=3000)
            if (g.dim == 2) == flat and g.lmax - g.lmin <= (2 if min(g.b[:g.dim]) == 1 else 3): break
        ops = []
        for _ in range(r.randint(1, 3)):
            ops.append(fmt("adapt", **dict(marks(r, g, np))))
            if r.random() < 0.5: ops.append(fmt("lb", compact=compact(r, g)))
        ops += [fmt("newf", names=subset(r, NAMES[2:], 1, 3))]
        ops += [fmt("newpa", array="particles", n=[r.choice((0, 1, 3, r.randint(1, 12))) for _ in range(np)], seed=SEEDARG(r), **(dict(cluster=1) if r.random() < 0.4 else {}))]
        for _ in range(r.randint(2, 4)):
            ops.append("dist array=particles")
            if r.random() < 0.65:
                ops.append(fmt("deposit", module="ParticleUpdate_%s_density" % ("NGP" if flat or r.random() < 0.25 else "CIC"), seed=SEEDARG(r),
                               stale=r.choice((0, 1)), times=r.choice((1, 1, 2)), exch=r.choice((0, 0, 1))))
            else:
                ops.append(fmt("pmove", module=r.choice(["ParticleUpdate_NGP_move", "ParticleUpdate_tracers_move"] + ([] if flat else ["ParticleUpdate_CIC_move"] * 3)), seed=SEEDARG(r), dt=r.choice((4, 5, 8))))
            k = r.random()
            if k < 0.4: ops.append(fmt("movepos", array="particles", seed=SEEDARG(r)))
            elif k < 0.6: ops.append(adapt(r, g, np, "adaptmap", dist=1))
            elif k < 0.75: ops.append(fmt("lbdata", compact=compact(r, g)))
        o.add(np, "", g, ops)
    # many particles in the same few cells, several threads
    for i in range(8 if tier == "quick" else 60):
        np = 1 + i % 2
        g = Geo(3, (1, 1, 1), 0, 1, (1, 1, 1), (2, 2, 2))
        ops = [fmt("newf", names=NAMES[2:3]), fmt("newpa", array="particles", n=[r.randint(150, 250) for _ in range(np)], seed=SEEDARG(r), cluster=1), "dist array=particles"]
        ops += [fmt("deposit", module="ParticleUpdate_%s_density" % ("NGP", "CIC", "CIC")[i % 3], seed=SEEDARG(r), stale=0, times=1, exch=0) for _ in range(3)]
        o.add(np, "", g, ops, threads=4)
    return o

def gen_C22(r, tier):
    o = Out("C22")
    mods = ["mass", "pseudo_gradient", "downflows", "mass", "pseudo_gradient", "second_derivative_error", "downflows", "legacy"]
    for i in range(400 if tier == "quick" else 3000):
        np = NPS[i // 3 % len(NPS)]
        mod = mods[i % 8]
        dens = "none"
        while True:
            if mod in ("second_derivative_error", "legacy"): g = small(r, blocks=((4, 4, 4), (4, 4, 4), (6, 4, 4), (4, 8, 4)), maxcells=6000)
            elif mod == "pseudo_gradient": g = small(r, blocks=EVEN)
            else: g = small(r, blocks=((2, 2, 2), (1, 1, 1), (4, 2, 2), (3, 3, 3)))
            if mod == "mass" and g.dim == 3 and g.lmax - g.lmin <= 2 and g.b[:3] == [2, 2, 2] and r.random() < 0.6: dens = "ParticleUpdate_%s_density" % r.choice(("CIC", "NGP"))
            break
        ops = mesh_prefix(r, g, np)
        ops += [fmt("newf", names=subset(r, NAMES[2:], 1, 3))]
        if dens != "none":
            ops += [fmt("newpa", array="particles", n=[r.randint(0, 8) for _ in range(np)], seed=SEEDARG(r), **(dict(cluster=1) if r.random() < 0.4 else {})), "dist array=particles"]
        for _ in range(r.randint(3, 5)):
            top = r.choice((3, 10, 30))
            kw = dict(module="RefineCondition_" + mod, seed=SEEDARG(r), top=top, flat=r.choice((0, 50, 80, 95)), zero=r.choice((0, 0, 1)), dens=dens)
            if mod == "mass":
                m = top << (g.dim * r.randint(0, g.lmax - g.lmin))
                lo = r.randint(0, m); hi = r.choice((lo, r.randint(lo, max(lo, m)), r.randint(0, m)))
                kw.update(hi=min(hi, 900), lo=min(lo, 900), top=min(top, 10) if dens != "none" else top, pm=r.choice((1, 5, 20)))
            elif mod == "pseudo_gradient":
                kw.update(hi=r.randint(1, 996), lo=r.randint(1, 996))
            elif mod == "downflows":
                kw.update(zero=0, hi=r.randint(-1500, 3000) | 1, lo=r.randint(-3000, 1500) | 1, sign=r.choice((1, -1)))
            else:
                lo = r.randint(5, 900); kw.update(zero=0, lo=lo, hi=r.randint(lo, 996))
            ops.append(fmt("mark", **kw))
            if r.random() < 0.4: ops.append(fmt("lbdata", compact=compact(r, g)))
            if r.random() < 0.2: ops.append(adapt(r, g, np, "adaptmap", dist=1))
            if dens != "none": ops.append("dist")
        o.add(np, "", g, ops)
    return o

HYDRO = ["HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_legacy", "MHDUpdate_hancock",
         "MHDUpdate_hancock_oneneighbor", "MHDUpdate_euler", "MHDUpdate_RK2", "GLMMHDUpdate_euler", "GLMMHDUpdate_RK2"]
PARAB = ["parabolic:viscosity", "parabolic:thermal_conduction"]
def riemann(r, m): return r.choice(("hlld", "five_waves")) if "MHD" in m else "hllc"

def gen_C21(r, tier):
    o = Out("C21")
    mods = HYDRO + PARAB
    for i in range(420 if tier == "quick" else 3500):
        np = NPS[i // 3 % len(NPS)]
        while True:
            g = small(r, blocks=((4, 4, 4), (4, 4, 4), (4, 6, 4), (6, 4, 4), (8, 4, 4)), maxcells=9000)
            if g.full <= 600: break
        k = r.random()
        if k < 0.6: g.per = [1, 1, 1 if g.dim == 3 else 0]
        elif k < 0.8: g.per = [0, 0, 0]
        ops = []
        if r.random() < 0.3:
            for _ in range(r.randint(0, min(1, g.lmax - g.lmin))): ops.append("adapt marks=all mark=1")
            ops.append(fmt("lb", compact=0))
        else: ops += mesh_prefix(r, g, np)
        ops.append("newf names=a")
        for _ in range(r.randint(3, 6)):
            m = mods[i % len(mods)] if r.random() < 0.5 else r.choice(mods)
            ops.append(fmt("hydro", module=m, seed=SEEDARG(r), riemann=riemann(r, m), uniform=1 if r.random() < 0.25 else 0, wall=r.choice(("absorbing", "reflecting", "reflecting")),
                           amp=r.choice((10, 50, 80)), cfl=r.choice((5, 10, 20)), slope=r.choice((0, 1, 2, 2))))
            if r.random() < 0.3: ops.append(adapt(r, g, np, "adaptmap"))
            if r.random() < 0.3: ops.append(fmt("lbdata", compact=compact(r, g)))
        o.add(np, "", g, ops)
    return o

def gen_C25(r, tier):
    o = Out("C25")
    mods = HYDRO + PARAB + ["GravitySolver_cg", "GravitySolver_point_mass"]
    for i in range(300 if tier == "quick" else 2500):
        np = NPS[i // 3 % len(NPS)]
        cube = r.random() < 0.6
        while True:
            g = small(r, blocks=((4, 4, 4), (4, 4, 4), (8, 8, 8)) if cube else ((4, 4, 4), (4, 6, 4), (6, 4, 4), (4, 8, 4)), maxcells=9000)
            if g.full <= 600: break
        if cube:
            k = r.choice((0, 1)); g.per = [k, k, k]; c = max(g.cgs[:g.dim])
            g.cgs = [c, c, c]; g.lo = [0, 0, 0]; g.hi = [1, 1, 1]
            if g.dim == 2: g.cgs[2], g.per[2] = 1, 0
            if g.full > 700: g.lmax = min(g.lmax, g.lmin + 1)
        fold = 2 if cube else 1
        ops = []
        for _ in range(r.randint(0, 2)): ops.append(fmt("adapt", marks="rand", fold=fold, pr=r.choice((100, 300, 500)), pc=r.choice((0, 300)), seed=SEEDARG(r)))
        ops.append(fmt("lb", compact=compact(r, g)))
        ops.append("newf names=a")
        for _ in range(r.randint(2, 4)):
            m = mods[i % len(mods)] if r.random() < 0.6 else r.choice(mods)
            if m == "GravitySolver_cg" and g.dim == 2: m = "HydroUpdate_hancock"
            if m == "GravitySolver_point_mass" and (g.dim == 2 or not cube): m = "HydroUpdate_RK2"
            perm = r.sample(range(g.dim), g.dim) if cube else list(range(g.dim))
            flip = [r.randint(0, 1) for _ in range(g.dim)]
            if perm == list(range(g.dim)) and not any(flip): flip[r.randrange(g.dim)] = 1
            if g.dim == 2: perm.append(2); flip.append(0)
            ops.append(fmt("sym", module=m, seed=SEEDARG(r), riemann=riemann(r, m), wall=r.choice(("absorbing", "reflecting")), perm=perm, flip=flip,
                           grav=r.choice(("none", "field", "constant_scalar")) if "parab" not in m else "none", amp=r.choice((10, 50, 80)), cfl=r.choice((5, 10, 20)), slope=r.choice((0, 1, 2, 2))))
            if r.random() < 0.3: ops.append(fmt("lbdata", compact=compact(r, g)))
            if r.random() < 0.2: ops.append(fmt("adaptmap", marks="rand", fold=fold, pr=200, pc=300, seed=SEEDARG(r)))
        o.add(np, "", g, ops)
    return o

def gen_C26(r, tier):
    o = Out("C26")
    for i in range(100 if tier == "quick" else 1500):
        np = NPS[i // 3 % len(NPS)]
        while True:
            g = small(r, blocks=((4, 4, 4), (2, 2, 2), (2, 4, 2), (4, 2, 2)), maxcells=1200)
            if g.dim == 3 and g.full <= 200 and g.lmax - g.lmin <= 2: break
        g.lo = [0, 0, 0]; s = r.choice((1, 1, 2, 0.5))
        g.hi = [s * g.cgs[d] * g.b[d] / 8 for d in range(3)]       # cubic cells
        if r.random() < 0.5: g.per = [1, 1, 1]
        ops = mesh_prefix(r, g, np)
        ops.append("newf names=a")
        for _ in range(r.randint(1, 3)):
            ops.append(fmt("poisson", seed=SEEDARG(r), top=r.choice((1, 3, 8)), sparse=r.choice((0, 80)), guess=r.choice((0, 1)), G=r.choice((1, 3)), wall=r.choice(("absorbing", "reflecting"))))
            if r.random() < 0.3: ops.append(adapt(r, g, np, "adaptmap"))
            if r.random() < 0.3: ops.append(fmt("lbdata", compact=compact(r, g)))
        o.add(np, "", g, ops)
    return o

def gen_C27(r, tier):
    o = Out("C27")
    mods = ["Compute_dt_hydro", "Compute_dt_hydro", "Compute_dt_particle_velocity", "Compute_dt_parabolic", "Compute_dt_hydro", "Compute_dt_legacy"]
    for i in range(400 if tier == "quick" else 3000):
        np = NPS[i // 3 % len(NPS)]
        g = small(r, blocks=((2, 2, 2), (4, 4, 4), (1, 1, 1), (2, 4, 2), (4, 2, 2), (3, 3, 3), (4, 2, 8)), maxcells=2000)
        if r.random() < 0.5:
            g.lo = [r.choice((-1, 0, 2)) for _ in range(3)]; g.hi = [x + r.choice((0.25, 0.5, 1, 2, 4)) for x in g.lo]
        else: g.lo, g.hi = [0] * 3, [1] * 3
        ops = mesh_prefix(r, g, np)
        ops += [fmt("newf", names=subset(r, NAMES[2:], 1, 3)),
                fmt("newpa", array="particles", n=[r.choice((0, 0, 1, 3, r.randint(1, 12))) for _ in range(np)], seed=SEEDARG(r)), "dist array=particles"]
        for _ in range(r.randint(2, 5)):
            m = mods[i % len(mods)] if r.random() < 0.5 else r.choice(mods)
            kw = {}
            if m == "Compute_dt_parabolic":
                k = r.randrange(3); kw.update(kappa=r.randint(1, 7) if k != 1 else 0, mu=r.randint(1, 7) if k else 0)
            if m == "Compute_dt_hydro": kw.update(mhd=r.choice((0, 1)), old=r.choice((0, 0, 1)))
            ops.append(fmt("dtk", module=m, seed=SEEDARG(r), cfl=r.choice((10, 25, 50, 80)), top=r.choice((2, 6)), slow=r.choice((0, 0, 90, 99)), stale=r.choice((0, 1)), prev=r.choice((0, 1)), **kw))
            k = r.random()
            if k < 0.3: ops += [adapt(r, g, np, "adaptmap", dist=1), "dist array=particles"]
            elif k < 0.5: ops += [fmt("lbdata", compact=compact(r, g)), "dist array=particles"]
        o.add(np, "", g, ops)
    return o

def no5(g): return all(c % 5 for c in g.cgs[:g.dim])
def gen_C28(r, tier):
    o = Out("C28")
    mods = ["points", "blast", "points", "particle_grid", "sod", "MHD_blast", "implode", "simple_particles", "points", "MHD_blast_glm", "blast", "rayleigh_taylor"]
    for i in range(400 if tier == "quick" else 3000):
        mod = mods[i % len(mods)]
        part = mod in ("particle_grid", "simple_particles")
        while True:
            g = small(r, blocks=((2, 2, 2), (4, 4, 4), (2, 4, 2), (4, 2, 2), (4, 2, 8)) + (((3, 3, 3), (1, 1, 1), (3, 1, 2)) if mod == "points" else ()), maxcells=2000)
            if mod == "implode" and g.dim != 2: continue
            if part and any(c & (c - 1) for c in g.cgs[:g.dim]): continue
            if mod != "points" and not no5(g): continue
            if mod not in ("points", "particle_grid", "simple_particles"):
                q = [r.choice((1, 1, 2, 3)) for _ in range(3)] if "blast" in mod else [1, 1, 1]
                u = 2
                for d in range(g.dim): u = math.lcm(u, 2 * q[d], 2 * (g.cgs[d] << (g.lmax - g.lmin)) * g.b[d])
                if u > 800: continue      # 32 bit integers
            break
        g.group = r.choice((1024, 3))
        if mod == "points" and r.random() < 0.5:
            g.lo = [r.choice((-1, 0, 2)) for _ in range(3)]; g.hi = [x + r.choice((0.25, 0.5, 1, 2, 3)) for x in g.lo]
        else: g.lo, g.hi = [0] * 3, [1] * 3
        np = max(n for n in NPS[:1 + i // 3 % len(NPS)] if n <= g.coarse)
        ops = []
        if mod == "points" or part:
            pts = []
            for _ in range(r.choice((0, 1, 1, 2, 3))):
                c = [2 * r.randrange((g.cgs[d] << (g.lmax - g.lmin)) * g.b[d]) + 1 if d < g.dim else 1 for d in range(3)]
                if r.random() < 0.3: c = [r.choice((1, 2 * (g.cgs[d] << (g.lmax - g.lmin)) * g.b[d] - 1)) if d < g.dim else 1 for d in range(3)]
                pts.append(":".join(map(str, c + [r.randint(g.lmin, g.lmax)])))
            ops.append(fmt("ic", module="points", pts=";".join(pts)))
        if mod == "particle_grid":
            n = [r.choice((1, 2, 4, 8)) for _ in range(3)]
            if g.dim == 2: n[2] = 1
            ops.append(fmt("ic", module=mod, nx=n[0], ny=n[1], nz=n[2], m=r.randint(1, 5), pert=r.choice((0, 1, 3, 8)), defn=int(all(g.cgs[d] * g.b[d] <= 32 for d in range(g.dim)) and g.coarse * g.b[0] * g.b[1] * (g.b[2] if g.dim == 3 else 1) <= 200 and r.random() < 0.3)))
        elif mod == "simple_particles":
            n = r.choice((0, 1, 2, 5, 9))
            kw = {}
            for k in ("px", "py", "pz", "vx", "vy", "vz", "mass"):
                c = r.choice((n, n, n, n, max(0, n - 1), n + 2, 1))
                v = [(0 if k == "pz" and g.dim == 2 else r.randrange(64)) if k[0] == "p" else r.randint(-9, 9) if k[0] == "v" else r.randint(0, 9) for _ in range(c)]
                if v: kw[k] = ":".join(map(str, v)) + (":" if len(v) == 1 else "")
            ops.append(fmt("ic", module=mod, npart=n, **kw))
        elif mod != "points":
            kw = dict(radius=r.randint(1, 6), rin=r.randint(1, 80), rout=r.randint(1, 80), pin=r.randint(1, 80), pout=r.randint(1, 80), emax=r.choice((83, 83, 89, 97)))
            if r.random() < 0.3: kw["rout"] = kw["rin"]
            if r.random() < 0.3: kw["pout"] = kw["pin"]
            if mod in ("blast", "MHD_blast", "MHD_blast_glm"):
                if r.random() < 0.4: kw.update(cx=r.randint(1, 13), cy=r.randint(1, 13), cz=r.randint(1, 13))
                kw.update(radius=r.randint(1, 4), B=2 * r.randint(0, 4), bnx=q[0], bny=q[1], bnz=q[2])
            ops.append(fmt("ic", module=mod, **kw))
        o.add(np, "", g, ops)
    return o

def gen_C29(r, tier):
    o = Out("C29")
    kinds = ["upwind", "conduct", "gravity", "upwind", "point", "upwind", "cool", "gravity", "conduct"]
    hydro = ["HydroUpdate_euler", "HydroUpdate_RK2", "HydroUpdate_hancock", "HydroUpdate_hancock_oneneighbor", "HydroUpdate_legacy"]
    for i in range(400 if tier == "quick" else 3000):
        np = NPS[i // 3 % len(NPS)]
        kind = kinds[i % len(kinds)]
        while True:
            g = small(r, blocks=((4, 4, 4), (2, 2, 2), (2, 4, 2), (4, 2, 2), (6, 2, 4)) if kind not in ("upwind", "gravity") else ((4, 4, 4), (4, 6, 4), (6, 4, 4)), maxcells=1500 if kind not in ("upwind", "gravity") else 4000)
            if kind in ("upwind", "gravity"): g.per[:g.dim] = [1] * g.dim
            if kind == "conduct" and r.random() < 0.5: g.per[g.dim - 1] = 0
            break
        if kind == "point":
            g.lo = [r.choice((-1, 0, 2)) for _ in range(3)]; w = r.choice((0.25, 0.5, 1, 2))
            if g.dim == 2: g.lo[2] = 0
            g.hi = [g.lo[d] + (w * g.cgs[d] * g.b[d] if d < g.dim else 1) for d in range(3)]
        elif r.random() < 0.5:
            g.lo = [r.choice((-1, 0, 2)) for _ in range(3)]; g.hi = [x + r.choice((0.25, 0.5, 1, 2, 4)) for x in g.lo]
        else: g.lo, g.hi = [0] * 3, [1] * 3
        ops = mesh_prefix(r, g, np) + ["newf names=a"]
        for _ in range(r.randint(1, 3)):
            kw = dict(wall=r.choice(("absorbing", "reflecting")))
            if kind == "upwind":
                kw.update(wb=r.choice((0, 1)), module=r.choice(hydro[:1] * 2 + hydro[1:2]), riemann="hllc")
            elif kind == "conduct":
                kw.update(module="conduction", kappa=r.randint(1, 5), vel=r.choice((0, 1)))
                if not g.per[g.dim - 1] and r.random() < 0.7:
                    n = g.cgs[g.dim - 1]; z = sorted((r.randint(0, n), r.randint(0, n)))
                    kw.update(layer=1, z1=z[0], z2=z[1], K1=r.randint(1, 5), K2=r.randint(1, 5))
            elif kind == "gravity":
                kw.update(module=r.choice(hydro), grav=r.choice(("constant_scalar", "field")), vel=r.choice((0, 1, 1)))
                kw["vary"] = int(kw["grav"] == "field" and kw["module"] in hydro[:1] and r.random() < 0.6)
            elif kind == "cool": kw.update(module="CoolingUpdate_FF", flux=r.randint(-5, 9), vel=1)
            else: kw.update(module="GravitySolver_point_mass", mass=r.randint(1, 9), soft=r.randint(0, 9))
            ops.append(fmt("exact", kind=kind, seed=SEEDARG(r), **kw))
            if r.random() < 0.4: ops.append(r.choice((adapt(r, g, np, "adaptmap", dist=0), fmt("lbdata", compact=compact(r, g)))))
        o.add(np, "", g, ops)
    return o

GEN = {k[4:]: v for k, v in globals().items() if k.startswith("gen_C")}

MODEL_OBS = {"C01": "mesh", "C02": "mesh", "C03": "mesh", "C04": "mesh,ghosts"}
def generate(pid, seed, tier):
    r = random.Random("%s/%s/%s" % (pid, seed, tier))
    o = GEN[pid](r, tier)
    import models
    if pid in MODEL_OBS: models.add_forest(o, r, tier, MODEL_OBS[pid])
    if pid == "C08": models.add_fields(o, r, tier)
    if pid == "C12": models.add_attributes(o, r, tier)
    return o
