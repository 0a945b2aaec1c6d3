"""The exhaustive models: TLC configurations, and behaviours of the models turned into scenarios for the real code.
Only the choice of inputs comes from here; what the code has to do with them is decided when its trace is checked."""
import json, random, re
import vrun
from scen import Geo, Out, NPS, fmt

def cfg(spec="Spec", consts=(), inv=(), prop=(), extra=""):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    for k, v in dict(consts).items(): t += "CONSTANT %s %s\n" % (k, v if str(v).startswith("<-") else "= %s" % v)
    if inv: t += "INVARIANTS " + " ".join(inv) + "\n"
    if prop: t += "PROPERTIES " + " ".join(prop) + "\n"
    return t + extra

FOREST_INV = ("ValidMesh", "OwnersAlongCurve", "AlgorithmIsFair", "TouchIsGeometric", "TouchSymmetric", "GhostsMutual", "LeastChoice")
def forest(g, P, near, levels="{0, 1}", brute=0, emit=False):
    k = dict(G="<- " + g, P=P, Near=near, Levels=levels, Brute=brute, Emit="TRUE" if emit else "FALSE", Lb="FALSE" if emit else "TRUE")
    return cfg(consts=k, inv=() if emit else FOREST_INV, prop=() if emit else ("StepOk", "CellsKeepOwner"))

def emitted(module, text, tag="T", timeout=600):
    r = vrun.tlc(module, text, timeout=timeout, workers=1, heap="3g")
    if r["rc"] != 0: raise RuntimeError("model %s: %s" % (module, r["out"][-1500:]))
    out = []
    for m in re.finditer(r'^"%s (.*)"$' % tag, r["out"], re.M):
        out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return out, r

GEOS = {"G1": (2, (2, 1, 1), 1, 2, (1, 0, 0)), "G2": (2, (1, 1, 1), 0, 2, (1, 1, 0)), "G3": (2, (2, 1, 1), 1, 3, (0, 0, 0)),
        "G4": (3, (1, 1, 1), 0, 1, (0, 1, 0)), "G5": (2, (2, 2, 1), 1, 2, (0, 1, 0)), "G6": (3, (1, 1, 1), 0, 2, (0, 0, 1)), "G7": (3, (2, 1, 1), 1, 2, (1, 0, 0))}

def forest_walks(r, g, near, length=30):
    """paths from the initial mesh that together take every transition of the model"""
    ts, res = emitted("ForestMC", forest(g, 1, near, "{0}", emit=True))
    key = lambda s: json.dumps(s)
    adj = {}
    for t in ts: adj.setdefault(key(t["from"]), []).append((tuple(t["m"]), key(t["to"])))
    todo = {k: list(v) for k, v in adj.items()}
    for v in todo.values(): r.shuffle(v)
    start = key(ts[0]["from"])
    def path_to_todo(a):
        seen, q = {a: None}, [a]
        for x in q:
            if todo.get(x):
                p = []
                while seen[x]: p.append(seen[x][1]); x = seen[x][0]
                return p[::-1]
            for m, y in adj.get(x, []):
                if y not in seen: seen[y] = (x, (m, y)); q.append(y)
        return None
    walks, at, w = [], start, []
    while True:
        if todo.get(at): m, y = todo[at].pop()
        else:
            p = path_to_todo(at)
            if p is None:
                if w: walks.append(w)
                if at == start or path_to_todo(start) is None: break
                at, w = start, []; continue
            for m, y in p[:-1]: w.append(m); at = y
            m, y = p[-1]
        w.append(m); at = y
        if len(w) >= length: walks.append(w); w, at = [], start
    return walks, len(ts)

def add_forest(o, r, tier, obs, plan=None):
    """every transition of the small forests, on the real mesh"""
    plan = plan or ([("G1", 9), ("G2", 1), ("G5", 1), ("G7", 1)] if tier == "quick" else [("G1", 9), ("G2", 2), ("G3", 1), ("G5", 2), ("G6", 1), ("G7", 1)])
    for g, near in plan:
        walks, n = forest_walks(r, g, near)
        d, cgs, lmin, lmax, per = GEOS[g]
        geo = Geo(d, cgs, lmin, lmax, per)
        for i, w in enumerate(walks):
            np = NPS[i % len(NPS)]
            ops = []
            for m in w:
                ops.append(fmt("adapt", marks="code", code="".join("-.+"[x + 1] for x in m), **(dict(via="setMarkers") if r.random() < 0.5 else {})))
                if np > 1 and r.random() < 0.25: ops.append(fmt("lb", compact=r.choice((0, 1, lmax))))
            o.add(np, obs, geo, ops)
    return o

def histories(r, tier, names, depth, n):
    h, _ = emitted("Registry", registry(names, depth, emit=True))
    h = [x for x in h if x[0]["op"] == "newf"]
    r.shuffle(h)
    return h[:n] if tier == "quick" else h

def add_fields(o, r, tier):
    """sequences of registry operations of the model, on the real registry; several per scenario"""
    hs = histories(r, tier, "abc", 4, 700)
    seed = lambda: r.randrange(10**6)
    for i in range(0, len(hs), 7):
        np = (1, 2, 1, 3)[i // 7 % 4]
        g = Geo(2, (2, 1, 1), 1, 2, (0, 0, 0), (1, 1, 1))
        ops = ["adapt marks=code code=+"]
        for h in hs[i:i + 7]:
            have = set()
            for x in h:
                q = x["names"]
                if x["op"] == "newf":
                    ops.append(fmt("newf", names=q))
                    if not have & set(q): have |= set(q); ops.append(fmt("setf", names=q, seed=seed()))
                elif x["op"] == "setf": ops.append(fmt("setf", names=q, seed=seed()))
                elif x["op"] == "movef":
                    ops.append(fmt("movef", dest=q[0], src=q[1]))
                    if q[1] in have: have = have - {q[1]} | {q[0]}
                elif x["op"] == "delf": ops.append(fmt("delf", name=q[0])); have -= set(q)
                elif have: ops += ["reallocf", "extendf", fmt("setf", seed=seed())]
            if have: ops.append(fmt("acc", names=sorted(have)))
            ops += [fmt("delf", name=n) for n in sorted(have)]
        o.add(np, "fields,gcells" if i % 2 else "fields", g, ops)

def add_attributes(o, r, tier):
    hs = histories(r, tier, "abc", 4, 700)
    seed = lambda: r.randrange(10**6)
    for i in range(0, len(hs), 7):
        np = (1, 2, 1, 3)[i // 7 % 4]
        g = Geo(2, (2, 1, 1), 1, 2, (0, 0, 0), (1, 1, 1))
        ops = ["adapt marks=code code=+", fmt("newpa", array="p", n=[r.randint(0, 3) for _ in range(np)], seed=seed())]
        for h in hs[i:i + 7]:
            have = set()
            for x in h:
                q = x["names"]
                if x["op"] == "newf":
                    for n in q:
                        ops.append(fmt("newat", array="p", name=n))
                        if n not in have: have.add(n); ops.append(fmt("setat", array="p", name=n, seed=seed()))
                elif x["op"] == "setf":
                    if q[0] in have: ops.append(fmt("setat", array="p", name=q[0], seed=seed()))
                elif x["op"] == "movef":
                    ops.append(fmt("mvat", array="p", dest=q[0], src=q[1]))
                    if q[1] in have: have = have - {q[1]} | {q[0]}
                elif x["op"] == "delf": ops.append(fmt("delat", array="p", name=q[0])); have -= set(q)
                else: ops.append("dist")
            if have: ops.append(fmt("pacc", array="p", names=sorted(have)))
            ops += [fmt("delat", array="p", name=n) for n in sorted(have)]
        o.add(np, "particles", g, ops)

# ------------------------------------------------------------ the models run for each property
def protocol(g, P, mode): return cfg(consts=dict(G="<- " + g, P=P, Mode='"%s"' % mode), inv=("ListsAgree", "Result"), prop=("Ends",))
def settle(g, P, full): return cfg(consts=dict(G="<- " + g, P=P, Full=full), inv=("Confluent", "NeverTooHigh"), prop=("Rises", "Settles"))
def registry(names, depth, ordered=True, emit=False):
    return cfg(consts=dict(Names="{%s}" % ", ".join('"%s"' % n for n in names), Depth=depth, Emit="TRUE" if emit else "FALSE", Ordered="TRUE" if ordered else "FALSE"),
               inv=() if emit else ("Refines", "NoSharing", "Bounded"), prop=() if emit else ("Frame",))
DATA_INV = ("NeighboursExist", "Reciprocal", "FacesMatch", "OneHome", "CloudMass", "LaplaceSymmetric", "ConstantsFree", "ImageIsMesh")
def data(g, near=0): return cfg(consts=dict(G="<- " + g, Near=near), inv=DATA_INV, prop=("TransferConserves", "SourcesExist"))
def schedule(freqs, ends, steps, dts, starts):
    s = lambda x: "{%s}" % ", ".join(map(str, x))
    return cfg(consts=dict(Freqs=s(freqs), Ends=s(ends), Steps=s(steps), Dts=s(dts), Starts=s(starts)),
               inv=("NotPastEnd", "Forward", "EndsAtEnd", "StepLimit", "OutputsDue", "TimeOutputs", "RestartSame", "PhysicsAlways"), prop=("Terminates",))

F = lambda what, *a, **k: ("ForestMC", forest(*a, **k), what)
S = ("TimeLoopMC", schedule((0, 1, 2), (3, 5), (0, 4), (1, 2), (0, 1)), "schedules of all small configurations, from every start")
S2 = ("TimeLoopMC", schedule((0, 1, 2, 3), (3, 5, 7), (0, 2, 5), (1, 2, 3), (0, 1)), "schedules of all small configurations, from every start")
D = lambda g, what: ("DataMC", data(g), what)
F1 = F("2x1 periodic forest, 2 levels, 2 processes, every request, every fair balancing", "G1", 2, 9, brute=5)
F2 = F("one 2D tree of 3 levels, periodic, 3 processes, requests near uniform ones", "G2", 3, 1)
F4 = F("one 3D tree of 2 levels, 3 processes, every request, least closure by brute force up to 8 octants", "G4", 3, 9, brute=8)
F5 = F("2x2 forest, 2 levels, 3 processes", "G5", 3, 1)
F7 = F("2x1 3D forest, 2 levels, 3 processes", "G7", 3, 0)
F3 = F("2x1 forest, 3 levels, 2 processes", "G3", 2, 1, brute=4)
F5b = F("2x2 forest, 2 levels, 3 processes, requests up to two octants off uniform", "G5", 3, 2, brute=4)
PX, PR = ("GhostProtocol", protocol("Geo1", 3, "exchange"), "every mesh, ownership and message order, 3 processes"), ("GhostProtocol", protocol("Geo1", 3, "reduce"), "every mesh, ownership and message order, 3 processes")
AP = ("AdaptProtocol", settle("A2", 3, 2), "marker propagation in any order on any partition, 3 levels, 3 processes")
AP2 = ("AdaptProtocol", settle("A2", 2, 0), "marker propagation in any order on any partition, 3 levels, 2 processes")
QUICK = dict(C01=[F1], C02=[F1, AP], C03=[F5], C04=[F7], C05=[F2], C06=[PX], C07=[PR], C08=[("Registry", registry("abc", 5), "every sequence of 5 registry operations on 3 names")],
             C09=[F1], C10=[D("D3", "transfer on 3D meshes")], C11=[D("D1", "points and octants")],
             C12=[("Registry", registry("ab", 6), "every sequence of 6 registry operations on 2 names")], C13=[D("D1", "cell neighbours")], C14=[PX],
             C15=[S], C16=[S], C17=[S], C19=[AP], C21=[D("D3", "faces match across levels")], C22=[], C23=[D("D2", "cloud shares")], C25=[D("D1", "mirrored meshes")], C26=[D("D3", "discrete Laplacian")])
THOROUGH = dict(C01=[F3, F4, F5b], C02=[F3, F4, AP2], C03=[F3, F5b], C04=[F3, F5b], C05=[F3, F4], C06=[PX], C07=[PR], C08=[("Registry", registry("abc", 5, False), "every sequence of 5 registry operations on 3 names, in any order")],
                C09=[F3], C10=[D("D3", "transfer"), D("D4", "transfer")], C11=[D("D4", "points and octants")], C12=[("Registry", registry("abc", 6), "every sequence of 6 registry operations")],
                C13=[D("D4", "cell neighbours"), D("D5", "cell neighbours")], C14=[PX, PR], C15=[S2], C16=[S2], C17=[S2], C19=[AP2], C21=[D("D5", "faces match across levels")], C23=[D("D3", "cloud shares")],
                C25=[D("D4", "mirrored meshes")], C26=[D("D5", "discrete Laplacian")])
def of(pid, tier): return (QUICK if tier == "quick" else THOROUGH).get(pid, [])
