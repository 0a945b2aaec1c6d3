#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.  Exit 0: held on everything explored;
exit 1 with 'VIOLATION property=<id> replay=<path>': it did not; exit 2: no answer."""
import sys, os, json, time, shutil, tempfile, threading, concurrent.futures as cf, re, glob, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, vrun, scen
VERIF = vrun.VERIF
REPLAY = os.path.join(vbuild.BUILD, "replay")

class Slots:
    """limits the number of simultaneously running processes"""
    def __init__(s, n): s.n, s.free, s.cv = n, n, threading.Condition()
    def take(s, k):
        k = min(k, s.n)
        with s.cv:
            s.cv.wait_for(lambda: s.free >= k); s.free -= k
        return k
    def give(s, k):
        with s.cv:
            s.free += k; s.cv.notify_all()
SL = Slots(10)
def THREADS(i, np): return (1, 3, 1, 2)[i % 4] if np <= 3 else 1   # Kokkos threads of every rank of the i-th group

def run_scen(np, scens, wd, timeout=150, threads=1, exe="vdrive", stop=None):
    """runs scenarios [(id, lines)] in one process group; returns (ok, list of records lines, tail)"""
    os.makedirs(wd, exist_ok=True)
    sp, tp = os.path.join(wd, "scenario.txt"), os.path.join(wd, "trace.ndjson")
    with open(sp, "w") as f:
        for _, ls in scens: f.write("\n".join(ls) + "\n")
    if os.path.exists(tp): os.remove(tp)
    k = SL.take(np)
    try:
        if stop and stop(): return None, [], ""
        rc, to, tail = vrun.mpirun([os.path.join(vbuild.BUILD, exe), sp, tp], np, wd, timeout, threads)
    finally:
        SL.give(k)
    if rc != 0:
        why = [x for x in open(os.path.join(wd, "out.log"), errors="replace").read().splitlines() if re.search(r"what\(\)|ssert|Signal:|rror:", x)]
        tail = " | ".join(why[:6]) + "\n" + tail
    lines = open(tp, errors="replace").read().splitlines() if os.path.exists(tp) else []
    ok = rc == 0 and lines and lines[-1].startswith('{"op":"end"')
    if ok: lines = lines[:-1]
    return ok, lines, ("timeout " if to else "exit code %s " % rc) + tail[:2500]

def hang(tail): return "timeout" in tail or "Alarm" in tail or "code 142" in tail
def split(lines):
    """one list of record lines per scenario"""
    out = []
    for l in lines:
        if l.startswith('{"op":"init"'): out.append([])
        out[-1].append(l)
    return out

def tlc_trace(pid, lines, module="DyabloTrace", timeout=800):
    fd, p = tempfile.mkstemp(suffix=".ndjson"); os.close(fd)
    with open(p, "w") as f: f.write("\n".join(lines) + "\n")
    k = SL.take(1)
    try:
        r = vrun.tlc(module, "DyabloTrace.cfg", trace=p, consts={"Prop": '"%s"' % pid}, timeout=timeout)
    finally:
        SL.give(k); os.remove(p)
    out = r["out"]
    if r["rc"] == 0 and "ACCEPTED" in out:
        return "ok", None, r
    m = re.search(r'<<"STOPPED", (\d+), (\d+), "(\w+)">>', out)
    if m:
        rej = re.findall(r'<<"REJECTED", "[^"]*", (\d+), "([^"]*)">>', out)
        line = int(m.group(1))      # number of accepted lines = index of the rejected one
        parts = [p for (l, p) in rej if int(l) == line + 1]
        return "rejected", (line, m.group(3), parts or ["step not allowed"]), r
    return "error", out[-3000:], r

class Check:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed, s.t0 = pid, tier, seed, time.time()
        s.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0)
        s.viol, s.known, s.errors, s.notes = [], [], [], []
        s.cases = {}
        s.threads = None
        s.hung = False
        s.exe, s.module = "vdrive", "DyabloTrace"
        s.limit = 600 if tier == "quick" else 1e9   # no new runs after this many seconds
        s.findings = load_findings(pid)
        shutil.rmtree(os.path.join(REPLAY, pid), ignore_errors=True)
    def over(s): return time.time() - s.t0 > s.limit
    def log(s, *a): print("[%s %.0fs]" % (s.pid, time.time() - s.t0), *a, flush=True)
    def violation(s, key, what, files):
        """key identifies the failing input; a listed finding is reported as such"""
        for f in s.findings:
            if re.fullmatch(f["match"], key):
                if f["id"] not in [k["id"] for k in s.known]: s.known.append(f)
                return
        d = os.path.join(REPLAY, s.pid, re.sub(r"[^A-Za-z0-9_.-]", "_", key)[:80])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for n, c in files.items(): open(os.path.join(d, n), "w").write(c)
        open(os.path.join(d, "what.txt"), "w").write(what + "\n")
        s.viol.append((key, what, d))
        s.log("VIOLATION-CANDIDATE", key, what[:600])

    # ---- scenarios on the real code, traces against the specification
    def traces(s, groups, timeout=150, batch=None, per_batch=1500000):
        wd = tempfile.mkdtemp(prefix="vd", dir="/tmp")
        try:
            s._traces(groups, wd, timeout, per_batch)
        finally:
            shutil.rmtree(wd, ignore_errors=True)
    def _traces(s, groups, wd, timeout, per_batch):
        groups = list(groups)
        units = []   # (np, id, scenario lines, record lines)
        lock = threading.Lock()
        def one(i, np, sc, th=0):
            th = s.threads or th or THREADS(i, np)
            while sc:
                with lock:
                    if len(s.viol) >= 6 or s.over(): return
                ok, lines, tail = run_scen(np, sc, os.path.join(wd, "r%d" % i), timeout, th, s.exe, lambda: s.hung or s.over())
                if ok is None: return
                got = split(lines)
                k = len(sc) if ok else max(0, len(got) - 1)      # complete scenarios
                with lock: units.extend((np, a[0], a[1], b, th) for a, b in zip(sc[:k], got))
                if ok: return
                if s.hung and hang(tail): return       # one that never ends is enough
                # the failing scenario alone: the failure has to repeat
                x = sc[k] if k < len(sc) else sc[-1]
                ok2, l2, t2 = run_scen(np, [x], os.path.join(wd, "r%d" % i), min(timeout, 90), th, s.exe)
                if not ok2: ok2, l2, t2 = run_scen(np, [x], os.path.join(wd, "r%d" % i), min(timeout, 90), th, s.exe) if not hang(t2) else (ok2, l2, t2)
                with lock:
                    if ok2: units.append((np, x[0], x[1], split(l2)[0], th))
                    else:
                        bad = x[1][len(l2)] if len(l2) < len(x[1]) else x[1][-1]
                        if hang(t2): s.hung = True   # hangs cost time: one is enough
                        s.violation("crash:" + x[0], "np=%d: the code fails in '%s' (%s)" % (np, bad, t2), {"scenario.txt": "\n".join(x[1]) + "\n", "np": str(np), "threads": str(th)})
                sc = sc[k + 1:]
        with cf.ThreadPoolExecutor(16) as ex:
            for f in [ex.submit(one, i, *x) for i, x in enumerate(groups)]: f.result()
        s.log("recorded %d scenarios, %d events, %.1f MB" % (len(units), sum(len(u[3]) for u in units), sum(len(l) for u in units for l in u[3]) / 1e6))
        units.sort(key=lambda u: -sum(map(len, u[3])))
        total = sum(len(l) for u in units for l in u[3])
        nb = max(1, min(len(units), max(8, -(-total // per_batch))))
        batches = [[0, []] for _ in range(nb)]
        for u in units:
            b = min(batches, key=lambda b: b[0]); b[0] += sum(map(len, u[3])) + 2000; b[1].append(u)
        def verify(us):
            us = list(us)
            while us and len(s.viol) < 40:
                lines = [l for u in us for l in u[3]]
                st, info, r = tlc_trace(s.pid, lines, s.module)
                with lock: s.cov["states"] += r["distinct"]; s.cov["transitions"] += max(0, r["states"] - 1)
                if st == "ok":
                    with lock:
                        for u in us: s.count(u)
                    return
                if st == "error":
                    with lock: s.errors.append(info)
                    return
                n, k = info[0], 0
                while n >= len(us[k][3]): n -= len(us[k][3]); k += 1
                u = us[k]
                with lock:
                    for v in us[:k]: s.count(v)
                    s.violation(u[1], "np=%d step %d '%s' of scenario %s: %s" % (u[0], n, u[2][n] if n < len(u[2]) else "?", u[1], "; ".join(info[2])),
                                {"scenario.txt": "\n".join(u[2]) + "\n", "np": str(u[0]), "threads": str(u[4]), "trace.ndjson": "\n".join(u[3]) + "\n"})
                us = us[k + 1:]
        with cf.ThreadPoolExecutor(16) as ex:
            for f in [ex.submit(verify, b[1]) for b in batches if b[1]]: f.result()
    def count(s, u):
        s.cov["traces_validated_against_impl"] += 1
        for l in u[3]:
            m = re.match(r'\{"op":"(\w+)"', l)
            if m: s.cases[m.group(1)] = s.cases.get(m.group(1), 0) + 1
        s.cov["samples"] += len(u[3])
    # ---- the specification itself
    def model(s, module, cfg, timeout=700, workers=4, what="", heap="4g", consts=None):
        k = SL.take(workers)
        try: r = vrun.tlc(module, cfg, timeout=timeout, workers=workers, heap=heap, consts=consts)
        finally: SL.give(k)
        s.cov["states"] += r["distinct"]; s.cov["transitions"] += r["states"]
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            s.errors.append("model %s (%s): %s" % (module, what, r["out"][-2500:]))
        s.log("model %s: %d states, %.0fs" % (module, r["distinct"], r["wall"]))
        s.notes.append("%s: %d distinct states, %d transitions (%s)" % (module, r["distinct"], r["states"], what))
        return r
    def finish(s, level="model_checking", assumptions=()):
        for f in s.known: print("KNOWN-FINDING: property=%s %s" % (s.pid, f["what"]))
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level=level,
                  coverage=dict(s.cov, operations=s.cases, models=s.notes), wall_s=round(time.time() - s.t0, 1), violations=len(s.viol),
                  assumptions=list(assumptions))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", s.pid + ".json"), "w"), indent=1)
        if s.viol:
            for key, what, d in s.viol[:20]:
                print(what.split("\n")[0][:400])
                print("VIOLATION property=%s replay=%s" % (s.pid, d))
            return 1
        if s.errors:
            for e in s.errors: print("ERROR", e)
            return 2
        s.log("held: %s" % json.dumps(s.cov))
        return 0

def load_findings(pid):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> key=<regex of the failing input> <what fails>' and 'fixed: ...' lines (suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for i, l in enumerate(open(p)):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append(dict(id=i, match=m.group(2), what=m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(a.seed) if a.seed.lstrip("-").isdigit() else 1
    import props
    if a.replay:   # the replay directory is cleaned below
        t = tempfile.mkdtemp(); shutil.copytree(a.replay, t, dirs_exist_ok=True); a.replay = t
    c = Check(a.pid, "thorough" if a.tier == "thorough" else "quick", seed)
    try:
        return props.run(c, a)
    except vbuild.BuildError as e:
        print("ERROR build:", e); return 2
if __name__ == "__main__":
    sys.exit(main())
