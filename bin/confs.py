"""Scenarios for the configuration map (C18) and the module factories (C24)."""
import random
def hx(s): return s.encode("latin-1").hex() or "-"
NAMES = ["a", "bx", "Level_Min", "x_very_long_parameter_name_of_36_chars", "hllc", "n1", "UPPER", "mixedCase", "q.r", "k-1", "tEnd", "l2"]
SECS = ["run", "AMR", "output", "s", "Hydro_Update", "a.b", "sec-tion", "twentyfive_characters_long"]
def name(r): return r.choice(NAMES)
def vary(r, s): return r.choice((s, s, s.upper(), s.lower(), s.swapcase()))
def real(r, dig=15, mx=290):
    k = r.random()
    if k < 0.25: return r.choice(("0", "1", "-1", "0.5", "1e3", "2.50", "-0.0", "1.", ".5", "1E-5", "+2", "100", "0.1", "-3.25e+02", "007.5", "1e05"))
    d = "".join(r.choice("0123456789") for _ in range(r.randint(1, dig)))
    if k < 0.5: return r.choice(("", "-")) + d
    p = r.randint(0, len(d)); s = r.choice(("", "-")) + (d[:p] or "0") + "." + d[p:]
    if len(d) >= dig and p == 0: s = r.choice(("", "-")) + "." + d
    if r.random() < 0.5: s += r.choice("eE") + r.choice(("", "-", "+")) + str(r.randint(0, mx))
    return s
def integer(r, lo, hi):
    k = r.random()
    if k < 0.4: return str(r.randint(max(lo, -50), 50))
    if k < 0.6: return str(r.choice((lo, hi)))
    if k < 0.7: return str(r.choice((lo + 1, hi - 1)))
    if k < 0.8: return str(r.randint(lo, hi))
    if k < 0.85: return "0" * r.randint(1, 3) + str(r.randint(0, 99))
    return str(r.randint(0, 10 ** r.randint(1, 8)))
RNG = dict(int=(-2**31, 2**31 - 1), uint32=(0, 2**32 - 1), int64=(-2**63, 2**63 - 1), uint64=(0, 2**64 - 1))
TXT = "abcXYZ0189_./-+*()%$!?<>@~^|{}\"'`\\&"
def string(r, n=None):
    k = r.random()
    if k < 0.15: return r.choice(("a b", "a  b\tc", "x;y", "#no", "v;", "k=v", "a:b", "[x]", "1,2,3", "none", "", "a=b=c", "1 # 2", ";" + "x"))
    n = n or r.choice((1, 3, 8, 8, 25, 60, 150, 195, 230, 400))
    return "".join(r.choice(TXT) for _ in range(n))
def good(r, ty):
    if ty.startswith("v"):
        n = r.choice((0, 1, 1, 2, 3, 4, 12, 40))
        t = ty[1:]
        if t == "string": return ",".join(r.choice(("rho", "e_tot", "x", "", "particles/m", "A b", "very_long_variable_name")) for _ in range(n)) if n else r.choice(("", "a,", ",", "a,,b", "a"))
        return ",".join(good(r, t) for _ in range(n)) + r.choice(("", "", "", ",") if n else ("",))
    if ty == "string": return string(r)
    if ty == "bool": return r.choice(("1", "0", "yes", "no", "true", "false", "on", "off"))
    if ty == "enum": return r.choice(("reflecting", "absorbing", "periodic", "userdef", "1", "2", "3", "5", "0"))
    if ty == "double": return real(r)
    if ty == "float": return real(r, 6, 25)
    return integer(r, *RNG[ty])
def bad(r, ty):
    t = ty[1:] if ty.startswith("v") else ty
    if t == "string": return string(r)
    if t == "bool": x = r.choice(("", "2", "True", "YES", "tru", "y", "01", "falsee", "1 0", "-1", "0.0"))
    elif t == "enum": x = r.choice(("", "Reflecting", "reflect", "1x", "periodic2", "1.0", "x", "reflecting absorbing"))
    elif t in ("double", "float"): x = r.choice(("", "abc", "1.5.2", "1e", "1e400", "-1e999", "1,5x", "1.0f", "--1", ".", "e5", "1 2", "0x10", "1e5.0", "1-", "nan1"))
    else:
        lo, hi = RNG[t]; x = r.choice(("", "abc", "1.5", "1e3", "12a", str(hi + 1), str(hi * 10 + 7), "1 2", "0x1F", "3.", "--2", "two", "9" * 25) + ((str(lo - 1), "-", "-" + "9" * 25) if lo < 0 else ()))
    if not ty.startswith("v"): return x
    L = [good(r, t) for _ in range(r.randint(0, 3))] + [x]; r.shuffle(L)
    return ",".join(L) if x != "" else "1,,2" if t in RNG or t in ("double", "float", "bool") else "reflecting,,1"
TYPES = ["string", "bool", "int", "uint32", "int64", "uint64", "double", "float", "enum", "vstring", "vint", "vdouble", "vuint32", "venum", "vint64", "vuint64", "vfloat"]
def precise(r, dig=15, mx=200):
    """a number that needs all its digits; what follows the digits every number keeps is not near a tie"""
    e = r.randint(-mx, mx)
    return r.choice(("", "-")) + "%d.%s%se%d" % (r.randint(1, 9), "".join(r.choice("0123456789") for _ in range(dig - 1)), r.choice(("13", "27", "31", "68", "79", "94")), e)
def deft(r, ty):
    """canonical tokens of a default value"""
    if ty.startswith("v"):
        n = r.choice((0, 1, 2, 3, 30)); t = ty[1:]
        return [deft(r, t)[0] for _ in range(n)]
    if ty == "string":
        while True:
            s = string(r)
            if s and s == s.strip() and ";" not in s and "," not in s and "\t" not in s: return [s]
    if ty == "bool": return [r.choice("01")]
    if ty == "enum": return [r.choice("1235")]
    if ty == "double": return [r.choice((real(r), precise(r), precise(r), "0.1", "0.333333333333333", "1e-30", "0", "123456789.012345"))]
    if ty == "float": return [r.choice((real(r, 6, 25), precise(r, 6, 20), "0.1", "0.3"))]
    return [str(int(integer(r, *RNG[ty])))]
def line(r, n, v):
    eq = r.choice(("=", " = ", ":", " : ", "= ", " =", "\t=\t", "   =    "))
    c = r.choice(("", "", "", "", " ; comment", "   ;", " ;x = 3", "\t; tab [s]", "  "))
    return n + eq + v + c
def text(r, want):
    """a text that defines the values want = [(section, name, text)]"""
    out = []
    by = {}
    for s, n, v in want: by.setdefault(s, []).append((n, v))
    order = list(by.items())
    if r.random() < 0.3 and len(order) > 1:    # a section that comes twice
        s, l = order[0]; order = [(s, l[:1])] + order[1:] + ([(s, l[1:])] if len(l) > 1 else [])
    for s, l in order:
        if r.random() < 0.3: out.append(r.choice(("", "; a comment line", "# [other]", "#x=1", "   ", ";")))
        out.append("[" + vary(r, s) + "]" + r.choice(("", "", " ; c", "  ", " trailing")))
        for n, v in l:
            if r.random() < 0.15: out.append(line(r, vary(r, n), r.choice(("overwritten", "1", v))))   # the last one counts
            out.append(line(r, vary(r, n), v))
            if r.random() < 0.15: out.append(r.choice(("", "; c", "#", "  ")))
    return out
def conf(r):
    L = ["init"]
    keys = {}
    def mk():
        want = []
        for _ in range(r.randint(1, 9)):
            s, n = r.choice(SECS), name(r)
            if (s.lower(), n.lower()) in [(a.lower(), b.lower()) for a, b, _ in want]: continue
            ty = r.choice(TYPES); v = bad(r, ty) if r.random() < 0.2 else good(r, ty)
            if v[:1] == ";": v = "x" + v      # ' ;' would be a comment
            want.append((s, n, v)); kt[(s.lower(), n.lower())] = ty
        t = text(r, want)
        return t, want
    for part in range(r.choice((1, 1, 2))):
        kt = {}
        t, want = mk()
        if r.random() < 0.15:
            b = list(t); b.insert(r.randint(0, len(b)), r.choice(("[open", "no separator", "name ; = 3", "[sec ;]", "junk")))
            # an indented line would continue the value above, so the error lines are not indented
            L.append("%s %s" % (r.choice(("parse", "bcast")), hx("\n".join(b) + "\n")))
        L.append("%s %s" % (r.choice(("parse", "bcast")), hx("\n".join(t) + r.choice(("\n", "\n", "")))))
        defs = {}
        for rnd in range(r.choice((1, 2))):
            for _ in range(r.randint(3, 14)):
                k = r.random()
                if k < 0.2:
                    s, n = r.choice(SECS), name(r)
                    L.append("has %s %s" % (hx(vary(r, s)), hx(vary(r, n)))); continue
                if k < 0.65 and want:
                    s, n, v = r.choice(want); ty = kt[(s.lower(), n.lower())]
                    if r.random() < 0.1 and not ty.startswith("v") : ty = r.choice(("string", ty))
                    d = r.random() < 0.5
                else:
                    s, n = r.choice(SECS), name(r); key = (s.lower(), n.lower())
                    ty = kt.get(key) or defs.get(key) or r.choice(TYPES)
                    d = r.random() < 0.7
                    if key not in kt and d: defs[key] = ty
                    if key not in kt and key not in defs and not d: pass
                g = "get %s %s %s" % (ty, hx(vary(r, s)), hx(vary(r, n)))
                if d:
                    dv = deft(r, ty); g += " " + (",".join(map(hx, dv)) if dv else "empty")
                L.append(g)
            if r.random() < 0.75:
                L.append("save"); L.append("reload")
        if r.random() < 0.5: L.append("save")
    return L
# ------------------------------------------------------------------ factories
def modules():
    """the modules named by the specification"""
    import os, re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "ConfTrace.tla")).read()
    t = t[t.index("Modules == ["):]; t = t[:t.index("} ]") + 2]
    return {m.group(1): re.findall(r'"([^"]+)"', m.group(2)) for m in re.finditer(r"(\w+) \|-> \{([^}]*)\}", t)}
BASE_INI = dict(run=dict(initial_conditions="blast", nstepmax=1, enable_output="false", enable_checkpoint="false"), amr=dict(use_block_data=1, level_min=1, level_max=2, bx=4, by=4, bz=4), mesh=dict(ndim=3),
                output=dict(write_variables="rho"), gravity=dict(solver="none", gravity_type="none"), hydro=dict(update="HydroUpdate_hancock"), dt=dict(dt_kernel="Compute_dt_hydro"),
                particles=dict(update_position="none", update_density="none"), cooling=dict(update="none"), parabolic=dict(update_viscosity="none", update_thermal_conduction="none"))
KEYS = dict(GravitySolver=("gravity", "solver"), ParticleUpdate=("particles", "update_position"), HydroUpdate=("hydro", "update"), InitialConditions=("run", "initial_conditions"), IOManager=("output", "backend"),
            MapUserData=("amr", "remap"), Compute_dt=("dt", "dt_kernel"), RefineCondition=("amr", "markers_kernel"))
def itext(ini): return "".join("[%s]\n" % a + "".join("%s=%s\n" % x for x in b.items()) for a, b in ini.items())
def realmods(r):
    M = modules(); L = ["init"]
    fs = sorted(M); r.shuffle(fs)
    for f in fs:
        if r.random() < 0.5: L.append("rids " + f)
        ids = list(M[f]) + ["none", "Nope", "none2", M[f][0].lower() if M[f][0].lower() not in M[f] else "NOPE", M[f][-1] + "_", M[f][0][:-1]]
        r.shuffle(ids)
        for i in ids:
            ini = {a: dict(b) for a, b in BASE_INI.items()}
            ini["gravity"]["gravity_type"] = {"GravitySolver_constant": "constant_scalar", "GravitySolver_point_mass": "constant_field"}.get(i, "field")
            ini["cosmology"] = dict(active="true", omegam=0.3, omegav=0.7, omegak=0, omegab=0.05, h0=70, H0=70, astart=0.01, a_start=0.01, aend=1, boxlen_ini=10)
            if i in ("kelvin_helmholtz", "orszag_tang", "orszag_tang_glm", "MHD_rotor", "MHD_rotor_glm", "implode", "riemann2d"): ini["mesh"]["ndim"] = 2
            L.append("rmake %s %s %s" % (f, i, hx(itext(ini))))
        L.append("rids " + f)
    return L
def unknown(r, n=1):
    M = modules(); L = ["init"]
    for _ in range(n):
        f = r.choice(sorted(KEYS)); k = KEYS[f]
        good = dict(IOManager=["IOManager_hdf5"], ParticleUpdate=["none"], MapUserData=["MapUserData_mean"], Compute_dt=["Compute_dt_hydro"], InitialConditions=["blast", "sod", "C91"], GravitySolver=["none"])
        i = r.choice(good.get(f, M[f])) if r.random() < 0.35 and not f in ("HydroUpdate",) else r.choice(("Nope", M[f][0][:-1], M[f][0] + "x", "None", M[f][0].upper() + "_"))
        ini = {a: dict(b) for a, b in BASE_INI.items()}
        ini[k[0]][k[1]] = i
        if f == "IOManager": ini["run"]["enable_output"] = "true"
        L.append("loop %s %s %s" % (f, i, hx(itext(ini))))
    return L
def toys(r, fac):
    L = ["init"]
    pool = ["a", "A", "b", "ab", "", "none", "None", "x y", "HydroUpdate_hancock", "none ", "zz", "a b"]
    for _ in range(r.randint(8, 25)):
        i = r.choice(pool); k = r.random()
        if k < 0.35: L.append("reg %d %s %d" % (fac, hx(i), r.randint(0, 3)))
        elif k < 0.85: L.append("make %d %s %d %s" % (fac, hx(i), r.randint(-5, 10**6), hx(r.choice(("s", "", "long argument")))))
        else: L.append("ids %d" % fac)
    return L
def generate(pid, seed, tier):
    """[(np, [(id, lines)])]"""
    big = tier == "thorough"
    out = []
    if pid == "C18":
        n, per = (6000, 50) if big else (1200, 30)
        for b in range(n // per):
            sc = []
            for i in range(per): sc.append(("conf%d" % (b * per + i), conf(random.Random("C18/%s/%d/%d" % (tier, seed, b * per + i)))))
            out.append(((1, 2, 1, 3, 4, 1)[b % 6], sc))
    else:
        for b in range(24 if big else 6):
            r = random.Random("C24/%s/%d/%d" % (tier, seed, b))
            out.append(((1, 2, 3, 1, 4, 2)[b % 6], [("toy%d_%d" % (b, i), toys(r, i)) for i in range(24)] + [("real%d" % b, realmods(r))]))
        for b in range(60 if big else 16):
            r = random.Random("C24u/%s/%d/%d" % (tier, seed, b))
            out.append(((1, 2, 3, 1)[b % 4], [("unknown%d" % b, unknown(r))]))
    return out
