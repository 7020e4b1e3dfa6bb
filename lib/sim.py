"""Explicit-dynamics scenarios: random decks in grid units, their rendering for the program, and the recorder."""
import importlib.util, math, os
from decks import *
import vlib
from vlib import simulate, qz, sig, ToolError, num, BAD
from meshes import ev

L = 720720                        # damage is recorded in 1/720720
VECTORS = ["Displacement", "Velocity", "Coordinates", "Model_Coordinates", "External_Force_Density",
           "Force_Density", "Contact_Force_Density", "Linear_Momentum", "Angular_Momentum"]
SCALARS = ["Temperature", "Temperature_Change"]
ELEMS = ["Damage", "Volume", "Number_Of_Neighbors", "Neighborhood_Volume", "Element_Id", "Horizon", "Proc_Num", "Kinetic_Energy"]
TENSORS = ["Deformation_Gradient"]


# --------------------------------------------------------------------------- rendering
def rex(e, ux, ut):
    o = e[0]
    if o == "num":
        return num(e[1]) if e[1] >= 0 else "(0.0-%s)" % num(-e[1])
    if o in "xyz":
        return "(%s/%s)" % (o, num(ux)) if ux != 1.0 else o
    if o == "t":
        return "(t/%s)" % num(ut) if ut != 1.0 else "t"
    if o in ("add", "sub"):
        return "(%s %s %s)" % (rex(e[1], ux, ut), "+" if o == "add" else "-", rex(e[2], ux, ut))
    if o == "mul":
        return "(%s * %s)" % (num(e[1]) if e[1] >= 0 else "(0.0-%s)" % num(-e[1]), rex(e[2], ux, ut))
    raise ValueError(e)


def value(e, ux, ut, uv, style=0):
    """Deck value of an expression whose value is given in units of uv."""
    if e[0] in ("if", "when"):
        op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[e[1]]
        s = "if(%s %s %s){value = %s;}" % (rex(e[2], ux, ut), op, rex(e[3], ux, ut), scaled(e[4], ux, ut, uv))
        if e[0] == "if":
            s += " else{value = %s;}" % scaled(e[5], ux, ut, uv)
        return s
    if e[0] == "num" and style == 1:
        return e[1] * uv
    s = scaled(e, ux, ut, uv)
    return "value = %s" % s if style == 2 else s


def scaled(e, ux, ut, uv):
    s = rex(e, ux, ut)
    return s if uv == 1.0 else "%s * %s" % (num(uv), s)


def units(sc):
    U, T, R = sc["U"], sc["T"], sc["R"]
    F = 2 * U * R / T / T
    h = min(e["hor"][1] for e in sc["d"]["entries"]) * U
    # stiffnesses far too small to move anything; contact far stronger than the bonds
    return dict(U=U, T=T, R=R, V=U / T, F=F, K=1e-19 * F * h, KS=1e-12 * F * math.pi * h ** 5 / (9 * U * sc["W"]))


def deck_of(sc):
    d, n = sc["d"], units(sc)
    st = sc["style"]
    disc = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    if d["omit"]:
        disc["Omit Bonds Between Blocks"] = "All"
    if d["filters"]:
        disc["Bond Filters"] = filters(d["filters"], n["U"])
    mats, blocks, dmg = {}, {}, {}
    for i, en in enumerate(d["entries"]):
        mats["M%d" % i] = {"Material Model": "Elastic", "Density": en["den"] * n["R"], "Bulk Modulus": n["K"], "Shear Modulus": n["K"]}
        if sc.get("thermal"):
            mats["M%d" % i]["Thermal Expansion Coefficient"] = 1e-30
        b = {"Block Names": " ".join(name(x) for x in en["names"]), "Material": "M%d" % i, "Horizon": en["hor"][1] * n["U"]}
        if en["dmg"]:
            b["Damage Model"] = "D%d" % en["dmg"]
        blocks["B%d" % i] = b
    for i, e in enumerate(d["dmg"]):
        if e[0] == "num":
            dmg["D%d" % (i + 1)] = {"Damage Model": "Critical Stretch", "Critical Stretch": e[1] / 256.0}
        else:
            dmg["D%d" % (i + 1)] = {"Damage Model": "Time Dependent Critical Stretch",
                                    "Time Dependent Critical Stretch": value(e, n["U"], n["T"], 1.0 / 256)}
    for i, a in enumerate(d["dal"]):
        if a:
            dmg["D%d" % (i + 1)]["Thermal Expansion Coefficient"] = a / 256.0
    if st.get("matorder"):
        mats = {k: mats[k] for k in sorted(mats, reverse=True)}
        dmg = {k: dmg[k] for k in sorted(dmg, reverse=True)}
    files = {"mesh.txt": text_mesh(d["pts"], d["blk"], [w * sc["W"] for w in d["vol"]], n["U"])}
    bc = {}
    kinds = dict(idisp=("Initial Displacement", "U"), ivel=("Initial Velocity", "V"), pdisp=("Prescribed Displacement", "U"),
                 bforce=("Body Force", "F"), itemp=("Initial Temperature", None), ptemp=("Prescribed Temperature", None))
    for i, c in enumerate(d["conds"]):
        nm = "%s Node Set %d" % ("N" if i % 2 else "Probe", i)
        s = st["sets"][i]
        if s == 0:
            bc[nm] = " ".join(str(p) for p in c["set"])
        else:
            bc[nm] = "set%d.txt" % i
            sep = {1: "\n", 2: " ", 3: "\n# comment 1 2\n"}[s]
            files["set%d.txt" % i] = ("# node set\n" if s == 3 else "") + sep.join(str(p) for p in c["set"]) + "\n"
    for i, c in enumerate(d["conds"]):
        k, u = kinds[c["kind"]]
        e = {"Type": k, "Node Set": "%s Node Set %d" % ("N" if i % 2 else "Probe", i)}
        if c["kind"] not in ("itemp", "ptemp"):
            e["Coordinate"] = "xyz"[c["comp"] - 1]
        e["Value"] = value(c["expr"], n["U"], n["T"], n[u] if u else 1.0, st["vals"][i])
        bc["Cond %d" % i] = e
    out = {"Discretization": disc, "Materials": mats, "Blocks": blocks}
    if dmg:
        out["Damage Models"] = dmg
    if bc:
        out["Boundary Conditions"] = bc
    if d["contact"]["on"]:
        c = d["contact"]
        out["Contact"] = {"Search Radius": c["reach"] * n["U"], "Search Frequency": c["freq"],
                          "Models": {"CM": {"Contact Model": "Short Range Force", "Contact Radius": c["radius"] * n["U"],
                                            "Spring Constant": n["KS"]}},
                          "Interactions": {"General Contact": {"Contact Model": "CM"}, "Self Contact": {"Contact Model": "CM"}}}
    if d["comps"]:
        out["Compute Class Parameters"] = {"Quantity %d" % i: compute_of(sc, c) for i, c in enumerate(d["comps"]) if c["kind"] != "body"}
        if not out["Compute Class Parameters"]:
            del out["Compute Class Parameters"]
    for i, s in enumerate(d["solvers"]):
        sf = st.get("safety", [1.0] * 9)[i]
        v = {"Fixed dt": s["m"] * n["T"] / sf}
        if sf != 1.0:
            v["Safety Factor"] = sf
        q = {"Final Time": float(s["tf"] * n["T"]), "Verlet": v}
        if s.get("kind") == "rest":
            k = (s["tf"] - s["t0"]) // s["m"]
            q = {"Final Time": float(s["tf"] * n["T"]), "QuasiStatic": {"Absolute Tolerance": 1e30, "Maximum Solver Iterations": 5}}
            if st["lists"][i]:
                q["QuasiStatic"]["Time Steps"] = " ".join(num((s["t0"] + j * s["m"]) * n["T"]) for j in range(k + 1))
            else:
                q["QuasiStatic"]["Number of Load Steps"] = k
        if s["t0"]:
            q["Initial Time"] = float(s["t0"] * n["T"])
        out["Solver%s" % (i + 1 if len(d["solvers"]) > 1 else "")] = q
    for i, o in enumerate(d["outs"]):
        q = {"Output Filename": "out%d" % i, "Output Frequency": o["freq"], "Output Variables": {v: True for v in o["fields"]}}
        if o["first"] != 1:
            q["Initial Output Step"] = o["first"]
        if o["last"] >= 0:
            q["Final Output Step"] = o["last"]
        out["Output%s" % (i or "")] = q
    return out, files


def compute_of(sc, c):
    q = {"Compute Class": {"block": "Block_Data", "set": "Node_Set_Data", "near": "Nearest_Point_Data"}[c["kind"]],
         "Variable": c["var"], "Output Label": c["label"]}
    if c["kind"] == "near":
        q.update({k: 0.5 * a * sc["U"] for k, a in zip("XYZ", c["at"])})
    else:
        q["Calculation Type"] = c["calc"]
        if c["kind"] == "block":
            q["Block"] = name(c["block"])
        else:
            q["Node Set"] = c["mesh"]
    return q


def record(sc, o):
    """Contents of one output file in grid units."""
    d, n = sc["d"], units(sc)
    if o is None or not o["time"]:
        return {"present": False, "ids": [], "pos": [], "blk": [], "nodal": [], "elem": [], "global": [], "frames": []}
    ids = sorted(o["pts"])
    good = not o["dup"] and not o["id_mismatch"] and sorted(o["elem_block"]) == ids and o["times_agree"] and o["names_agree"] and o["globals_agree"]
    cu = 1e-12 * n["F"] / 100.0 / max(e["cw"] for e in d["entries"])
    unit = dict(Displacement=n["U"], Velocity=n["V"], Coordinates=n["U"], Model_Coordinates=n["U"],
                External_Force_Density=n["F"], Damage=1.0 / L, Volume=sc["W"], Number_Of_Neighbors=1.0, Neighborhood_Volume=sc["W"],
                Element_Id=1.0, Horizon=n["U"], Temperature=1.0, Temperature_Change=1.0, Proc_Num=1.0)
    mass = n["R"] * sc["W"]
    unit.update(Kinetic_Energy=0.5 * mass * n["V"] ** 2, Linear_Momentum=mass * n["V"], Angular_Momentum=mass * n["V"] * n["U"])
    rec = {"present": True, "ids": ids if good else [0],
           "pos": [[qz(c, n["U"]) for c in o["pts"][i]] for i in ids],
           "blk": [int(o["elem_block"].get(i, "x_-1").split("_")[-1]) for i in ids],
           "nodal": o["nodal_names"], "elem": o["elem_names"], "global": o["global_names"], "frames": []}

    def glob(c, k):
        if c["kind"] == "body":
            u = unit[c["label"][7:]]
            x = o["global"][c["label"]][k]
            return qz(x, u, 1e-6 * max(1.0, abs(x / u))) if c["label"] == "Global_Kinetic_Energy" else sig(x, u)
        if c["label"] in o["global"]:
            return qz(o["global"][c["label"]][k], unit[c["var"]])
        return [qz(o["global"][c["label"] + a][k], unit[c["var"]]) for a in "XYZ"]

    def loose(f, x):
        return 1e-6 * max(1.0, abs(x / unit[f])) if f in ("Kinetic_Energy", "Linear_Momentum", "Angular_Momentum") else 1e-6

    def get(f, i, k):
        if f in ("Contact_Force_Density", "Force_Density"):
            return [sig(o["nodal"][f + c][i][k], cu) for c in "XYZ"]
        if f in VECTORS:
            return [qz(o["nodal"][f + c][i][k], unit[f], loose(f, o["nodal"][f + c][i][k])) for c in "XYZ"]
        if f in SCALARS:
            return qz(o["nodal"][f][i][k], unit[f])
        if f in TENSORS:
            return [sig(o["elem"][f + a + b][i][k], 1e-3) for a in "XYZ" for b in "XYZ"]
        x = o["elem"][f][i][k]
        if x != x:
            return -1
        return qz(x, unit[f], 1e-3 if f == "Damage" else loose(f, x))
    have = set()
    for f in VECTORS:
        if all(f + c in o["nodal"] and len(o["nodal"][f + c]) == len(ids) for c in "XYZ"):
            have.add(f)
    have |= {f for f in SCALARS if f in o["nodal"]} | {f for f in ELEMS if f in o["elem"]}
    have |= {f for f in TENSORS if all(f + a + b in o["elem"] for a in "XYZ" for b in "XYZ")}
    for k, t in enumerate(o["time"]):
        g = {c["label"]: glob(c, k) for c in d["comps"] if c["label"] in o["global"] or c["label"] + "X" in o["global"]}
        rec["frames"].append({"t": qz(t, n["T"]), "g": g, "f": {f: [get(f, i, k) for i in ids] for f in sorted(have)}})
    return rec


def run_sim(sc):
    d = sc["d"]
    deck, files = deck_of(sc)
    exe = None
    marked = [c for c in d["comps"] if c["kind"] == "set"]
    if marked:                                                       # node sets that belong to the mesh
        exe = os.path.join(vlib.BUILD, "src", "pdsets")
        files["sets.txt"] = "".join("%s:%s\n" % (c["mesh"], " ".join(map(str, c["set"]))) for c in marked)
    r = simulate(deck, files, sc["np"], outputs=["out%d" % i for i in range(len(d["outs"]))], exe=exe)
    if vlib.crashed_by_tool(r):
        raise ToolError("run failed: " + r.log[-800:])
    if r.rc != 0:
        return [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:], "d": d}]
    evs = [{"ev": "deck", "d": d, "files": [record(sc, r.files["out%d" % i]) for i in range(len(d["outs"]))]}]
    n = sum(1 + (s["tf"] - s["t0"]) // s["m"] for s in d["solvers"])
    return evs + [{"ev": "tick"}] * n + [{"ev": "end"}]


# --------------------------------------------------------------------------- generation
def entry_of(d, b):
    return ([e for e in d["entries"] if b in e["names"]] or [e for e in d["entries"] if 0 in e["names"]])[0]


def last(d, kind, p, c):
    r = None
    for x in d["conds"]:
        if x["kind"] == kind and x["comp"] == c and p in x["set"]:
            r = x
    return r


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def family(d, p):
    h = entry_of(d, d["blk"][p])["hor"][1]
    return [q for q in range(len(d["pts"])) if q != p and d2(d["pts"][p], d["pts"][q]) <= h * h and
            (not d["omit"] or d["blk"][p] == d["blk"][q])]


def spans(d, p):
    """The bonds of a point span space."""
    b = [[y - x for x, y in zip(d["pts"][p], d["pts"][q])] for q in family(d, p)]
    K = [[sum(v[i] * v[j] for v in b) for j in range(3)] for i in range(3)]
    return K[0][0] * (K[1][1] * K[2][2] - K[1][2] ** 2) - K[0][1] * (K[0][1] * K[2][2] - K[1][2] * K[0][2]) \
        + K[0][2] * (K[0][1] * K[1][2] - K[1][1] * K[0][2]) > 0


class Reject(Exception):
    pass


def dry(d, limit=400):
    """Walks through the motion to keep scenarios inside what the specification covers: values on the grid, prescribed
    motions that continue the state they start from, no coincident points, no bond broken before the first step."""
    N = len(d["pts"])
    fam = [family(d, p) for p in range(N)]
    x = d["pts"]
    val = lambda c, p, t: ev(c["expr"], x[p], t)
    u = [[(lambda c: val(c, p, 0) if c else 0)(last(d, "idisp", p + 1, k)) for k in (1, 2, 3)] for p in range(N)]
    v = [[(lambda c: val(c, p, 0) if c else 0)(last(d, "ivel", p + 1, k)) for k in (1, 2, 3)] for p in range(N)]
    con = d["contact"]

    def acc(t):
        r = []
        for p in range(N):
            D = entry_of(d, d["blk"][p])["den"]
            row = []
            for k in (1, 2, 3):
                c = last(d, "bforce", p + 1, k)
                f = val(c, p, t) if c else 0
                if f % D:
                    raise Reject("force")
                row.append(f // D)
            r.append(row)
        return r

    def check(t, start):
        y = [[a + b for a, b in zip(x[p], u[p])] for p in range(N)]
        for p in range(N):
            if max(abs(c) for c in u[p]) > limit:
                raise Reject("far")
            for q in range(N):
                if q != p and (q in fam[p] or con["on"]):
                    s = d2(y[p], y[q])
                    if s == 0 or con["on"] and 100 * s < con["radius"] ** 2:
                        raise Reject("coincident")
                    if con["on"] and q not in fam[p] and s < con["radius"] ** 2:
                        touch.append((p, q))
                    if q in fam[p] and s > 32000:
                        raise Reject("stretch")
            k = entry_of(d, d["blk"][p])["dmg"]
            if k:
                for tt in ({0, t} if start else {t}):
                    n_ = ev(d["dmg"][k - 1], [0, 0, 0], tt) + d["dal"][k - 1] * dT[p]
                    if n_ % 2 == 0 or n_ <= -256 or n_ > 2000:
                        raise Reject("crit")
                    if start and any(65536 * d2(y[p], y[q]) > (256 + n_) ** 2 * d2(x[p], x[q]) for q in fam[p]
                                     if (p, q) not in broken):
                        raise Reject("broken at start")
                for q in fam[p]:
                    if 65536 * d2(y[p], y[q]) > (256 + n_) ** 2 * d2(x[p], x[q]):
                        broken.add((p, q))
    broken, touch = set(), []
    dT = [0] * N
    nb = []
    for s in d["solvers"]:
        t, m = s["t0"], s["m"]
        rest = s.get("kind") == "rest"
        a = acc(t)
        if rest:
            if nb and nb[-1] != ([0] + nb)[-2]:
                raise Reject("stale")                                 # KNOWN_FINDINGS C21
            v = [[0, 0, 0] for _ in range(N)]
        else:
            check(t, True)
        for k in range((s["tf"] - s["t0"]) // m):
            t1 = s["t0"] + (k + 1) * m
            if con["on"] and (k + 1) % con["freq"] == 0 and k > 0:      # contact moves points by a tiny amount: no ties
                y = [[a_ + b_ for a_, b_ in zip(x[p], u[p])] for p in range(N)]
                if any(q not in fam[p] and d2(y[p], y[q]) == con["reach"] ** 2 for p in range(N) for q in range(N) if p != q):
                    raise Reject("tie")
            vh = []
            for p in range(N):
                row = []
                for c in (1, 2, 3):
                    pd = last(d, "pdisp", p + 1, c)
                    if pd:
                        f1, f0 = val(pd, p, t1), val(pd, p, t)
                        inc = f1 - f0 if f1 != f0 else f1 - u[p][c - 1]
                        if inc != f1 - u[p][c - 1] or inc % m:
                            raise Reject("prescribed")
                        row.append(inc // m)
                    else:
                        row.append(0 if rest else v[p][c - 1] + m * a[p][c - 1])
                vh.append(row)
            u = [[a_ + m * b_ for a_, b_ in zip(u[p], vh[p])] for p in range(N)]
            a = acc(t1)
            v = vh if rest else [[b_ + m * a_ for a_, b_ in zip(a[p], vh[p])] for p in range(N)]
            t = t1
            for p in range(N):
                c = last(d, "ptemp", p + 1, 1)
                if c:
                    dT[p] = val(c, p, t) - val(c, p, 0)
            check(t, False)
            nb.append(len(broken))
    return dict(broken=nb, touch=len(touch))


def lattice(rng, n, gap=8):
    dims = rng.choice([(n, 1, 1), (1, n, 1), (1, 1, n), (3, (n + 2) // 3, 1), (1, 2, (n + 1) // 2), (2, 2, (n + 3) // 4),
                       ((n + 3) // 4, 2, 2), (2, (n + 1) // 2, 1)])
    cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    rng.shuffle(cells)
    cells = cells[:n]
    o = [rng.randint(-3, 3) * gap for _ in range(3)] if rng.random() < 0.5 else [0, 0, 0]
    return [[gap * a + b for a, b in zip(c, o)] for c in cells]


def texpr(rng, decimal, lo, hi, mult=1):
    """A function of time: constant, linear, or switched."""
    k = rng.random()
    cst = lambda: ["num", mult * rng.randint(lo, hi)]
    if k < 0.35:
        return cst()
    if k < 0.6:
        return ["mul", mult * rng.choice([-1, 1, 1, 2]), ["t"]]
    th = rng.randint(1, 12)
    c = [["mul", 2, ["t"]], ["num", 2 * th + 1]] if decimal else [["t"], ["num", th]]
    r = rng.choice(["lt", "gt"] if decimal else ["lt", "le", "gt", "ge"])
    if k < 0.8:
        return ["when", r] + c + [cst()]
    return ["if", r] + c + [cst(), rng.choice([cst(), ["mul", mult, ["t"]]])]


def xexpr(rng, d, lo, hi, mult=1):
    """A function of position (values that are multiples of 8 are reduced by the comparison forms only)."""
    k = rng.random()
    cst = lambda: ["num", mult * rng.randint(lo, hi)]
    if k < 0.5:
        return cst()
    ax = rng.choice("xyz")
    if k < 0.75:
        return ["if", rng.choice(["lt", "le", "gt", "ge"]), [ax], ["num", 8 * rng.randint(-1, 3) + rng.choice([0, 0, 4])], cst(), cst()]
    return ["add", cst(), ["mul", mult * rng.choice([-1, 1]), [ax]]]


def subset(rng, n):
    k = rng.choice([1, 1, 2, 3, n // 2 or 1, n])
    s = rng.sample(range(1, n + 1), min(k, n))
    return s


ALLOUT = ["Displacement", "Velocity", "Coordinates"]


def base(rng, n, nblk=1, horizons=(9, 12, 17), gap=8, dens=(1,), np_=(1, 2, 2, 3, 4)):
    pts = lattice(rng, n, gap)
    n = len(pts)
    ids = rng.sample([1, 2, 3, 5, 9, 10, 11, 21], nblk) if rng.random() < 0.5 else list(range(1, nblk + 1))
    blk = [rng.choice(ids) for _ in pts]
    if rng.random() < 0.5:
        ax = rng.randrange(3)
        vals = sorted({p[ax] for p in pts})
        blk = [ids[min(nblk - 1, vals.index(p[ax]) * nblk // len(vals))] for p in pts]
    used = sorted(set(blk))
    rng.shuffle(used)
    groups = []
    while used:
        k = rng.randint(1, len(used))
        groups.append(used[:k])
        used = used[k:]
    entries = [dict(names=g, hor=["num", rng.choice(horizons)], den=rng.choice(dens), dmg=0, cw=1) for g in groups]
    if rng.random() < 0.4:
        rng.choice(entries)["names"] = [0]
    decimal = rng.random() < 0.25
    T = rng.choice([0.001, 1e-5, 0.3]) if decimal else 2.0 ** rng.choice([-12, -4, -2, 0, 0, 2])
    d = dict(pts=pts, blk=blk, entries=entries, filters=[], omit=rng.random() < 0.1, dmg=[], dal=[], conds=[], solvers=[], outs=[], comps=[],
             contact=dict(on=False, radius=1, reach=1, freq=1), vol=[rng.choice([1, 1, 2, 3]) for _ in pts])
    sc = dict(d=d, U=2.0 ** rng.choice([-10, -3, 0, 0, 1]), T=T, R=rng.choice([1.0, 4.0, 7800.0]),
              W=rng.choice([1.0, 0.25, 3.0]), np=rng.choice(np_), style=dict(), decimal=decimal)
    if n < 3:
        sc["np"] = min(sc["np"], 2)
    return sc


def solver(rng, sc, steps=(3, 12), t0=0, m=None):
    m = m or rng.choice([1, 1, 2, 3, 4])
    k = rng.randint(*steps)
    rest = rng.randint(0, m - 1)
    if sc["decimal"]:
        if m == 1:
            m = 2
        rest = rng.randint(1, m - 1)
    return dict(t0=t0, tf=t0 + k * m + rest, m=m)


def finish(rng, sc):
    d = sc["d"]
    d["ranks"] = sc["np"]
    d["dal"] += [0] * (len(d["dmg"]) - len(d["dal"]))
    sc["style"]["sets"] = [rng.choice([0, 0, 0, 1, 2, 3]) for _ in d["conds"]]
    sc["style"]["vals"] = [rng.choice([0, 1, 2]) for _ in d["conds"]]
    sc["style"]["lists"] = [rng.random() < 0.5 for _ in d["solvers"]]
    sc["style"]["safety"] = [rng.choice([1.0, 1.0, 0.5, 0.25, 2.0]) for _ in d["solvers"]]
    if not d["outs"]:
        d["outs"] = [dict(freq=1, first=1, last=-1, fields=list(ALLOUT))]
    for i in range(len(d["pts"])):
        if len(family(d, i)) > 16:
            raise Reject("family")
    if any("Deformation_Gradient" in o["fields"] for o in d["outs"]) and not all(spans(d, p) for p in range(len(d["pts"]))):
        raise Reject("flat")
    sc["dry"] = dry(d)
    return sc


def attempt(rng, make, tries=4000, want=None):
    for _ in range(tries):
        try:
            sc = make(rng)
            if sc is not None and (want is None or want(sc)):
                return sc
        except Reject:
            pass
    raise ToolError("no scenario found")


def generator(name):
    """The generator of another check."""
    spec = importlib.util.spec_from_file_location(name, os.path.join(vlib.VERIF, "checks", name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.make
