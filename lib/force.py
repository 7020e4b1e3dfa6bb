"""Bodies of elastic materials on prescribed paths, and the recorder of their internal forces."""
import math
from decks import *
import vlib
from vlib import simulate, ToolError, num, BAD

INFL = {"One": "One", "Parabolic Decay": "Parabolic Decay", "Gaussian": "Gaussian", "Inverse": "value = horizon/zeta;",
        "Linear": "1.0 - 0.5*zeta/horizon"}


def weight(f, z, h):
    s = z / h
    return {"One": 1.0, "Parabolic Decay": 1.0 if s < 0.5 else 4 * s * (1 - s), "Gaussian": math.exp(-(s / 0.4) ** 2),
            "Inverse": 1 / s, "Linear": 1 - 0.5 * s}[f]


def entry(m, b):
    return ([e for e in m["entries"] if b in e["names"]] or [e for e in m["entries"] if 0 in e["names"]])[0]


def dist2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def families(m):
    n = len(m["pts"])
    return [[q for q in range(n) if q != p and dist2(m["pts"][p], m["pts"][q]) <= entry(m, m["blk"][p])["hor"][1] ** 2 and
             (not m["omit"] or m["blk"][p] == m["blk"][q])] for p in range(n)]


def at(m, k):
    return [[x + a + k * b for x, a, b in zip(m["pts"][p], m["a"][p], m["b"][p])] for p in range(len(m["pts"]))]


def covered(m):
    """Within the resolution of the specification, and without bonds broken before the first of several steps."""
    fam = families(m)
    n = len(m["pts"])
    for k in range(m["n"] + 1):
        y = at(m, k)
        for p in range(n):
            if max(map(abs, y[p])) > 60:
                return False
            e = entry(m, m["blk"][p])
            for q in fam[p]:
                s, r = dist2(y[p], y[q]), dist2(m["pts"][p], m["pts"][q])
                if s < 4 or s > 2000 or r < 9 or weight(m["infl"], math.sqrt(r), e["hor"][1]) < 0.15:
                    return False
                c = 256 + e["crit"] + e["dal"] * k * m["tem"][p][1]
                if e["crit"] and c <= 0:
                    return False
                if e["crit"] and k == 0 and m["n"] and 65536 * s > c * c * r:
                    return False
                if abs(math.sqrt(s) / math.sqrt(r) - 1 - e["al"] * k * m["tem"][p][1] / 256.0) > 1.2:
                    return False
    return max(map(len, fam)) <= 12 and max(map(len, fam)) > 0


def moduli(e, P):
    K, mu = e["K"] * P, e["mu"] * P
    E, nu = 9 * K * mu / (3 * K + mu), (3 * K - 2 * mu) / (2 * (3 * K + mu))
    v = {"Bulk Modulus": K, "Shear Modulus": mu, "Young's Modulus": E, "Poisson's Ratio": nu}
    return {k: v[k] for k in e["given"]}


def deck_of(sc):
    m, U, P, T = sc["m"], sc["U"], sc["P"], sc["T"]
    disc = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    if m["infl"] != "One" or sc["style"]:
        disc["Influence Function"] = INFL[m["infl"]]
    if m["omit"]:
        disc["Omit Bonds Between Blocks"] = "All"
    mats, blocks, dmg = {}, {}, {}
    for i, e in enumerate(m["entries"]):
        q = {"Density": 1.0 * sc["R"]}
        if e["mat"] == "lps":
            q["Material Model"] = e["model"]
            q.update(moduli(e, P))
            if e["model"] == "Elastic Plastic":
                q["Yield Stress"] = 1e12 * P
            if e["al"]:
                q["Thermal Expansion Coefficient"] = e["al"] / 256.0
        else:
            q["Material Model"] = "Elastic Bond Based"
            q["Bulk Modulus"] = e["K"] * P
            if e["mat"] == "bbp":
                q["Plane Strain" if sc["style"] else "Plane Stress"] = True
                q["Height"] = e["hgt"] * U
        mats["M%d" % i] = q
        b = {"Block Names": " ".join(name(x) for x in e["names"]), "Material": "M%d" % i, "Horizon": e["hor"][1] * U}
        if e["crit"]:
            dmg["D%d" % i] = {"Damage Model": "Critical Stretch", "Critical Stretch": e["crit"] / 256.0}
            if e["dal"]:
                dmg["D%d" % i]["Thermal Expansion Coefficient"] = e["dal"] / 256.0
            b["Damage Model"] = "D%d" % i
        blocks["B%d" % i] = b
    files = {"mesh.txt": text_mesh(m["pts"], m["blk"], [v * 100.0 * U ** 3 for v in m["vol"]], U)}
    bc = {}
    moving = m["n"] > 0
    for p in range(len(m["pts"])):
        ns = "Node Set %d" % (p + 1)
        bc[ns] = str(p + 1)
        for c in range(3):
            a, b = m["a"][p][c] * U, m["b"][p][c] * U / T
            if a:
                bc["I %d %d" % (p, c)] = {"Type": "Initial Displacement", "Node Set": ns, "Coordinate": "xyz"[c], "Value": num(a)}
            if moving:
                bc["P %d %d" % (p, c)] = {"Type": "Prescribed Displacement", "Node Set": ns, "Coordinate": "xyz"[c],
                                          "Value": "value = %s + (%s)*t" % (num(a), num(b))}
        if sc["hot"]:
            bc["T %d" % p] = {"Type": "Prescribed Temperature", "Node Set": ns, "Value": "%s + (%s)*t" % (num(m["tem"][p][0]), num(m["tem"][p][1] / T))}
    out = ["Force_Density", "Displacement"]
    if any(e["mat"] == "lps" for e in m["entries"]):
        out += ["Weighted_Volume", "Dilatation"]
    if sc["energy"]:
        out.append("Stored_Elastic_Energy_Density")
    if any(e["crit"] for e in m["entries"]):
        out.append("Damage")
    deck = {"Discretization": disc, "Materials": mats, "Blocks": blocks, "Boundary Conditions": bc,
            "Solver": verlet(T, (m["n"] + 0.5) * T), "Output": output(out)}
    if dmg:
        deck["Damage Models"] = dmg
    return deck, files


def rd(x, u):
    if x != x or abs(x / u) > 2.0e9:
        return BAD
    return int(round(x / u))


def run_force(sc):
    m, U, P, T = sc["m"], sc["U"], sc["P"], sc["T"]
    deck, files = deck_of(sc)
    r = simulate(deck, files, sc["np"])
    if vlib.crashed_by_tool(r):
        raise ToolError("run failed: " + r.log[-800:])
    ev = [{"ev": "body", "body": m}]
    o = r.files.get("out")
    n = len(m["pts"])
    if r.rc or o is None or sorted(o["pts"]) != list(range(1, n + 1)) or o["dup"]:
        return ev + [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
    ids = range(1, n + 1)
    for k in range(len(o["time"])):
        if any(abs(o["nodal"]["Displacement" + c][i][k] / U - m["a"][i - 1][j] - k * m["b"][i - 1][j]) > 1e-6
               for i in ids for j, c in enumerate("XYZ")):
            return ev + [{"ev": "offpath", "step": k}]
        get = lambda f, u: [rd(o["elem"][f][i][k], u) for i in ids] if f in o["elem"] else []
        ev.append({"ev": "frame", "f": [[rd(o["nodal"]["Force_Density" + c][i][k], 1e-7 * P / U) for c in "XYZ"] for i in ids],
                   "w": get("Weighted_Volume", 0.1 * U ** 5), "th": get("Dilatation", 1e-5),
                   "en": get("Stored_Elastic_Energy_Density", 1e-5 * P), "dmg": get("Damage", 1e-5)})
    return ev + [{"ev": "end"}]


# --------------------------------------------------------------------------- generation
PAIRS = [("Bulk Modulus", "Shear Modulus"), ("Young's Modulus", "Poisson's Ratio"), ("Bulk Modulus", "Poisson's Ratio"),
         ("Bulk Modulus", "Young's Modulus"), ("Shear Modulus", "Young's Modulus"), ("Shear Modulus", "Poisson's Ratio")]


def body(rng):
    n = rng.choice([2, 3, 4, 4, 5, 6, 8, 8, 10])
    box = rng.choice([(30, 4, 0), (14, 14, 0), (12, 12, 12), (18, 10, 6), (0, 30, 8)])
    pts = []
    for _ in range(2000):
        p = [rng.randint(0, b) for b in box]
        if all(dist2(p, q) >= 9 for q in pts):
            pts.append(p)
        if len(pts) == n:
            break
    n = len(pts)
    nb = rng.choice([1, 1, 2, 3])
    pool = rng.sample([1, 2, 3, 4, 7, 12], nb)
    blk = [rng.choice(pool) for _ in pts]
    used = sorted(set(blk))
    rng.shuffle(used)
    groups = []
    while used:
        k = rng.randint(1, len(used))
        groups.append(used[:k])
        used = used[k:]
    kinds = rng.choice([["lps"], ["lps"], ["lps"], ["lps", "bb"], ["bb"], ["bbp"], ["lps", "bbp"]])
    infl = rng.choice(["One", "One", "Parabolic Decay", "Parabolic Decay", "Gaussian", "Inverse", "Linear"])
    hot = rng.random() < 0.45 and "lps" in kinds
    damage = rng.random() < 0.45
    ent = []
    for g in groups:
        e = dict(names=g, hor=["num", rng.randint(6, 16)], mat=rng.choice(kinds), K=rng.randint(1, 8), mu=rng.randint(1, 6), al=0,
                 crit=0, dal=0, hgt=rng.choice([1, 2, 5]), model="Elastic")
        e["given"] = rng.choice(PAIRS)
        if e["mat"] == "lps" and hot and rng.random() < 0.8:
            e["al"] = rng.choice([1, 2, 4, -2])
        elif e["mat"] == "lps" and infl == "One" and rng.random() < 0.25:
            e["model"] = "Elastic Plastic"
        if damage and rng.random() < 0.8:
            e["crit"] = rng.choice([5, 15, 31, 63, 101])
            if hot and rng.random() < 0.4:
                e["dal"] = rng.choice([2, 4])
        ent.append(e)
    if rng.random() < 0.4:
        rng.choice(ent)["names"] = [0]
    rng.shuffle(ent)
    style = rng.random()
    vec = lambda s: [rng.randint(-s, s) for _ in range(3)]
    zero = [[0, 0, 0] for _ in pts]
    if style < 0.12:
        t, u = vec(8), vec(4)
        a, b = [t] * n, [u] * n
    elif style < 0.5:
        a, b = [vec(2) for _ in pts], [vec(1) for _ in pts]
    elif style < 0.75:
        a, b = zero, [vec(2) if rng.random() < 0.6 else [0, 0, 0] for _ in pts]
    else:
        a, b = [vec(3) for _ in pts], [[-x for x in vec(1)] for _ in pts]
    m = dict(pts=pts, blk=blk, entries=ent, filters=[], omit=rng.random() < 0.15, vol=[rng.randint(1, 3) for _ in pts], infl=infl,
             a=a, b=b, n=rng.choice([0, 0, 1, 2, 3, 4]), tem=[[rng.randint(-3, 9), rng.choice([-3, -1, 1, 2, 5])] for _ in pts])
    if not hot:
        m["tem"] = [[0, 0] for _ in pts]
    if hot and m["n"] == 0:
        m["n"] = 1
    return m if covered(m) else None


def make(rng):
    while True:
        m = body(rng)
        if m is None:
            continue
        hot = any(t[1] for t in m["tem"])
        U = 2.0 ** rng.choice([-8, -3, 0, 0, 2])
        return dict(m=m, U=U, P=rng.choice([1.0, 1.0, 64.0, 2.0e5]), T=2.0 ** rng.choice([-12, -3, 0]), R=rng.choice([1.0, 7800.0]), hot=hot,
                    np=rng.choice([1, 2, 2, 3, 4]), style=rng.random() < 0.5,
                    energy=all(e["mat"] == "lps" and e["model"] == "Elastic" for e in m["entries"]) and rng.random() < 0.7)
