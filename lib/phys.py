"""Decks with real material behaviour, whose results are compared between runs (TrAgree)."""
import math
import vlib
from vlib import simulate, ToolError, BAD
from sim import Reject

SCALE = 10 ** 7
FLOOR = dict(Damage=1.0, Volume=1e-3, Number_Of_Neighbors=1.0)


def material(rng, kind=None):
    kind = kind or rng.choice(["Elastic", "Elastic", "Elastic Plastic", "Elastic Plastic Hardening", "Viscoelastic", "Elastic Bond Based",
                               "Elastic Correspondence", "Isotropic Hardening Correspondence", "Elastic Plastic Correspondence"])
    m = {"Material Model": kind, "Density": rng.choice([1.0, 2.0, 7.8]), "Bulk Modulus": rng.choice([1.0, 1.5, 4.0]),
         "Shear Modulus": rng.choice([0.5, 0.6, 1.0])}
    if kind == "Elastic Bond Based":
        del m["Shear Modulus"]
    if "Plastic" in kind or "Hardening" in kind:
        m["Yield Stress"] = rng.choice([0.001, 0.01])
    if "Hardening" in kind:
        m["Hardening Modulus"] = 0.2
    if "Hypoelastic" in kind or "Associated" in kind:
        m["Gradient Order Of Accuracy"] = 1
        if "Isotropic" in kind:
            h = {"Yield Stress": m.pop("Yield Stress"), "Hardening Characteristic Strain": 0.01, "Hardening Exponent": 0.1}
            del m["Hardening Modulus"]
            m.update(h if "Hypoelastic" in kind else {"Hardening Rule": "Power-law", "Hardening Parameters": h})
        if "Hypoelastic" in kind:
            m["Actual Horizon"] = rng.choice([1.83, 2.13])
    elif "Correspondence" in kind:
        m["Hourglass Coefficient"] = 0.02
    if kind == "Viscoelastic":
        m["lambda_i"], m["tau b"] = 0.5, rng.choice([0.5, 2.0])
    if kind == "Elastic" and rng.random() < 0.3:
        m["Apply Shear Correction Factor"] = True
    return m


SYNCHRONISED = ["Linear LPS Partial Volume", "Elastic Hypoelastic Correspondence", "Elastic Plastic Hypoelastic Correspondence",
                "Isotropic Hardening Hypoelastic Correspondence", "Elastic Bond Associated Correspondence",
                "Elastic Plastic Bond Associated Correspondence", "Isotropic Hardening Bond Associated Correspondence", "Pals"]


def grid_points(rng, big=False):
    dims = rng.choice([(6, 3, 3), (4, 4, 4), (10, 3, 2), (3, 3, 8), (5, 5, 3)] if big else [(4, 3, 3), (3, 3, 4), (6, 3, 2), (3, 3, 3)])
    jit = rng.choice([0.0, 0.05, 0.12])
    pts = [[i + rng.uniform(-jit, jit), j + rng.uniform(-jit, jit), k + rng.uniform(-jit, jit)]
           for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    if rng.random() < 0.5:
        rng.shuffle(pts)
    return dims, pts


def make_phys(rng, contact=None, damage=None, solvers=1, steps=(6, 24), auto=False, kind=None):
    dims, pts = grid_points(rng, rng.random() < 0.3)
    n = len(pts)
    nb = rng.choice([1, 2, 2, 3])
    ids = rng.sample([1, 2, 3, 4, 7, 10, 12], nb)
    ax = rng.randrange(3)
    L = max(p[ax] for p in pts) + 0.01
    blk = [ids[min(nb - 1, max(0, int(nb * (p[ax] + 0.01) / (L + 0.02))))] for p in pts]
    ids = sorted(set(blk))
    contact = rng.random() < 0.35 if contact is None else contact
    apart = contact and len(ids) > 1 and rng.random() < 0.7
    if apart:                                                        # separate bodies that meet
        for i, p in enumerate(pts):
            p[ax] += 2.6 * ids.index(blk[i])
    damage = rng.random() < 0.35 if damage is None else damage
    mats, blocks, dm = {}, {}, {}
    shared = material(rng, kind) if kind or rng.random() < 0.5 else None
    for i, b in enumerate(ids):
        m = shared or material(rng)
        if apart and "Correspondence" in m["Material Model"]:        # layers have no shape tensor
            m = material(rng, "Elastic")
        mats["M%d" % i] = m
        blocks["B%d" % i] = {"Block Names": "block_%d" % b, "Material": "M%d" % i, "Horizon": 0.0}
    h = rng.choice([1.57, 2.13, 2.49])
    for k, b in blocks.items():
        b["Horizon"] = h if rng.random() < 0.7 else rng.choice([1.83, 2.13, 2.49])
        if "Correspondence" in mats[b["Material"]]["Material Model"] or kind == "Pals":
            b["Horizon"] = max(b["Horizon"], 2.13)
    if damage:
        dm["D"] = {"Damage Model": "Critical Stretch", "Critical Stretch": rng.choice([0.013, 0.031])}
        for b in blocks.values():
            if rng.random() < 0.8 and "Correspondence" not in mats[b["Material"]]["Material Model"]:
                b["Damage Model"] = "D"
        if not any("Damage Model" in b for b in blocks.values()):
            damage, dm = False, {}
    deck = {"Discretization": {"Type": "Text File", "Input Mesh File": "mesh.txt"}, "Materials": mats, "Blocks": blocks}
    if dm:
        deck["Damage Models"] = dm
    bc = {}
    sets = {"all": list(range(1, n + 1)), "left": [i + 1 for i in range(n) if pts[i][ax] < 0.5],
            "right": [i + 1 for i in range(n) if pts[i][ax] > max(p[ax] for p in pts) - 0.5],
            "some": sorted(rng.sample(range(1, n + 1), max(1, n // 4)))}
    sets = {k: v for k, v in sets.items() if v}
    for k, v in sets.items():
        bc["Node Set " + k] = " ".join(map(str, v))
    c = "xyz"[ax]
    amp = 0.12 if contact else 0.02
    bc["V1"] = {"Type": "Initial Velocity", "Node Set": "Node Set all", "Coordinate": c, "Value": "value = -%r*(%s - %r)" % (amp / 2, c, L / 2)}
    bc["V2"] = {"Type": "Initial Velocity", "Node Set": "Node Set some", "Coordinate": "xyz"[(ax + 1) % 3], "Value": "value = 0.01*%s" % c}
    if rng.random() < 0.5 and "left" in sets:
        bc["P1"] = {"Type": "Prescribed Displacement", "Node Set": "Node Set left", "Coordinate": c, "Value": "value = 0.01*t"}
    if rng.random() < 0.4:
        bc["F1"] = {"Type": "Body Force", "Node Set": "Node Set some", "Coordinate": rng.choice("xyz"), "Value": "value = 0.002*t"}
    deck["Boundary Conditions"] = bc
    if contact:
        cm = {"Contact Model": "Short Range Force", "Contact Radius": rng.choice([0.9, 1.3]), "Spring Constant": 1.0}
        if rng.random() < 0.4:
            cm["Friction Coefficient"] = 0.3
        deck["Contact"] = {"Search Radius": rng.choice([1.7, 2.3]), "Search Frequency": rng.choice([1, 3, 5]), "Models": {"CM": cm},
                           "Interactions": {"General Contact": {"Contact Model": "CM"}, "Self Contact": {"Contact Model": "CM"}}}
    dt, t = rng.choice([0.05, 0.1]), 0.0
    for i in range(solvers):
        k = rng.randint(*steps)
        q = {"Final Time": t + (k + 0.5) * dt, "Verlet": {"Safety Factor": rng.choice([0.5, 0.7])} if auto else {"Fixed dt": dt}}
        if t:
            q["Initial Time"] = t
        t += k * dt
        deck["Solver%s" % (i + 1 if solvers > 1 else "")] = q
    f = ["Displacement", "Velocity", "Force_Density", "Volume", "Number_Of_Neighbors"]
    if damage:
        f.append("Damage")
    if contact:
        f.append("Contact_Force_Density")
    deck["Output"] = {"Output Filename": "out", "Output Frequency": rng.choice([1, 2, 5]), "Output Variables": {v: True for v in f}}
    mesh = "".join("%r %r %r %d %r\n" % (p[0], p[1], p[2], b, rng.choice([1.0, 1.0, 0.8])) for p, b in zip(pts, blk))
    return dict(deck=deck, files={"mesh.txt": mesh}, nps=[1, 2, 3, 4], contact=contact, damage=damage)


def collect(o, scales):
    """A result for TrAgree; scales maps a field to the size of its values and is filled by the first run."""
    ids = sorted(o["pts"])
    whole = not o["dup"] and not o["id_mismatch"] and o["times_agree"] and o["names_agree"] and sorted(o["elem_block"]) == ids
    vals = {}
    for src in ("nodal", "elem"):
        for f, v in o[src].items():
            if len(v) != len(ids):
                whole = False
                continue
            group = f[:-1] if f[-1] in "XYZ" else f
            if (src, group) not in scales:
                comps = [o[src][g] for g in o[src] if (g[:-1] if g[-1] in "XYZ" else g) == group]
                m = max((abs(x) for c in comps for row in c.values() for x in row if x == x), default=0.0)
                scales[src, group] = max(m, FLOOR.get(group, 1e-3))
            s = scales[src, group]
            vals[f] = [[int(round(v[i][k] / s * SCALE)) if abs(v[i][k]) < 100 * s else BAD for i in ids] for k in range(len(o["time"]))]
    for f, v in o.get("global", {}).items():
        if ("glob", f) not in scales:
            scales["glob", f] = max([abs(float(x)) for x in v if x == x] + [1e-3])
        s = scales["glob", f]
        vals["global " + f] = [[int(round(float(x) / s * SCALE)) if abs(x) < 100 * s else BAD] for x in v]
    tm = max([abs(t) for t in o["time"]] + [1e-9])
    scales.setdefault("time", tm)
    return dict(ids=ids, blk=[o["elem_block"].get(i, "?") for i in ids], times=[int(round(t / scales["time"] * SCALE)) for t in o["time"]],
                whole=bool(whole), vals=vals)


def run_agree(sc):
    scales, evs = {}, []
    for k, np_ in enumerate(sc["nps"]):
        r = simulate(sc["deck"], sc["files"], np_)
        if vlib.crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        o = r.files.get("out")
        if r.rc != 0 or o is None:
            return evs + [{"ev": "failed", "np": np_, "rc": r.rc, "log": r.log[-1500:]}]
        evs.append({"ev": "again" if k else "first", "np": np_, "partial": False, "r": collect(o, scales)})
    return evs
