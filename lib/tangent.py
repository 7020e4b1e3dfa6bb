"""Tangents and differences of forces of deformed bodies (TrTangent)."""
import copy, math, os
import vlib
from vlib import ToolError, BAD, num, scratch, execute, yaml

UNIT = 1e-7                                              # of the largest derivative


def material(rng, kind, big):
    m = {"Material Model": kind, "Density": rng.choice([1.0, 2.0]), "Bulk Modulus": rng.choice([1.0, 1.5, 3.0]), "Shear Modulus": rng.choice([0.5, 0.8, 1.0])}
    if kind == "Elastic Bond Based":
        del m["Shear Modulus"]
    if "Plastic" in kind or "Hardening" in kind:
        m["Yield Stress"] = rng.choice([0.002, 0.02, 100.0])
    if "Hardening" in kind:
        m["Hardening Modulus"] = 0.2
    if "Correspondence" in kind:
        m["Hourglass Coefficient"] = 0.02
    if kind == "Viscoelastic":
        m["lambda_i"], m["tau b"] = 0.5, rng.choice([0.5, 2.0])
    if kind in ("Elastic", "Elastic Plastic"):
        if rng.random() < 0.4:
            m["Apply Automatic Differentiation Jacobian"] = rng.random() < 0.5
    if kind == "Elastic" and rng.random() < 0.3:
        m["Apply Shear Correction Factor"] = rng.random() < 0.5
    m["Finite Difference Probe Length"] = 1e-5
    return m


KINDS = ["Elastic", "Elastic", "Elastic", "Elastic Bond Based", "Elastic Bond Based", "Elastic Plastic", "Elastic Plastic Hardening", "Viscoelastic",
         "Elastic Correspondence"]


def points(rng, solid):
    if solid:
        dims = rng.choice([(2, 2, 3), (3, 2, 2), (2, 2, 2), (3, 3, 2)])
        cells = [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    else:
        n = rng.choice([1, 2, 3, 4, 6, 8, 10, 12])
        cells = rng.sample([(i, j, k) for i in range(4) for j in range(3) for k in range(3)], n)
    jit = 0.2
    pts = [[c + rng.uniform(-jit, jit) for c in p] for p in cells]
    rng.shuffle(pts)
    return pts


def families(pts, hor, omit, blk):
    n = len(pts)
    return [[q for q in range(n) if q != p and math.dist(pts[p], pts[q]) <= hor[p] and not (omit and blk[p] != blk[q])] for p in range(n)]


def displacements(rng, n, size):
    mode = rng.random()
    if mode < 0.1:
        return [0.0] * (3 * n)
    u = [rng.uniform(-size, size) for _ in range(3 * n)]
    if mode < 0.4:                                       # only some points move
        u = [x if rng.random() < 0.4 else 0.0 for x in u]
    return u


def make(rng):
    while True:
        mode = rng.choice(["lib", "lib", "nox", "nox", "nox", "kept", "block", "block"])
        kinds = [k for k in KINDS if mode != "kept" or k in ("Elastic", "Elastic Bond Based")]
        nb = rng.choice([1, 1, 2, 2, 3])
        chosen = [rng.choice(kinds) for _ in range(nb)]
        solid = mode == "kept" or any("Correspondence" in k for k in chosen)
        pts = points(rng, solid)
        n = len(pts)
        nb = min(nb, n)
        ids = sorted(rng.sample([1, 2, 3, 5, 8, 11], nb))
        blk = [rng.choice(ids) for _ in pts]
        if rng.random() < 0.5:
            blk = [ids[min(nb - 1, int(nb * (p[0] + 0.3) / 3.5))] for p in pts]
        ids = sorted(set(blk))
        hors = {b: rng.choice([1.3, 1.7, 2.2, 2.9]) if not solid else rng.choice([1.9, 2.4, 3.1]) for b in ids}
        if rng.random() < 0.5:
            hors = {b: hors[ids[0]] for b in ids}
        omit = rng.random() < 0.15 and not solid
        fam = families(pts, [hors[b] for b in blk], omit, blk)
        if solid and min(map(len, fam)) < 5:
            continue
        if any(abs(math.dist(pts[p], pts[q]) - hors[blk[p]]) < 1e-6 for p in range(n) for q in range(n)):
            continue
        break
    mats, blocks, dmg = {}, {}, {}
    for i, b in enumerate(ids):
        mats["M%d" % i] = material(rng, chosen[i], solid)
        blocks["B%d" % i] = {"Block Names": "block_%d" % b, "Material": "M%d" % i, "Horizon": hors[b]}
    damage = 0.0
    if mode in ("lib", "nox") and rng.random() < 0.25 and not solid:
        damage = rng.choice([0.05, 0.1])
        dmg["D"] = {"Damage Model": "Critical Stretch", "Critical Stretch": damage}
        for b in blocks.values():
            b["Damage Model"] = "D"
    vol = [rng.choice([0.5, 1.0, 1.0, 1.5]) for _ in pts]
    disc = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    infl = rng.choice(["One", "One", "Gaussian", "Parabolic Decay"])
    if infl != "One":
        disc["Influence Function"] = infl
    if omit:
        disc["Omit Bonds Between Blocks"] = "All"
    bc, fixed = {}, set()
    for c in range(3):
        for s in range(rng.choice([1, 1, 2]) if mode != "lib" or rng.random() < 0.5 else 0):
            ps = [p for p in range(n) if rng.random() < (0.3 if mode != "kept" else 0.5)]
            if mode == "kept" and not ps:
                ps = [rng.randrange(n)]
            if ps:
                ns = "Node Set %d%d" % (c, s)
                bc[ns] = " ".join(str(p + 1) for p in ps)
                bc["P%d%d" % (c, s)] = {"Type": "Prescribed Displacement", "Node Set": ns, "Coordinate": "xyz"[c], "Value": "1e-6*t*x" if mode == "kept" else "0.0"}
                fixed |= {3 * p + c for p in ps}
    deck = {"Discretization": disc, "Materials": mats, "Blocks": blocks, "Boundary Conditions": bc,
            "Output": {"Output Filename": "out", "Output Frequency": 1, "Output Variables": {"Displacement": True}}}
    if dmg:
        deck["Damage Models"] = dmg
    if mode == "kept":
        deck["Solver"] = {"Initial Time": 0.0, "Final Time": 1.0,
                          "QuasiStatic": {"Number of Load Steps": 1, "Absolute Tolerance": 1e-13, "Maximum Solver Iterations": 10}}
    else:
        deck["Solver"] = {"Initial Time": 0.0, "Final Time": 1.0,
                          "NOXQuasiStatic": {"Number of Load Steps": 1, "Absolute Tolerance": 1e30, "Max Solver Iterations": 1,
                                             "Nonlinear Solver": "Line Search Based", "Direction": {"Method": "Newton"}}}
        if mode == "block":
            deck["Solver"]["Peridigm Preconditioner"] = "Block 3x3"
            deck["Solver"]["NOXQuasiStatic"]["Direction"] = {"Method": "Newton", "Newton": {"Linear Solver": {"Jacobian Operator": "Matrix-Free", "Preconditioner": "User Defined"}}}
    sizes = [0.2, 0.02, 1e-4]
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        u = displacements(rng, n, rng.choice(sizes) if not solid else rng.choice([0.05, 0.01]))
        if mode == "nox" or mode == "block":
            u = [0.0 if i in fixed and rng.random() < 0.7 else x for i, x in enumerate(u)]
        steps.append(dict(u=u, store=rng.random() < 0.5))
    if mode == "kept":
        steps = []
    if damage:
        y = lambda s, p: [pts[p][c] + s["u"][3 * p + c] for c in range(3)]
        for s in steps:
            for p in range(n):
                for q in fam[p]:
                    r0 = math.dist(pts[p], pts[q])
                    if abs((math.dist(y(s, p), y(s, q)) - r0) / r0 - damage) < 1e-3:
                        return make(rng)
    return dict(deck=deck, pts=pts, blk=blk, vol=vol, fam=[[q + 1 for q in f] for f in fam], fixed=sorted(i + 1 for i in fixed), mode=mode,
                np=rng.choice([1, 1, 2, 2, 3, 4]), steps=steps, dt=rng.choice([1.0, 0.25]),
                corners=any("Plastic" in k or "Hardening" in k for k in chosen))


def partial_volume():
    """Linear LPS Partial Volume, whose differences of forces keep the dilatation of the unperturbed positions."""
    pts = [[float(i), float(j), float(k)] for i in range(2) for j in range(2) for k in range(3)]
    deck = {"Discretization": {"Type": "Text File", "Input Mesh File": "mesh.txt"},
            "Materials": {"M": {"Material Model": "Linear LPS Partial Volume", "Density": 1.0, "Bulk Modulus": 3.0, "Shear Modulus": 1.0,
                                "Finite Difference Probe Length": 1e-5}},
            "Blocks": {"B": {"Block Names": "block_1", "Material": "M", "Horizon": 2.5}},
            "Output": {"Output Filename": "out", "Output Frequency": 1, "Output Variables": {"Displacement": True}},
            "Solver": {"Initial Time": 0.0, "Final Time": 1.0, "NOXQuasiStatic": {"Number of Load Steps": 1, "Absolute Tolerance": 1e30,
                       "Max Solver Iterations": 1, "Nonlinear Solver": "Line Search Based", "Direction": {"Method": "Newton"}}}}
    blk = [1] * len(pts)
    fam = families(pts, [2.5] * len(pts), False, blk)
    return dict(deck=deck, pts=pts, blk=blk, vol=[1.0] * len(pts), fam=[[q + 1 for q in f] for f in fam], fixed=[], mode="lib", np=1,
                steps=[dict(u=[0.01 * ((7 * i) % 5) for i in range(3 * len(pts))], store=False)], dt=1.0, corners=False)


def drive(sc, h):
    n = len(sc["pts"])
    with scratch() as d:
        with open(os.path.join(d, "deck.yaml"), "w") as f:
            f.write(yaml({"Peridigm": sc["deck"]}) + "\n")
        with open(os.path.join(d, "mesh.txt"), "w") as f:
            for p, b, v in zip(sc["pts"], sc["blk"], sc["vol"]):
                f.write("%r %r %r %d %r\n" % (*p, b, v))
        with open(os.path.join(d, "script"), "w") as f:
            if sc["mode"] != "lib":
                f.write("run\n")
            f.write("dt %r\n" % sc["dt"])
            if sc["mode"] == "kept":
                f.write("kept %r\n" % h)
            for s in sc["steps"]:
                f.write("u " + " ".join(map(repr, s["u"])) + "\n")
                f.write("%s %r\n" % ("lib" if sc["mode"] == "lib" else "nox", h))
                if s["store"]:
                    f.write("store\n")
        r = execute(d, np=sc["np"], exe=os.path.join(vlib.BUILD, "src", "pdtangent"), args=[])
        if vlib.crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        dumps = []
        for i in range(sc["np"]):
            p = os.path.join(d, "dump.%d" % i)
            dumps.append(open(p).read() if os.path.exists(p) else "")
    if r.rc or not all(s.endswith("END\n") for s in dumps):
        return r, None
    own, mats = [0] * n, []
    for rank, s in enumerate(dumps):
        cur = -1
        for ln in s.split("\n"):
            t = ln.split()
            if not t:
                continue
            if t[0] == "O":
                for g in t[1:]:
                    own[int(g)] = rank + 1
            elif t[0] == "M":
                cur += 1
                if len(mats) <= cur:
                    mats.append(dict(k=[[0.0] * (3 * n) for _ in range(3 * n)], d=[[0.0] * (3 * n) for _ in range(3 * n)], rows=[[] for _ in range(3 * n)]))
            elif t[0] == "R":
                i = int(t[1])
                mats[cur]["rows"][i].append(rank + 1)
                for a, v in zip(t[2::2], t[3::2]):
                    mats[cur]["k"][i][int(a)] += float(v)
            elif t[0] == "D":
                mats[cur]["d"][int(t[1])][int(t[2])] += float(t[3])
    return r, (own, mats)


def quant(x, u):
    if x != x or abs(x) > 1e9 * u:
        return BAD
    if x != 0.0 and round(x / u) == 0:
        return 1 if x > 0 else -1
    return int(round(x / u))


def agree(sc, m, slack=30):
    n = 3 * len(sc["pts"])
    top = max([abs(x) for r in m["d"] for x in r] + [1e-300])
    sg = -1 if sc["mode"] == "kept" else 1
    return all(abs(m["k"][i][j] - sg * m["d"][i][j]) <= slack * UNIT * top for i in range(n) for j in range(n)
               if i + 1 not in sc["fixed"] and j + 1 not in sc["fixed"] and (sc["mode"] != "block" or i // 3 == j // 3))


def run_tangent(sc):
    h = 3e-5
    r, got = drive(sc, h)
    ev = [{"ev": "body", "b": dict(n=len(sc["pts"]), fam=sc["fam"], fixed=sc["fixed"], corners=sc["corners"])}]
    if got is None:
        return ev + [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
    own, mats = got
    other = None
    for i, m in enumerate(mats):
        top = max([abs(x) for r in m["d"] for x in r] + [1e-300])
        if sc["corners"] and not agree(sc, m):
            other = other or drive(sc, h * 0.31)[1] or [0, []]
            if len(other[1]) == len(mats):
                e = max(abs(a - b) for x, y in zip(m["d"], other[1][i]["d"]) for a, b in zip(x, y))
                if e > 1e-6 * top:
                    ev.append({"ev": "corner"})
                    continue
        u = UNIT * top
        # differences of forces carry round-off: values below it are zero
        ev.append({"ev": "tangent", "kind": sc["mode"], "own": own, "rows": m["rows"], "k": [[quant(x, u) for x in r] for r in m["k"]],
                   "d": [[int(round(x / u)) for x in r] for r in m["d"]]})
    return ev
