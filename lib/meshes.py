"""Random and enumerated mesh scenarios, and the recorder of families."""
import math
from decks import *
import vlib
from vlib import simulate, qz, ToolError


def cloud(rng, n, box):
    s = set()
    while len(s) < n:
        s.add(tuple(rng.randint(0, b) for b in box))
    pts = list(s)
    rng.shuffle(pts)
    return [list(p) for p in pts]


def boxes(rng, n):
    for _ in range(50):
        b = rng.choice([(12, 0, 0), (0, 14, 0), (0, 0, 9), (7, 5, 0), (0, 6, 6), (5, 0, 7), (4, 4, 4), (9, 3, 2), (20, 2, 1), (3, 3, 3)])
        if (b[0] + 1) * (b[1] + 1) * (b[2] + 1) >= n + 2:
            return b
    return (9, 9, 9)


def shells(pts):
    """Squared distances that occur, to be able to put a horizon exactly on one."""
    return sorted({sum((a - b) ** 2 for a, b in zip(p, q)) for p in pts for q in pts if p is not q})


def pick_horizon(rng, pts):
    ties = [math.isqrt(s) for s in shells(pts) if math.isqrt(s) ** 2 == s]
    if ties and rng.random() < 0.5:
        return rng.choice(ties)
    return rng.choice([1, 2, 3, 4, 5, 7, 10])


def pick_entries(rng, ids, pts, functions=True):
    """A Blocks section that covers the given block numbers."""
    ids = list(ids)
    rng.shuffle(ids)
    groups = []
    while ids:
        k = rng.randint(1, len(ids))
        groups.append(ids[:k])
        ids = ids[k:]
    out = []
    for g in groups:
        if functions and rng.random() < 0.35:
            k = rng.choice(["x", "y", "z"])
            kind = rng.random()
            if kind < 0.5:
                hor = ["if", rng.choice(["lt", "ge"]), [k], ["num", rng.randint(1, 6)], ["num", rng.randint(1, 6)], ["num", rng.randint(1, 6)]]
            else:
                hor = ["add", ["num", rng.randint(1, 3)], [k]]
        else:
            hor = ["num", pick_horizon(rng, pts)]
        out.append({"names": g, "hor": hor})
    if len(out) > 1 and rng.random() < 0.5:
        out[rng.randrange(len(out))]["names"] = [0]
    elif len(out) == 1 and rng.random() < 0.3:
        out[0]["names"] = [0]
    rng.shuffle(out)
    return out


def horizon(m, p):
    """Horizon of point p (0-based) - used only to keep scenarios within what the material models support."""
    b = m["blk"][p]
    en = [e for e in m["entries"] if b in e["names"]] or [e for e in m["entries"] if 0 in e["names"]]
    return ev(en[0]["hor"], m["pts"][p])


def ev(e, pos, t=0):
    o = e[0]
    if o == "num":
        return e[1]
    if o in "xyz":
        return pos["xyz".index(o)]
    if o == "t":
        return t
    if o == "add":
        return ev(e[1], pos, t) + ev(e[2], pos, t)
    if o == "sub":
        return ev(e[1], pos, t) - ev(e[2], pos, t)
    if o == "mul":
        return e[1] * ev(e[2], pos, t)
    if o in ("if", "when"):
        a, b = ev(e[2], pos, t), ev(e[3], pos, t)
        return ev(e[4], pos, t) if {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[e[1]] else \
            (ev(e[5], pos, t) if o == "if" else 0)
    raise ValueError(e)


def supported(m):
    """Function horizons need correspondence materials, which need families that span space."""
    import numpy as np
    for p in range(len(m["pts"])):
        b = m["blk"][p]
        en = [e for e in m["entries"] if b in e["names"]] or [e for e in m["entries"] if 0 in e["names"]]
        h = ev(en[0]["hor"], m["pts"][p])
        if h <= 0:
            return False
        if en[0]["hor"][0] != "num":
            d = np.array([[a - b for a, b in zip(q, m["pts"][p])] for q in m["pts"]])
            d = d[(d ** 2).sum(1) <= h * h]
            if np.linalg.matrix_rank(d) < 3:
                return False
    return True


def family_deck(m, unit):
    disc = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    if m.get("omit_given"):
        disc["Omit Bonds Between Blocks"] = "All" if m["omit"] else "None"
    if m["filters"]:
        disc["Bond Filters"] = filters(m["filters"], unit)
    return {"Discretization": disc, "Materials": {"M": ELASTIC, "V": CORRESPONDENCE}, "Blocks": block_entries(m["entries"], unit),
            "Solver": verlet(1.0, 0.5),
            "Output": output(["Number_Of_Neighbors", "Neighborhood_Volume", "Volume"])}


def decode(x, own, n):
    """Members of the family from a sum of distinct powers of two (volumes 2^(p-1)); includes the own volume."""
    if not (0 <= x < 2.0 ** 53) or x != int(x):
        return [-1]
    k = int(x) - (1 << (own - 1))
    if k < 0 or k >> n:
        return [-1]
    return [q + 1 for q in range(n) if k >> q & 1]


def run_families(sc):
    """Runs one mesh scenario on the real program; returns the recorded events."""
    m, unit, np_ = sc["mesh"], sc["unit"], sc["np"]
    n = len(m["pts"])
    prints = "w" in m
    vol = [float(w) for w in m["w"]] if prints else [2.0 ** i for i in range(n)]
    deck = family_deck(m, unit)
    r = simulate(deck, {"mesh.txt": text_mesh(m["pts"], m["blk"], vol, unit)}, np_)
    ev0 = {"ev": "mesh", "mesh": m}
    if vlib.crashed_by_tool(r):
        raise ToolError("run failed: " + r.log[-800:])
    o = r.files.get("out")
    if r.rc != 0 or o is None or not o["time"]:
        return [ev0, {"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
    ids = sorted(o["pts"])
    ok = not o["dup"] and not o["id_mismatch"] and ids == list(range(1, n + 1)) and ids == sorted(o["elem_block"])
    if not ok:
        return [ev0, {"ev": "badids", "ids": ids, "dup": o["dup"]}]
    cnt = [qz(o["elem"]["Number_Of_Neighbors"][i][0], 1.0) for i in ids]
    nv = [o["elem"]["Neighborhood_Volume"][i][0] for i in ids]
    pos = [[qz(c, unit) for c in o["pts"][i]] for i in ids]
    blk = [int(o["elem_block"][i].split("_")[-1]) if o["elem_block"][i].startswith("block_") else -1 for i in ids]
    if prints:
        return [ev0, {"ev": "prints", "ids": ids, "count": cnt, "sum": [qz(x, 1.0) for x in nv]}]
    return [ev0, {"ev": "families", "ids": ids, "pos": pos, "blk": blk, "count": cnt,
                  "fam": [decode(x, i, n) for i, x in zip(ids, nv)]}]
