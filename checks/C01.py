"""C01: neighbor lists are exactly the points within the horizon, on any number of ranks."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from meshes import *


def scenario(rng, k):
    while True:
        sc = candidate(rng, k % 4 == 0)
        if supported(sc["mesh"]) and (k % 4 or any(e["hor"][0] != "num" for e in sc["mesh"]["entries"])):
            return sc


def candidate(rng, fn):
    big = rng.random() < 0.12
    n = rng.choice([1, 2, 3, 4, 6, 9, 12, 16, 20, 26, 40]) if not big else rng.randint(60, 120)
    box = boxes(rng, n) if n > 3 else rng.choice([(6, 0, 0), (3, 3, 3), (2, 5, 1)])
    if big:
        fn = False
        box = rng.choice([(9, 9, 3), (5, 6, 5), (40, 3, 2), (12, 12, 0)])
    if fn:
        n, box = rng.choice([12, 18, 24, 30, 40]), rng.choice([(3, 2, 3), (4, 4, 2), (3, 3, 3), (6, 2, 3)])
        n = min(n, (box[0] + 1) * (box[1] + 1) * (box[2] + 1) - 2)
    pts = cloud(rng, n, box)
    if rng.random() < 0.3:                       # shifted away from the origin
        s = [rng.randint(-9, 9) for _ in range(3)]
        pts = [[a + b for a, b in zip(p, s)] for p in pts]
    nb = rng.choice([1, 1, 2, 3])
    pool = rng.sample([1, 2, 3, 4, 7, 12], nb) if rng.random() < 0.4 else list(range(1, nb + 1))
    mode = rng.random()
    if mode < 0.5:
        blk = [rng.choice(pool) for _ in pts]
    else:
        ax = rng.randrange(3)
        vals = sorted({p[ax] for p in pts})
        blk = [pool[min(len(pool) - 1, vals.index(p[ax]) * len(pool) // len(vals))] for p in pts]
    for i, b in enumerate(pool):
        if b not in blk:
            blk[i % n] = b
    ids = sorted(set(blk))
    entries = pick_entries(rng, ids, pts, fn)
    lo = {c: min(p[i] for p in pts) for i, c in enumerate("xyz")}
    for en in entries:                           # horizons have to be positive everywhere
        if en["hor"][0] == "add" and lo[en["hor"][2][0]] < 0:
            en["hor"][1] = ["num", 1 - lo[en["hor"][2][0]]]
    m = dict(pts=pts, blk=blk, entries=entries, filters=[], omit=False)
    if big:
        m["w"] = [rng.randint(1, 1 << 20) for _ in pts]
    np_ = rng.choice([1, 2, 2, 3, 3, 4, 4])
    if n < 3:
        np_ = rng.choice([1, 1, 2])
    return dict(mesh=m, unit=rng.choice([1.0, 0.5, 0.125, 2.0, 8193 / 8192.0, 8191 / 65536.0]), np=np_)


def run():
    c = Check("C01", assumptions=["distances are compared exactly: coordinates and horizons are dyadic",
                                  "families are observed through Number_Of_Neighbors and Neighborhood_Volume"])
    build()
    c.mc("MCGhost", "MCGhost.cfg", workers=NCPU)
    c.refuted("MCGhost", "MCGhostOwn.cfg", workers=NCPU)
    c.refuted("MCGhost", "MCGhostOpen.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 330
    c.conform("TrMesh", [scenario(c.rng, k) for k in range(n)], run_families)
    return c.finish()


if __name__ == "__main__":
    main(run, "C01")
