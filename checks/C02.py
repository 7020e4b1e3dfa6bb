"""C02: bond filters and omitted inter-block bonds remove exactly the bonds they should."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from meshes import *

AX = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def neg(v):
    return [-x for x in v]


def plane(rng, lo, hi):
    if rng.random() < 0.65:                      # on the grid
        i = rng.randrange(3)
        j = rng.choice([k for k in range(3) if k != i])
        n, ub = AX[i], AX[j]
        k, exact = 1, True
    else:                                        # skew, normal (3,4,0)/5 and permutations
        perm = rng.sample(range(3), 3)
        base_n, base_u = [3, 4, 0], rng.choice([[0, 0, 5], [-4, 3, 0]])
        n = [0, 0, 0]
        ub = [0, 0, 0]
        for a, b in enumerate(perm):
            n[b], ub[b] = base_n[a], base_u[a]
        k, exact = 5, False
    if rng.random() < 0.5:
        n = neg(n)
    if rng.random() < 0.5:
        ub = neg(ub)
    r0 = [rng.randint(l - 1, h + 1) for l, h in zip(lo, hi)]
    ext = lambda: rng.choice([1, 2, 3, 5, 8, 12, 40])
    return dict(kind="plane", n=n, r0=r0, ub=ub, k=k, a=ext(), b=ext(), exact=exact)


def disk(rng, lo, hi):
    if rng.random() < 0.65:
        n, k, exact = rng.choice(AX), 1, True
    else:
        n, k, exact = rng.choice([[3, 4, 0], [0, 3, 4], [4, 0, 3], [3, -4, 0], [0, -3, 4]]), 5, False
    if rng.random() < 0.5:
        n = neg(n)
    c = [rng.randint(l, h) for l, h in zip(lo, hi)]
    return dict(kind="disk", n=n, c=c, k=k, r=rng.choice([1, 2, 3, 5, 7, 30]), exact=exact)


def scenario(rng, k):
    n = rng.choice([4, 8, 12, 18, 27, 36])
    box = boxes(rng, n)
    pts = [[2 * x for x in p] for p in cloud(rng, n, box)]
    if rng.random() < 0.4:
        s = [rng.randint(-8, 4) for _ in range(3)]
        pts = [[a + b for a, b in zip(p, s)] for p in pts]
    lo = [min(p[i] for p in pts) for i in range(3)]
    hi = [max(p[i] for p in pts) for i in range(3)]
    omit = rng.random() < 0.35
    nb = rng.choice([2, 3]) if omit else rng.choice([1, 1, 2])
    pool = rng.sample([1, 2, 3, 4, 6, 9], nb) if rng.random() < 0.6 else list(range(1, nb + 1))
    blk = [rng.choice(pool) for _ in pts]
    for i, b in enumerate(pool):
        if b not in blk:
            blk[i] = b
    ids = sorted(set(blk))
    if rng.random() < 0.6:
        h = 2 * rng.choice([1, 2, 3, 5])
        entries = [dict(names=ids, hor=["num", h])]
    else:
        entries = [dict(e, hor=["num", 2 * rng.choice([1, 2, 3, 5])]) for e in pick_entries(rng, ids, pts, False)]
    fl = []
    for _ in range(rng.choice([0, 1]) if omit else rng.choice([1, 1, 1, 2, 3])):
        fl.append(plane(rng, lo, hi) if rng.random() < 0.65 else disk(rng, lo, hi))
    m = dict(pts=pts, blk=blk, entries=entries, filters=fl, omit=omit, omit_given=omit or rng.random() < 0.2)
    return dict(mesh=m, unit=rng.choice([0.5, 0.5, 0.125, 1.0]), np=rng.choice([1, 1, 2, 3, 4]))


def run():
    c = Check("C02", assumptions=["contacts of a bond with the edge of a filter that is not on the grid are not judged"])
    build()
    c.mc("MCFilter", "MCFilter.cfg", workers=NCPU)
    n = 2000 if THOROUGH else 450
    c.conform("TrMesh", [scenario(c.rng, k) for k in range(n)], run_families)
    return c.finish()


if __name__ == "__main__":
    main(run, "C02")
