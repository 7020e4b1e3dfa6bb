"""C06: boundary and initial conditions act on exactly the named points and times."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def motion(rng, sc, d):
    """A prescribed motion: of time, of position, or of both."""
    k = rng.random()
    if k < 0.5:
        return texpr(rng, sc["decimal"], -2, 2, 12)
    if k < 0.75:
        return xexpr(rng, d, -2, 2, 12)
    return ["add", ["mul", rng.choice([-1, 1, 2]), ["t"]], ["mul", rng.choice([0, 0, 12]), [rng.choice("xyz")]]]


def make(rng):
    sc = base(rng, rng.choice([1, 2, 4, 6, 8, 12, 16]), rng.choice([1, 1, 2, 3]), dens=(1, 1, 2, 4))
    d = sc["d"]
    n = len(d["pts"])
    sc["thermal"] = rng.random() < 0.4
    kinds = ["pdisp", "pdisp", "idisp", "ivel", "bforce"]
    if sc["thermal"]:
        kinds += ["ptemp", "ptemp"]
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(kinds)
        c = dict(kind=k, set=subset(rng, n), comp=rng.randint(1, 3))
        if k in ("ptemp", "itemp"):
            c["comp"] = 1
        if k == "pdisp":
            c["expr"] = motion(rng, sc, d)
        elif k == "idisp":
            c["expr"] = rng.choice([["num", 12 * rng.randint(-2, 2)], xexpr(rng, d, -1, 1, 12)])
        elif k == "ivel":
            c["expr"] = xexpr(rng, d, -3, 3)
        elif k == "bforce":
            c["expr"] = texpr(rng, sc["decimal"], -2, 2, 4) if rng.random() < 0.6 else xexpr(rng, d, -2, 2, 4)
        else:
            c["expr"] = texpr(rng, sc["decimal"], -50, 50) if rng.random() < 0.6 else ["add", [rng.choice("xyz")], ["mul", 3, ["t"]]]
        d["conds"].append(c)
    t0 = rng.choice([0, 0, 0, 3, 10]) if not sc["thermal"] else 0
    d["solvers"] = [solver(rng, sc, (2, 14), t0=t0)]
    f = ALLOUT + ["External_Force_Density"] + (["Temperature_Change"] if sc["thermal"] else [])
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=f)]
    return finish(rng, sc)


def run():
    c = Check("C06", assumptions=["prescribed displacements start from the displacement the point has or are constant over the first step",
                                  "internal forces are made negligible"])
    build()
    c.mc("MCSim", "MCSimHeld.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimWhole.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make) for _ in range(n)], run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C06")
