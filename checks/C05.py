"""C05: explicit runs follow velocity Verlet at the requested times."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def make(rng):
    sc = base(rng, rng.choice([1, 2, 4, 6, 8, 12]), rng.choice([1, 1, 2, 3]), dens=(1, 1, 2, 4))
    d = sc["d"]
    n = len(d["pts"])
    for _ in range(rng.randint(1, 4)):
        d["conds"].append(dict(kind="ivel", set=subset(rng, n), comp=rng.randint(1, 3), expr=xexpr(rng, d, -3, 3)))
    for _ in range(rng.randint(0, 2)):
        d["conds"].append(dict(kind="idisp", set=subset(rng, n), comp=rng.randint(1, 3), expr=["num", rng.randint(-3, 3)]))
    for _ in range(rng.randint(0, 4)):
        e = texpr(rng, sc["decimal"], -2, 2, 4) if rng.random() < 0.6 else xexpr(rng, d, -2, 2, 4)
        d["conds"].append(dict(kind="bforce", set=subset(rng, n), comp=rng.randint(1, 3), expr=e))
    t0 = rng.choice([0, 0, 0, 3, 10])
    d["solvers"] = [solver(rng, sc, (0, 14), t0=t0)]
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=ALLOUT + ["External_Force_Density"])]
    return finish(rng, sc)


def run():
    c = Check("C05", assumptions=["internal forces are made negligible by a stiffness of 1e-20; body forces drive the motion",
                                  "values are exact multiples of the grid unit; deviations above 1e-6 units are seen"])
    build()
    c.mc("MCSim", "MCSimFree.cfg", workers=NCPU)
    c.mc("MCSim", "MCSimHeld.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimWhole.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimReset.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make) for _ in range(n)], run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C05")
