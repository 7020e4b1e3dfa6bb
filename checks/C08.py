"""C08: contact acts exactly between unbonded points closer than the contact radius."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def make(rng):
    mixed = rng.random() < 0.3
    sc = base(rng, rng.choice([2, 3, 4, 6, 8, 10, 14]), rng.choice([1, 2, 2, 3]), horizons=(9, 18) if mixed else (rng.choice([1, 5, 9, 12]),))
    d = sc["d"]
    n = len(d["pts"])
    h0 = min(e["hor"][1] for e in d["entries"])
    for e in d["entries"]:
        e["cw"] = 1
    if len({e["hor"][1] for e in d["entries"]}) > 1:
        for e in d["entries"]:
            e["cw"] = 32 if e["hor"][1] == h0 else 1
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["pdisp", "pdisp", "ivel", "idisp"])
        s = subset(rng, n)
        if rng.random() < 0.5:
            b = rng.choice(d["blk"])
            s = [p + 1 for p in range(n) if d["blk"][p] == b]
        c = dict(kind=k, set=s, comp=rng.randint(1, 3))
        c["expr"] = texpr(rng, sc["decimal"], -2, 2, 12) if k == "pdisp" else ["num", rng.randint(-3, 3)]
        d["conds"].append(c)
    radius = rng.choice([3, 5, 8, 9, 12, 16, 20])
    d["contact"] = dict(on=True, radius=radius, reach=max(1, radius + rng.choice([-4, -1, 0, 0, 1, 3, 8, 20])), freq=rng.choice([1, 1, 2, 3, 5, 7]))
    if rng.random() < 0.2:
        d["dmg"] = [["num", rng.choice([31, 63, 127])]]
        for e in d["entries"]:
            e["dmg"] = 1
    d["solvers"] = [solver(rng, sc, (3, 14))]
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=["Displacement", "Contact_Force_Density", "Force_Density"])]
    return finish(rng, sc)


def touching(sc):
    """At least one pair comes closer than the contact radius."""
    return sc["dry"]["touch"]


def run():
    c = Check("C08", assumptions=["the contact stiffness is too small to change the motion, so positions are known exactly",
                                  "force magnitudes are compared to about two percent of the contact radius"])
    build()
    c.mc("MCSim", "MCSimTouch.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimOneway.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimStale.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make, want=touching if k % 6 else None) for k in range(n)], run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C08")
