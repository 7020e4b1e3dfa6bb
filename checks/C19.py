"""C19: every block uses its own material, damage model and horizon."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def make(rng):
    sc = base(rng, rng.choice([4, 6, 8, 12, 16]), rng.choice([2, 2, 3, 4, 5]), horizons=(9, 12, 17, 20, 25), dens=(1, 2, 4, 8))
    d = sc["d"]
    n = len(d["pts"])
    if len(d["entries"]) < 2:
        raise Reject
    d["dmg"] = [["num", v] for v in rng.sample([15, 31, 63, 127, 191], rng.randint(1, 3))]
    if rng.random() < 0.3:
        d["dmg"][0] = ["add", ["num", 15], ["mul", 4, ["t"]]]
    for e in d["entries"]:
        e["dmg"] = rng.choice([0, rng.randint(1, len(d["dmg"])), rng.randint(1, len(d["dmg"]))])
    if not any(e["dmg"] and any(entry_of(d, b) is e for b in d["blk"]) for e in d["entries"]):
        raise Reject
    for _ in range(rng.randint(1, 3)):
        d["conds"].append(dict(kind="bforce", set=rng.choice([subset(rng, n), list(range(1, n + 1))]), comp=rng.randint(1, 3),
                               expr=["num", 8 * rng.choice([-1, 1])]))
    for _ in range(rng.randint(0, 2)):
        d["conds"].append(dict(kind="pdisp", set=subset(rng, n), comp=rng.randint(1, 3), expr=["mul", rng.choice([-1, 1, 2]), ["t"]]))
    d["solvers"] = [solver(rng, sc, (2, 6))]
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=["Displacement", "Velocity", "Damage", "Number_Of_Neighbors", "Neighborhood_Volume"])]
    sc["style"]["matorder"] = rng.random() < 0.5
    rng.shuffle(d["entries"])
    for e in d["entries"]:
        rng.shuffle(e["names"])
    return finish(rng, sc)


def run():
    c = Check("C19", assumptions=["density is observed through the motion under body forces, the damage model through the damage, the horizon through the families",
                                  "moduli are observed by C09 and C20"])
    build()
    c.mc("MCSim", "MCSimTear.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimForget.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make) for _ in range(n)], run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C19")
