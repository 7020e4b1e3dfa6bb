"""C11: output files hold the requested fields at exactly the requested steps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def request(rng, pool, steps):
    f = sorted(set(rng.sample(pool, rng.randint(1, min(len(pool), rng.choice([1, 2, 4, 9]))))))
    rng.shuffle(f)
    first = rng.choice([1, 1, 1, 2, 3, rng.randint(1, steps + 2)])
    last_ = rng.choice([-1, -1, -1, 0, 1, rng.randint(0, steps + 2)])
    return dict(freq=rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 0, steps or 1]), first=first, last=last_, fields=f)


def make(rng):
    sc = base(rng, rng.choice([1, 2, 4, 6, 8, 12]), rng.choice([1, 2, 2, 3, 4]), dens=(1, 1, 2))
    d = sc["d"]
    n = len(d["pts"])
    sc["thermal"] = rng.random() < 0.3
    pool = ["Displacement", "Velocity", "Coordinates", "Model_Coordinates", "External_Force_Density", "Volume", "Number_Of_Neighbors",
            "Neighborhood_Volume", "Element_Id", "Proc_Num"]
    if rng.random() < 0.4:
        d["dmg"] = [["num", rng.choice([31, 63, 127])]]
        for e in d["entries"]:
            e["dmg"] = rng.choice([0, 1, 1])
        if any(e["dmg"] and any(entry_of(d, b) is e for b in d["blk"]) for e in d["entries"]):
            pool.append("Damage")
    if all(spans(d, p) for p in range(n)):
        pool += ["Deformation_Gradient"] * 3
    if rng.random() < 0.3 and len({e["hor"][1] for e in d["entries"]}) == 1:
        r = rng.choice([5, 9, 16])
        d["contact"] = dict(on=True, radius=r, reach=r + rng.choice([0, 3]), freq=rng.choice([1, 2, 3]))
        pool.append("Contact_Force_Density")
    if sc["thermal"]:
        pool += ["Temperature_Change"]
        d["conds"].append(dict(kind="ptemp", set=subset(rng, n), comp=1, expr=["add", ["num", rng.randint(-5, 5)], ["mul", 2, ["t"]]]))
    for _ in range(rng.randint(1, 3)):
        d["conds"].append(dict(kind="ivel", set=subset(rng, n), comp=rng.randint(1, 3), expr=xexpr(rng, d, -3, 3)))
    for _ in range(rng.randint(0, 2)):
        d["conds"].append(dict(kind="bforce", set=subset(rng, n), comp=rng.randint(1, 3), expr=texpr(rng, sc["decimal"], -2, 2, 4)))
    t, total = 0, 0
    for _ in range(rng.choice([1, 1, 1, 2])):
        s = solver(rng, sc, (0, 10), t0=t)
        d["solvers"].append(s)
        t = s["t0"] + (s["tf"] - s["t0"]) // s["m"] * s["m"]
        total += 1 + (s["tf"] - s["t0"]) // s["m"]
    d["outs"] = [request(rng, pool, total) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    return finish(rng, sc)


def tensor(sc):
    return any("Deformation_Gradient" in o["fields"] and o["freq"] > 0 for o in sc["d"]["outs"])


def run():
    c = Check("C11", assumptions=["field values are those of the explicit dynamics specification, so a value under a wrong name, point or step is seen"])
    build()
    c.mc("MCSim", "MCSimFree.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimShared.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 440
    scs = [attempt(c.rng, make, want=None if k % 4 else tensor) for k in range(n)]
    whole = generator("C17")
    scs += [attempt(c.rng, whole, want=lambda sc: all(q["kind"] != "set" for q in sc["d"]["comps"])) for _ in range(n // 8)]          # values of the whole body
    c.conform("TrSim", scs, run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C11")
