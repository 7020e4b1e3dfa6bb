"""C07: a bond breaks exactly when it exceeds the critical stretch and never heals."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def crit(rng, sc):
    odd = lambda: rng.choice([1, 3, 7, 15, 31, 33, 63, 65, 127, 129, 191, 255, 383])
    k = rng.random()
    if k < 0.5:
        return ["num", odd()]
    if k < 0.65:
        return ["add", ["num", odd()], ["mul", rng.choice([2, 4, 8]), ["t"]]]
    th = rng.randint(1, 20)
    c = [["mul", 2, ["t"]], ["num", 2 * th + 1]]
    return ["if", rng.choice(["lt", "gt"])] + c + [["num", odd()], ["num", odd()]]


def make(rng):
    sc = base(rng, rng.choice([2, 3, 4, 6, 8, 12]), rng.choice([1, 2, 2, 3]), horizons=(9, 12, 17, 20))
    d = sc["d"]
    n = len(d["pts"])
    d["dmg"] = [crit(rng, sc) for _ in range(rng.randint(1, 3))]
    for e in d["entries"]:
        e["dmg"] = rng.randint(0 if len(d["entries"]) > 1 else 1, len(d["dmg"]))
    if rng.random() < 0.3:                                            # warmed points stretch without strain
        d["dal"] = [rng.choice([0, 8, 16, 64]) for _ in d["dmg"]]
        sc["thermal"] = rng.random() < 0.5
        for _ in range(rng.randint(1, 2)):
            d["conds"].append(dict(kind="ptemp", set=subset(rng, n), comp=1,
                                   expr=rng.choice([["mul", rng.choice([-1, 1, 2]), ["t"]], texpr(rng, sc["decimal"], -4, 4)])))
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["pdisp", "pdisp", "ivel", "bforce"])
        c = dict(kind=k, set=subset(rng, n), comp=rng.randint(1, 3))
        if k == "pdisp":
            c["expr"] = rng.choice([lambda: texpr(rng, sc["decimal"], -3, 3, 12), lambda: ["mul", rng.choice([-1, 1, 2]), ["t"]],
                                    lambda: ["if", "lt", ["mul", 2, ["t"]], ["num", 2 * rng.randint(1, 20) + 1], ["mul", rng.choice([-1, 1]), ["t"]],
                                             ["num", 0]]])()
        elif k == "ivel":
            c["expr"] = ["num", rng.randint(-2, 2)]
        else:
            c["expr"] = texpr(rng, sc["decimal"], -1, 1, 4)
        d["conds"].append(c)
    d["solvers"] = [solver(rng, sc, (3, 16), t0=rng.choice([0, 0, 0, 5]))]
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=["Displacement"] + (["Damage"] if any(e["dmg"] for e in d["entries"]) else []))]
    if not any(e["dmg"] and any(entry_of(d, b) is e for b in d["blk"]) for e in d["entries"]):
        raise Reject
    return finish(rng, sc)


def breaking(sc):
    return sc["dry"]["broken"][-1] > 0


def warmed(sc):
    """The temperature decides which bonds break."""
    if not any(sc["d"]["dal"]):
        return False
    try:
        return dry(dict(sc["d"], dal=[0] * len(sc["d"]["dal"])))["broken"] != sc["dry"]["broken"]
    except Reject:
        return False


def healed():
    """A bond that the initial displacements over-stretch and the first step releases."""
    d = dict(pts=[[0, 0, 0], [8, 0, 0]], blk=[1, 1], entries=[dict(names=[1], hor=["num", 9], den=1, dmg=1, cw=1)], filters=[], omit=False,
             dmg=[["num", 31]], dal=[0], comps=[], contact=dict(on=False, radius=1, reach=1, freq=1), vol=[1, 1], ranks=1,
             conds=[dict(kind="idisp", set=[2], comp=1, expr=["num", 8]), dict(kind="ivel", set=[2], comp=1, expr=["num", -8])],
             solvers=[dict(t0=0, tf=2, m=1)], outs=[dict(freq=1, first=1, last=-1, fields=["Displacement", "Damage"])])
    return dict(d=d, U=1.0, T=1.0, R=1.0, W=1.0, np=1, decimal=False, style=dict(sets=[0, 0], vals=[1, 1]))


def run():
    c = Check("C07", assumptions=["the motion is driven by boundary conditions, so stretches are known exactly",
                                  "no bond exceeds the critical stretch in the initial configuration (KNOWN_FINDINGS)"])
    build()
    c.mc("MCSim", "MCSimTear.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimForget.cfg", workers=NCPU)
    c.mc("MCSim", "MCSimWarm.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimCold.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make, want=[None, breaking, warmed, breaking, breaking][k % 5]) for k in range(n)], run_sim)
    c.finding("healed-at-first-step", "TrSim", healed(), run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C07")
