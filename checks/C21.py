"""C21: several solvers in one deck run one after another on a continuing state."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *


def make(rng):
    sc = base(rng, rng.choice([2, 3, 4, 6, 8, 12]), rng.choice([1, 1, 2, 3]), dens=(1, 1, 2))
    d = sc["d"]
    n = len(d["pts"])
    fields = ["Displacement", "Velocity", "Coordinates", "External_Force_Density"]
    if rng.random() < 0.5:
        d["dmg"] = [["num", rng.choice([15, 31, 63, 127])]]
        for e in d["entries"]:
            e["dmg"] = 1
        fields.append("Damage")
    if rng.random() < 0.35 and len({e["hor"][1] for e in d["entries"]}) == 1:
        r = rng.choice([5, 9, 16])
        d["contact"] = dict(on=True, radius=r, reach=r + rng.choice([0, 3, 10]), freq=rng.choice([1, 2, 3, 5]))
        fields.append("Contact_Force_Density")
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["pdisp", "ivel", "ivel", "bforce", "bforce"])
        c = dict(kind=k, set=subset(rng, n), comp=rng.randint(1, 3))
        c["expr"] = dict(pdisp=lambda: texpr(rng, sc["decimal"], -2, 2, 12), ivel=lambda: xexpr(rng, d, -2, 2),
                         bforce=lambda: texpr(rng, sc["decimal"], -1, 1, 2))[k]()
        d["conds"].append(c)
    t = rng.choice([0, 0, 2])
    k = rng.choice([2, 2, 3, 4])
    rest = not d["contact"]["on"] and rng.random() < 0.5
    for i in range(k):
        s = solver(rng, sc, (0 if i else 1, 6), t0=t)
        if rest and rng.random() < 0.5:                              # a quasi-static solver between or before explicit ones
            s["kind"], s["m"] = "rest", 4
            s["tf"] = t + 4 * rng.randint(1, 4)
        d["solvers"].append(s)
        t = s["t0"] + (s["tf"] - s["t0"]) // s["m"] * s["m"] + rng.choice([0, 0, 0, 1, 3])
        if rng.random() < 0.1:
            t = 0
    d["outs"] = [dict(freq=1, first=1, last=-1, fields=fields)]
    if rng.random() < 0.5:
        d["outs"].append(dict(freq=rng.choice([2, 3, 4]), first=rng.choice([1, 2, 4]), last=rng.choice([-1, 3, 6]), fields=["Displacement"]))
    return finish(rng, sc)


def stale():
    """A bond breaks in the last step before a quasi-static solver starts."""
    d = dict(pts=[[0, 0, 0], [8, 0, 0]], blk=[1, 1], entries=[dict(names=[1], hor=["num", 9], den=1, dmg=1, cw=1)], filters=[], omit=False,
             dmg=[["num", 31]], dal=[0], comps=[], contact=dict(on=False, radius=1, reach=1, freq=1), vol=[1, 1], ranks=1,
             conds=[dict(kind="ivel", set=[2], comp=1, expr=["num", 4])],
             solvers=[dict(t0=0, tf=1, m=1), dict(t0=1, tf=5, m=4, kind="rest")], outs=[dict(freq=1, first=1, last=-1, fields=["Damage"])])
    return dict(d=d, U=1.0, T=1.0, R=1.0, W=1.0, np=1, decimal=False, style=dict(sets=[0], vals=[1], lists=[False, False]))


def run():
    c = Check("C21", assumptions=["the sequence is observed through kinematics, damage, contact and output numbering",
                                  "prescribed displacements continue from the displacement at the start of each solver",
                                  "quasi-static solvers among explicit ones accept any state, so that their motion is the prescribed one"])
    build()
    c.mc("MCSim", "MCSimFree.cfg", workers=NCPU)
    c.refuted("MCSim", "MCSimReset.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 480
    c.conform("TrSim", [attempt(c.rng, make) for _ in range(n)], run_sim)
    c.finding("stale-at-quasi-static-start", "TrSim", stale(), run_sim)
    return c.finish()


if __name__ == "__main__":
    main(run, "C21")
