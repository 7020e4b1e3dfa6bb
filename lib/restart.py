"""Interrupted and restarted runs (TrRestart): a sequence of runs and of changes to the restart sets in one directory."""
import copy, os, shutil
import vlib
from vlib import scratch, execute, read_output, yaml, ToolError
from phys import make_phys, collect
from sim import Reject


def thermal(rng, deck, n):
    els = [m for m in deck["Materials"].values() if m["Material Model"] == "Elastic"]
    if len(els) < len(deck["Materials"]):              # other materials keep no temperature
        return False
    for m in els:
        m["Thermal Expansion Coefficient"] = rng.choice([0.001, 0.004])
    bc = deck["Boundary Conditions"]
    if rng.random() < 0.7:
        bc["T0"] = {"Type": "Initial Temperature", "Node Set": rng.choice(["Node Set all", "Node Set some"]), "Value": "value = %d" % rng.choice([2, 5])}
    bc["T1"] = {"Type": "Prescribed Temperature", "Node Set": rng.choice(["Node Set all", "Node Set some"]), "Value": "value = %d + x + 3*t" % rng.choice([0, 1])}
    return True


def make_restart(rng):
    sc = make_phys(rng)
    deck = sc["deck"]
    del deck["Solver"]
    deck["Output"]["Output Frequency"] = 1
    out = deck["Output"]["Output Variables"]
    for f in ("Acceleration", "External_Force_Density", "Kinetic_Energy"):
        if rng.random() < 0.5:
            out[f] = True
    if all(m["Material Model"] == "Elastic" for m in deck["Materials"].values()):
        out["Dilatation"] = True
    if rng.random() < 0.6 and thermal(rng, deck, 0):
        out["Temperature_Change"] = out["Temperature"] = True
    dt = rng.choice([2.0 ** -4, 2.0 ** -5, 3.0 * 2.0 ** -6, 2.0 ** -10, 37 * 2.0 ** -10])
    cuts, t = [0], 0
    for _ in range(rng.choice([2, 2, 3, 4])):
        t += rng.choice([1, 1, 2, 3, 5, 8])
        cuts.append(t)
    last = cuts[-1]
    ops = []
    for a, b in zip(cuts, cuts[1:]):
        if a:
            for _ in range(rng.choice([0, 0, 1, 2])):
                wrong = [0] + [x for x in (a - 1, a + 1, last) if x != a and x > 0]
                x = rng.random()
                if x < 0.35:
                    ops.append(["run", rng.choice([w for w in wrong if w != a]), last + 1])
                elif x < 0.8:
                    ops += [["spoil", rng.random()], ["run", rng.choice([a, a, a, 0]), b], ["repair"]]
                elif a != cuts[1]:
                    ops += [["drop"], ["run", cuts[cuts.index(a) - 1], a]]
        ops.append(["run", a, b])
    return dict(deck=deck, files=sc["files"], np=rng.choice([1, 1, 2, 3, 4]), dt=dt, last=last, ops=ops)


def steps(o, dt):
    r = []
    for t in o["time"]:
        k = round(t / dt)
        r.append(int(k) if abs(t / dt - k) < 1e-6 else vlib.BAD)
    return r


def result(o, scales, dt):
    r = collect(o, scales)
    r["steps"] = steps(o, dt)
    del r["times"]
    return r


def part(name):
    if name == "currentTime.txt":
        return "clock"
    return "vectors" if name in ("blockIDs.mat horizon.mat volume.mat density.mat temperature.mat deltaTemperature.mat x.mat u.mat y.mat v.mat a.mat force.mat "
                                 "contactForce.mat externalForce.mat deltaU.mat scratch.mat").split() else "history"


def run_restart(sc):
    scales, evs, dt = {}, [], sc["dt"]

    def one(d, i, restart, t0, t1, slack=0.0):
        deck = copy.deepcopy(sc["deck"])
        deck["Output"]["Output Filename"] = "out%d" % i
        deck["Solver"] = {"Final Time": t1 * dt * (1 + slack), "Verlet": {"Fixed dt": dt}}
        if t0:
            deck["Solver"]["Initial Time"] = t0 * dt
        if restart:
            deck["Restart"] = {"Restart": True}
        with open(os.path.join(d, "deck.yaml"), "w") as f:
            f.write(yaml({"Peridigm": deck}) + "\n")
        r = execute(d, np=sc["np"], timeout=40)
        if vlib.crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        return r, (read_output(d, "out%d" % i, sc["np"]) if r.rc == 0 else None)

    with scratch() as d0, scratch() as d:
        for x in (d0, d):
            for n, t in sc["files"].items():
                with open(os.path.join(x, n), "w") as f:
                    f.write(t)
        r, o = one(d0, 0, False, 0, sc["last"], 1e-12)
        if o is None:
            return [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
        evs.append({"ev": "whole", "np": sc["np"], "last": sc["last"], "r": result(o, scales, dt)})
        hidden = None

        def sets():
            return sorted(x for x in os.listdir(d) if x.startswith("restart-"))
        for i, op in enumerate(sc["ops"]):
            if op[0] == "run":
                r, o = one(d, i + 1, True, op[1], op[2])
                evs.append({"ev": "run", "t0": op[1], "t1": op[2], "ok": r.rc == 0, "ended": not r.timeout, "sets": len(sets()),
                            "r": result(o, scales, dt) if o is not None else {}, "log": "" if r.rc == 0 else r.log[-600:]})
                if r.rc and not sets():
                    break
                continue
            if not sets():
                break
            s = os.path.join(d, sets()[-1])
            if op[0] == "spoil":
                names = sorted(os.listdir(s))
                f = names[int(op[1] * len(names))] if op[1] > 0.15 else "currentTime.txt"
                hidden = (os.path.join(s, f), os.path.join(d, "hidden"))
                os.rename(*hidden)
                evs.append({"ev": "spoil", "file": f, "part": part(f)})
            elif op[0] == "repair":
                os.rename(hidden[1], hidden[0])
                evs.append({"ev": "repair"})
            else:
                shutil.rmtree(s)
                evs.append({"ev": "drop"})
    return evs
