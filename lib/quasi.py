"""Quasi-static runs (TrQuasi)."""
import copy, math
import vlib
from vlib import simulate, qz, ToolError, BAD, num
from phys import grid_points, material
from sim import Reject, attempt

TICK = 2.0 ** -12
DU = 2.0 ** -21
FIELDS = ["Displacement", "Force_Density", "External_Force_Density", "Volume"]


def body(rng, kinds):
    dims, pts = grid_points(rng, False)
    n = len(pts)
    ax = max(range(3), key=lambda a: dims[a])
    order = sorted(range(n), key=lambda i: pts[i][ax])
    lo = [i for i in range(n) if pts[i][ax] < 0.5]
    hi = [i for i in range(n) if pts[i][ax] > dims[ax] - 1.5]
    nb = rng.choice([1, 1, 2, 3])
    ids = sorted(rng.sample([1, 2, 3, 5, 8], nb))
    blk = [ids[min(nb - 1, int(nb * max(0.0, p[ax] + 0.2) / dims[ax]))] for p in pts]
    ids = sorted(set(blk))
    h = rng.choice([1.83, 2.13])
    mats, blocks = {}, {}
    for i, b in enumerate(ids):
        mats["M%d" % i] = material(rng, rng.choice(kinds))
        if mats["M%d" % i].get("Yield Stress"):
            mats["M%d" % i]["Yield Stress"] = 0.004
        blocks["B%d" % i] = {"Block Names": "block_%d" % b, "Material": "M%d" % i, "Horizon": h if rng.random() < 0.7 else 2.49}
    mesh = "".join("%r %r %r %d %r\n" % (p[0], p[1], p[2], b, 1.0) for p, b in zip(pts, blk))
    deck = {"Discretization": {"Type": "Text File", "Input Mesh File": "mesh.txt"}, "Materials": mats, "Blocks": blocks}
    return dict(deck=deck, pts=pts, lo=lo, hi=hi, ax=ax, n=n, files={"mesh.txt": mesh}, np=rng.choice([1, 1, 2, 3, 4]))


def value(a, prof):
    c = a * DU / TICK
    if prof["peak"] < 0:
        return "%r*t" % c
    T = prof["peak"] * TICK
    return "if(t < %r){value = %r*t;} else{value = %r*(%r - t);}" % (T, c, c, 2 * T)


def finish(rng, m, stages, prof, thresh=-1, freq=1, mayfail=False, solver=None, amps=(1, 2, 3)):
    deck, ax = m["deck"], m["ax"]
    bc = {"Node Set lo": " ".join(str(i + 1) for i in m["lo"]), "Node Set hi": " ".join(str(i + 1) for i in m["hi"])}
    presc = {}
    a = rng.choice(amps) * rng.choice([-1, 1])
    for c in range(3):
        bc["L%d" % c] = {"Type": "Prescribed Displacement", "Node Set": "Node Set lo", "Coordinate": "xyz"[c], "Value": "0.0"}
        presc.update({(i, c): 0 for i in m["lo"]})
        if c == ax:
            bc["H%d" % c] = {"Type": "Prescribed Displacement", "Node Set": "Node Set hi", "Coordinate": "xyz"[c], "Value": value(a, prof)}
            presc.update({(i, c): a for i in m["hi"]})
        elif rng.random() < 0.5:
            b = rng.choice([0, 1, -1])
            bc["H%d" % c] = {"Type": "Prescribed Displacement", "Node Set": "Node Set hi", "Coordinate": "xyz"[c], "Value": value(b, prof)}
            presc.update({(i, c): b for i in m["hi"]})
    if rng.random() < 0.4 and thresh < 0:
        mid = [i for i in range(m["n"]) if i not in m["lo"] and i not in m["hi"]]
        if mid:
            bc["Node Set mid"] = " ".join(str(i + 1) for i in rng.sample(mid, rng.randint(1, len(mid))))
            bc["F"] = {"Type": "Body Force", "Node Set": "Node Set mid", "Coordinate": rng.choice("xyz"), "Value": "value = %r*t" % rng.choice([0.0003, -0.0005])}
    deck["Boundary Conditions"] = bc
    deck["Output"] = {"Output Filename": "out", "Output Frequency": freq, "Output Variables": {f: True for f in FIELDS}}
    d = dict(stages=stages, freq=freq, thresh=thresh, prof=prof, mayfail=mayfail, presc=[presc[k] for k in sorted(presc)])
    m.update(d=d, dofs=[list(k) for k in sorted(presc)], solver=solver)
    return m


def stage(times, adaptive=False, one=0, all=0, regrid=False, slower=False):
    return dict(times=times, adaptive=adaptive, one=one, all=all, regrid=regrid, slower=slower)


def times(rng, n, t0=0, unit=1024, even=None):
    even = rng.random() < 0.4 if even is None else even
    t = [t0]
    k = rng.choice([1, 2, 3])
    for _ in range(n):
        t.append(t[-1] + unit * (k if even else rng.choice([1, 1, 2, 3])))
    return t


def profile(rng, last):
    return dict(peak=rng.choice([-1, -1, last // 2 + rng.choice([0, 16, 7])]))


def ladder(rng):
    """No iterations are allowed, so that an attempt is accepted exactly when the load is below a threshold."""
    m = body(rng, ["Elastic", "Elastic", "Elastic Bond Based"])
    ts = times(rng, rng.choice([1, 2, 3, 4]))
    prof = profile(rng, ts[-1])
    top = max(abs(t if prof["peak"] < 0 or t < prof["peak"] else 2 * prof["peak"] - t) for t in range(ts[-1] + 1))
    adaptive = rng.random() < 0.8
    st = stage(ts)
    if adaptive:
        one = rng.randint(0, 4)
        st = stage(ts, True, one, rng.randint(one, 6), rng.random() < 0.4, rng.random() < 0.3)
    thresh = rng.choice([top + 1, rng.randint(1, top + 1), rng.randint(max(1, top // 2), top + 1)])
    return finish(rng, m, [st], prof, thresh=thresh, freq=rng.choice([1, 1, 2, 3]))


def solve(rng):
    """Runs that converge."""
    nox = rng.random() < 0.3
    m = body(rng, ["Elastic"] if nox else ["Elastic", "Elastic", "Elastic Bond Based", "Elastic Correspondence", "Elastic Plastic"])
    stages, t0 = [], 0
    for _ in range(rng.choice([1, 2])):
        ts = times(rng, rng.choice([1, 2, 3, 4]), t0, even=True if stages and rng.random() < 0.6 else None)
        stages.append(stage(ts))
        t0 = ts[-1]
    sv = dict(kind="nox" if nox else "qs", tol=rng.choice([1e-9, 1e-8, 1e-7]), iters=40, rel=rng.random() < 0.35, linear=rng.random() < 0.3,
              predict=rng.random() < 0.5)
    sv["rel"] = sv["rel"] and all(x["Material Model"] in PATHLESS for x in m["deck"]["Materials"].values())
    if sv["rel"]:
        sv["tol"] = rng.choice([1e-6, 1e-5])
    return finish(rng, m, stages, dict(peak=-1) if sv["rel"] else profile(rng, stages[0]["times"][-1]), solver=sv)


def strain(rng):
    """Few iterations and a tight tolerance: steps fail and are halved."""
    m = body(rng, ["Elastic", "Elastic", "Elastic Bond Based"])
    ts = times(rng, rng.choice([1, 2, 3]))
    one = rng.randint(0, 5)
    st = stage(ts, True, one, rng.choice([rng.randint(one, 9), 9]), rng.random() < 0.4) if rng.random() < 0.85 else stage(ts)
    sv = dict(kind="qs", tol=10 ** rng.uniform(-10, -4.5), iters=rng.choice([1, 1, 2]), rel=False, linear=rng.random() < 0.3, predict=False)
    if rng.random() < 0.75:                              # the first step fails, a part of it does not
        sv["cal"], sv["iters"] = rng.choice([0.8, 0.6, 0.35, 0.2, 0.1]), 1
    return finish(rng, m, [st], profile(rng, ts[-1]), mayfail=True, solver=sv, amps=(4, 9, 20))


def norm(v):
    return math.sqrt(sum(x * x for x in v)) + 20 * max([abs(x) for x in v] + [0.0])


def free(m):
    pd = {tuple(k) for k in m["dofs"]}
    return [(i, c) for i in range(m["n"]) for c in range(3) if (i, c) not in pd]


def run_deck(m, stages, sv, freq=None):
    deck = copy.deepcopy(m["deck"])
    for i, q in enumerate(stages):
        ts = q["times"]
        tolkey = "Relative Tolerance" if sv["rel"] else "Absolute Tolerance"
        p = {tolkey: sv["tol"]}
        even = len({b - a for a, b in zip(ts, ts[1:])}) == 1
        if even and (ts[-1] // 1024) % 2:
            p["Number of Load Steps"] = len(ts) - 1
        else:
            p["Time Steps"] = " ".join(num(t * TICK) for t in ts)
        s = {"Initial Time": ts[0] * TICK, "Final Time": ts[-1] * TICK}
        if sv["kind"] == "nox":
            p["Max Solver Iterations"] = sv["iters"]
            p["Direction"] = {"Method": "Newton"}
            p["Nonlinear Solver"] = "Line Search Based"
            if i and sv.get("predict"):
                s["Initialize Predictor From Previous Solver"] = True
            s["NOXQuasiStatic"] = p
        else:
            p["Maximum Solver Iterations"] = sv["iters"]
            if sv.get("linear"):
                p["Belos Linear Solver"] = "BlockGMRES"
            if q["adaptive"]:
                p["Adaptive Load-Stepping"] = {"Maximum load step reductions in one step": q["one"], "Maximum total load step reductions": q["all"]}
                if q["regrid"]:
                    p["Adaptive Load-Stepping"]["Reduce all remaining load steps"] = True
                if q["slower"]:
                    p["Adaptive Load-Stepping"]["Adaptive output frequency"] = True
            if i and sv.get("predict"):
                s["Initialize Predictor From Previous Solver"] = True
            s["QuasiStatic"] = p
        deck["Solver%d" % (i + 1) if len(stages) > 1 else "Solver"] = s
    return deck


def get(o, f, i, c, k):
    return o["nodal"][f + "XYZ"[c]][i + 1][k]


def residual(m, o, k, forces=None):
    out = []
    for i, c in free(m):
        f = forces[i, c] if forces else get(o, "Force_Density", i, c, k)
        out.append((f + get(o, "External_Force_Density", i, c, k)) * m["vol"][i])
    return out


def probe(m, u):
    """Internal force density at given displacements, from the first frame of an explicit run."""
    deck = copy.deepcopy(m["deck"])
    bc = {}
    for i in range(m["n"]):
        bc["Node Set p%d" % i] = str(i + 1)
        for c in range(3):
            if u[i, c]:
                bc["U%d%d" % (i, c)] = {"Type": "Initial Displacement", "Node Set": "Node Set p%d" % i, "Coordinate": "xyz"[c],
                                        "Value": num(u[i, c]) if u[i, c] > 0 else "0.0 - %s" % num(-u[i, c])}
    deck["Boundary Conditions"] = bc
    deck["Output"]["Output Frequency"] = 1
    deck["Output"]["Output Variables"] = {"Force_Density": True, "Displacement": True}
    deck["Solver"] = {"Final Time": 1e-9, "Verlet": {"Fixed dt": 1e-9}}
    r = simulate(deck, m["files"], 1)
    o = r.files.get("out")
    if r.rc or o is None:
        raise ToolError("probe failed " + r.log[-600:])
    return {(i, c): get(o, "Force_Density", i, c, 0) for i in range(m["n"]) for c in range(3)}


def tenths(v, tol):
    return [int(round(max(-1000, min(1000, 10 * x / tol)))) if x == x else 1000 for x in v]


PATHLESS = ("Elastic", "Elastic Bond Based")


def run_quasi(m):
    m = dict(m)
    d = m["d"]
    m["vol"] = [1.0] * m["n"]
    sv = m["solver"]
    if d["thresh"] >= 0:
        # the tolerance that puts the threshold where the scenario wants it: half a tick of load above thresh
        u = {(i, c): 0.0 for i in range(m["n"]) for c in range(3)}
        for (i, c), a in zip(m["dofs"], d["presc"]):
            u[i, c] = a * (d["thresh"] + 0.5) * DU
        f = probe(m, u)
        sv = dict(kind="qs", tol=norm([f[k] * m["vol"][k[0]] for k in free(m)]) / 100, iters=0, rel=False)
    elif "cal" in sv:
        sv = dict(sv)
        t1 = d["stages"][0]["times"][1]
        load = t1 if d["prof"]["peak"] < 0 or t1 < d["prof"]["peak"] else 2 * d["prof"]["peak"] - t1
        u = {(i, c): 0.0 for i in range(m["n"]) for c in range(3)}
        for (i, c), a in zip(m["dofs"], d["presc"]):
            u[i, c] = a * load * DU
        f = probe(m, u)
        r0 = norm([f[k] * m["vol"][k[0]] for k in free(m)])
        # one iteration is made and its result accepted: this is what is left after it
        r = simulate(run_deck(m, [stage(d["stages"][0]["times"][:2])], dict(sv, tol=max(r0 / 50, 1e-12))), m["files"], 1)
        o = r.files.get("out")
        if o is not None and len(o["time"]) == 2 and r0:
            sv["tol"] = max(norm(residual(m, o, 1)) * sv["cal"] / 100, 1e-13)
    deck = run_deck(m, d["stages"], sv)
    with vlib.scratch() as w:
        import os
        for n, t in m["files"].items():
            with open(os.path.join(w, n), "w") as fh:
                fh.write(t)
        with open(os.path.join(w, "deck.yaml"), "w") as fh:
            fh.write(vlib.yaml({"Peridigm": deck}) + "\n")
        r = vlib.execute(w, np=m["np"], timeout=60)
        if vlib.crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        o = vlib.read_output(w, "out", m["np"])           # what was written before a failure counts
    evs = [{"ev": "deck", "d": d, "np": m["np"]}]
    if o is not None:
        pathless = all(x["Material Model"] in PATHLESS for x in m["deck"]["Materials"].values())
        starts = {q["times"][0] for q in d["stages"]}
        tol = sv["tol"]
        seen = set()
        for k, t in enumerate(o["time"]):
            tk = qz(t, TICK)
            first = tk in starts and (k == 0 or tk in seen)
            seen.add(tk)
            e = {"ev": "frame", "t": tk, "solved": not first,
                 "presc": [qz(get(o, "Displacement", i, c, k), DU, 1e-5) for i, c in m["dofs"]], "resid": [], "probe": []}
            if not first:
                u = {(i, c): get(o, "Displacement", i, c, k) for i in range(m["n"]) for c in range(3)}
                if sv["rel"]:
                    v = {(i, c): get(o, "Displacement", i, c, k - 1) for i in range(m["n"]) for c in range(3)}
                    v.update({(i, c): u[i, c] for i, c in m["dofs"]})
                    f0 = probe(m, v)
                    tol = sv["tol"] * math.sqrt(sum((f0[i, c] * m["vol"][i]) ** 2 for i, c in m["dofs"]))
                e["resid"] = tenths(residual(m, o, k), tol)
                e["probe"] = tenths(residual(m, o, k, probe(m, u)), tol) if pathless else []
            evs.append(e)
    evs.append({"ev": "end", "ok": r.rc == 0, "ended": not r.timeout, "log": r.log[-1200:] if r.rc else ""})
    return evs
