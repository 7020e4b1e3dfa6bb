"""C20: the stable time step is the smallest bond-stability estimate over all points."""
import math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from meshes import *


def make(rng, fn):
    while True:
        if fn:
            n, box = rng.choice([12, 18, 24, 30]), rng.choice([(3, 2, 3), (4, 4, 2), (3, 3, 3), (6, 2, 3)])
            n = min(n, (box[0] + 1) * (box[1] + 1) * (box[2] + 1) - 2)
        else:
            n = rng.choice([1, 2, 3, 4, 6, 9, 12, 16, 24])
            box = boxes(rng, n) if n > 3 else rng.choice([(6, 0, 0), (3, 3, 3), (2, 5, 1)])
        pts = cloud(rng, n, box)
        nb = rng.choice([1, 2, 3])
        pool = rng.sample([1, 2, 3, 4, 7, 12], nb)
        blk = [rng.choice(pool) for _ in pts]
        if rng.random() < 0.5:
            ax = rng.randrange(3)
            vals = sorted({p[ax] for p in pts})
            blk = [pool[min(nb - 1, vals.index(p[ax]) * nb // len(vals))] for p in pts]
        entries = pick_entries(rng, sorted(set(blk)), pts, fn)
        for e in entries:
            if e["hor"][0] == "num":
                e["hor"][1] = rng.choice([1, 1, 2, 2, 3, 4, 5])
            e["k"], e["den"] = rng.choice([1, 1, 2, 3, 5, 8]), rng.choice([1, 2, 3, 5, 8])
        m = dict(pts=pts, blk=blk, entries=entries, filters=[], omit=rng.random() < 0.25,
                 vol=[rng.randint(1, 4) for _ in pts])
        if not supported(m):
            continue
        fam = [[q for q in range(n) if q != p and math.dist(pts[p], pts[q]) <= horizon(m, p) and (not m["omit"] or blk[p] == blk[q])]
               for p in range(n)]
        if max(map(len, fam)) > 40 or fn and m["omit"]:
            continue
        best = 1e300
        for p in range(n):
            if fam[p]:
                e = ([e for e in entries if blk[p] in e["names"]] or [e for e in entries if 0 in e["names"]])[0]
                best = min(best, 2 * e["den"] * horizon(m, p) ** 4 / (e["k"] * sum(m["vol"][q] / math.dist(pts[p], pts[q]) for q in fam[p])))
        sv = []
        for _ in range(rng.choice([1, 1, 2])):
            fixed = best > 1e299 or rng.random() < 0.3
            sv.append(dict(fixed=fixed, sf=rng.choice([4, 4, 3, 2, 1]), n=rng.choice([0, 1, 2, 3, 5])))
        m["solvers"] = sv
        return dict(mesh=m, best=best, unit=rng.choice([1.0, 0.5, 2.0, 0.125, 3.0]), W=rng.choice([1.0, 0.25, 0.001]),
                    R=rng.choice([1.0, 7.8, 0.5]), kappa=rng.choice([1.0, 10.0, 2.0e5]), np=rng.choice([1, 2, 3, 4]),
                    moved=rng.random() < 0.25 and all(s["n"] <= 2 for s in sv), t0=rng.choice([0.0, 0.0, 0.5]),
                    freq=1)


def mantissa(x):
    if x > 1e60:
        return []
    if not x > 0:
        return [0, 0]
    e = math.floor(math.log10(x)) - 5
    v = round(x / 10.0 ** e)
    if v >= 1000000:
        v, e = v // 10, e + 1
    return [v, e]


def run_stable(sc):
    m, U, W, R, kap = sc["mesh"], sc["unit"], sc["W"], sc["R"], sc["kappa"]
    unit2 = R * U ** 5 / (W * kap)                   # unit of Q
    scale = 1 / 44721.3595499958                      # the specification sums 44721.36/length
    mats, ent = {}, []
    for i, e in enumerate(m["entries"]):
        mat = dict(CORRESPONDENCE if e["hor"][0] != "num" else ELASTIC)
        K = e["k"] * kap * math.pi / 18.0
        mat.update({"Density": e["den"] * R, "Bulk Modulus": K, "Shear Modulus": 0.6 * K})
        mats["M%d" % i] = mat
        ent.append(dict(e, mat="M%d" % i))
    disc = {"Type": "Text File", "Input Mesh File": "mesh.txt"}
    if m["omit"]:
        disc["Omit Bonds Between Blocks"] = "All"
    deck = {"Discretization": disc, "Materials": mats, "Blocks": block_entries(ent, U), "Output": output(["Displacement"])}
    files = {"mesh.txt": text_mesh(m["pts"], m["blk"], [v * W for v in m["vol"]], U)}
    if sc["moved"]:
        deck["Boundary Conditions"] = {"Some Node Set": "1", "D": {"Type": "Initial Displacement", "Node Set": "Some Node Set",
                                                                  "Coordinate": "x", "Value": num(0.125 * U)}}
    t = sc["t0"]
    stable = math.sqrt(sc["best"] * unit2) if sc["best"] < 1e299 else 1.0
    ends, fixed = [], []
    for i, s in enumerate(m["solvers"]):
        v = {}
        sf = s["sf"] / 4.0
        dt = stable * sf
        if s["fixed"]:
            v["Fixed dt"] = 0.37 * stable
            dt = 0.37 * stable * sf
        if s["sf"] != 4 or not v:
            v["Safety Factor"] = sf
        t1 = t + (s["n"] + 0.5) * dt
        deck["Solver%s" % (i + 1 if len(m["solvers"]) > 1 else "")] = {"Initial Time": t, "Final Time": t1, "Verlet": v}
        ends.append((t, dt))
        t = t1
    r = simulate(deck, files, sc["np"])
    if crashed_by_tool(r):
        raise ToolError("run failed: " + r.log[-800:])
    ev = [{"ev": "mesh", "mesh": m}]
    o = r.files.get("out")
    if r.rc or o is None:
        return ev + [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
    rep = [float(x) for x in re.findall(r"stable time step\D*?([0-9][0-9.]*(?:[eE][-+]?\d+)?)\s*$", r.log, re.I | re.M)]
    times, k = o["time"], 0
    for i, s in enumerate(m["solvers"]):
        start, dt = ends[i]
        ts = times[k:k + s["n"] + 1]
        k += s["n"] + 1
        e = {"ev": "solver", "reported": ["absent"], "times": [BAD], "step2": [0, 0], "ratio": 0}
        if len(rep) == len(m["solvers"]):
            e["reported"] = [] if rep[i] > 1e45 else mantissa(rep[i] ** 2 / unit2 * scale)
        elif rep:
            e["reported"] = [0, 0]
        if len(ts) > 1:
            got = ts[1] - ts[0]
            e["step2"] = mantissa(got * got / unit2 * scale)
            e["ratio"] = sig(got / dt, 1e-6)
            if abs(ts[0] - start) <= 1e-9 * max(1.0, abs(start)) and got > 0:
                e["times"] = [qz(x - start, got, 1e-4) for x in ts]
        elif ts and abs(ts[0] - start) <= 1e-9 * max(1.0, abs(start)):
            e["times"] = [0]
        ev.append(e)
    if k != len(times):
        ev.append({"ev": "surplus"})
    return ev + [{"ev": "end"}]


def scenarios(rng, n):
    return [make(rng, k % 5 == 0) for k in range(n)]


TRY = {"make": ("TrStable", "run_stable")}


def run():
    c = Check("C20", assumptions=["estimates are compared to 3e-4 of their square", "the report is read from standard output; if it is not there only the steps taken are compared"])
    build()
    c.mc("MCReduce", "MCReduce.cfg", workers=NCPU)
    c.refuted("MCReduce", "MCReduceTiny.cfg", workers=NCPU)
    n = 1600 if THOROUGH else 400
    c.conform("TrStable", scenarios(c.rng, n), run_stable)
    return c.finish()


if __name__ == "__main__":
    main(run, "C20")
