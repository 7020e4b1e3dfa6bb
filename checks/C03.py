"""C03: a tensor-product grid yields the specified points, volumes and families."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from decks import *


def centre(g, i):
    i -= 1
    ix = (i % g["n"][0], i // g["n"][0] % g["n"][1], i // (g["n"][0] * g["n"][1]))
    return [g["o"][d] + (2 * ix[d] + 1) * g["hw"][d] for d in range(3)]


def scenario(rng, k):
    while True:
        n = [rng.randint(1, 7) for _ in range(3)]
        if rng.random() < 0.4:
            n[rng.randrange(3)] = 1
        if rng.random() < 0.2:
            n = [1, 1, 1]
            n[rng.randrange(3)] = rng.randint(2, 40)
        tot = n[0] * n[1] * n[2]
        if not 2 <= tot <= 150:
            continue
        hw = [rng.choice([1, 1, 2, 3])] * 3 if rng.random() < 0.5 else [rng.choice([1, 2, 3]) for _ in range(3)]
        o = [rng.choice([0, 0, 1, -3, 5, -20]) for _ in range(3)]
        h = rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 12, 15])
        unit = rng.choice([0.5, 0.25, 1.0, 0.125, 0.1, 0.37])
        g = dict(n=n, hw=hw, o=o, h=h, shape=rng.choice(["ball", "ball", "box"]))
        d2 = {sum((2 * a * w) ** 2 for a, w in zip(t, hw)) for t in
              ((x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2]))}
        if unit in (0.1, 0.37) and (h * h in d2 or g["shape"] == "box" and any((h + w) % (2 * w) == 0 for w in hw)):
            continue                             # a tie off the binary grid has no definite answer
        probes = sorted(rng.sample(range(1, tot + 1), min(tot, 3)))
        return dict(grid=g, unit=unit, np=rng.choice([1, 1, 2, 3, 4] if tot > 6 else [1, 1, 2]), probes=probes)


def deck(g, unit, probe=None):
    gen = {"Type": "PdQuickGrid"}
    for d, c in enumerate("XYZ"):
        gen["%s Origin" % c] = g["o"][d] * unit
        gen["%s Length" % c] = 2 * g["hw"][d] * g["n"][d] * unit
        gen["Number Points %s" % c] = g["n"][d]
    disc = {"Type": "PdQuickGrid", "TensorProduct3DMeshGenerator": gen}
    if g["shape"] == "ball":
        disc["NeighborhoodType"] = "Spherical"
    dk = {"Discretization": disc,
          "Materials": {"M": ELASTIC}, "Blocks": {"B": {"Block Names": "block_1", "Material": "M", "Horizon": g["h"] * unit}},
          "Solver": verlet(1.0, 0.5),
          "Output": output(["Number_Of_Neighbors", "Volume", "Element_Id", "Dilatation", "Model_Coordinates"])}
    if probe:
        dk["Boundary Conditions"] = {"Probe Node Set": str(probe)}
        for i, c in enumerate("xyz"):
            dk["Boundary Conditions"]["I" + c] = {"Type": "Initial Displacement", "Node Set": "Probe Node Set", "Coordinate": c,
                                                  "Value": (0.01, 0.0173, 0.0231)[i] * unit}
    return dk


def run_grid(sc):
    g, unit = sc["grid"], sc["unit"]
    n = g["n"][0] * g["n"][1] * g["n"][2]
    evs = [{"ev": "grid", "grid": g}]
    for probe in [None] + sc["probes"]:
        r = simulate(deck(g, unit, probe), {}, sc["np"])
        if crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        o = r.files.get("out")
        if r.rc != 0 or o is None or not o["time"]:
            return evs + [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
        ids = sorted(o["pts"])
        if o["dup"] or o["id_mismatch"] or ids != sorted(o["elem_block"]) or ids != list(range(1, n + 1)):
            return evs + [{"ev": "badids", "ids": ids, "dup": o["dup"]}]
        e = o["elem"]
        if probe is None:
            evs.append({"ev": "gridpoints", "ids": [qz(e["Element_Id"][i][0], 1.0) for i in ids],
                        "pos": [[qz(c, unit) for c in o["pts"][i]] for i in ids],
                        "ref": [[qz(o["nodal"]["Model_Coordinates" + c][i][0], unit) for c in "XYZ"] for i in ids],
                        "vol": [qz(e["Volume"][i][0], unit ** 3) for i in ids],
                        "count": [qz(e["Number_Of_Neighbors"][i][0], 1.0) for i in ids]})
        else:
            if any(v[0] != v[0] for v in e["Dilatation"].values()):
                return evs + [{"ev": "failed", "rc": 0, "log": "NaN dilatation"}]
            evs.append({"ev": "gridprobe", "p": probe,
                        "touched": [i for i in ids if i != probe and abs(e["Dilatation"][i][0]) > 1e-9]})
    return evs


def run():
    c = Check("C03", assumptions=["families are observed through the neighbor count and the dilatation caused by displaced points"])
    build()
    c.mc("MCGrid", "MCGrid.cfg", workers=NCPU)
    n = 500 if THOROUGH else 150
    c.conform("TrMesh", [scenario(c.rng, k) for k in range(n)], run_grid)
    return c.finish()


if __name__ == "__main__":
    main(run, "C03")
