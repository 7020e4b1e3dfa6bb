"""Decks with and without defects (TrDeck).  A deck is made as the abstract record that the specification judges and is then written out."""
import copy, os
import vlib
from vlib import execute, scratch, yaml, read_output, ToolError, crashed_by_tool
from sim import Reject

JUNK = -99
DT = 0.125
MODULI = ["Bulk Modulus", "Shear Modulus", "Young's Modulus", "Poisson's Ratio"]
VALUE = {"Density": 2.0, "Bulk Modulus": 3.0, "Shear Modulus": 1.5, "Young's Modulus": 3.75, "Poisson's Ratio": 0.25, "Yield Stress": 5.0,
         "lambda_i": 0.5, "tau b": 2.0, "Critical Stretch": 0.5, "Time Dependent Critical Stretch": "value = 0.5", "Contact Radius": 0.25,
         "Spring Constant": 1.0, "Hourglass Coefficient": 0.1}
NEED = {"Elastic": ["Density"], "Elastic Plastic": ["Density", "Yield Stress"], "Viscoelastic": ["Density", "lambda_i", "tau b"],
        "Elastic Correspondence": ["Density", "Hourglass Coefficient"],
        "Critical Stretch": ["Critical Stretch"], "Time Dependent Critical Stretch": ["Time Dependent Critical Stretch"],
        "Short Range Force": ["Contact Radius", "Spring Constant"]}
OUTVARS = ["Displacement", "Velocity", "Force_Density", "Volume", "Block_Id", "Coordinates", "Acceleration"]


def model(rng, name, kind):
    keys = list(NEED[kind])
    if "Density" in keys:
        keys += ["Bulk Modulus", rng.choice(["Shear Modulus", "Poisson's Ratio"])] if rng.random() < 0.6 else rng.sample(MODULI, 2)
    return dict(name=name, model=kind, keys=keys)


def good(rng):
    """A complete consistent deck."""
    dims = [rng.randint(2, 4), 2, rng.choice([1, 2])]
    order = [0, 1, 2]
    rng.shuffle(order)
    dims = [dims[i] for i in order]
    pts = [[i, j, k] for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]
    rng.shuffle(pts)
    nb = rng.choice([1, 2, 2, 3])
    ids = rng.sample([1, 2, 3, 7, 11], nb)
    ax = max(range(3), key=lambda a: dims[a])
    blk = [ids[min(nb - 1, p[ax] * nb // dims[ax])] for p in pts]
    ids = sorted(set(blk))
    kind = rng.choice(["Verlet"] * 5 + ["QuasiStatic"] * 3 + ["Implicit"])
    static = kind != "Verlet"
    mats = [model(rng, "Mat %d" % i, rng.choice(["Elastic"] if static else ["Elastic", "Elastic", "Elastic Plastic", "Viscoelastic", "Elastic Correspondence"]))
            for i in range(rng.choice([1, 2, 3]))]
    dams = [] if static else [model(rng, "Dam %d" % i, rng.choice(["Critical Stretch", "Time Dependent Critical Stretch"])) for i in range(rng.choice([0, 1, 1, 2]))]
    contact = dict(on=not static and rng.random() < 0.5, radius=True, freq="pos", models=[], inter=[])
    for m in mats:                                   # needs a body of three dimensions; not combined with damage or contact
        if m["model"] == "Elastic Correspondence" and (dams or contact["on"] or min(dims) < 2):
            m.update(model(rng, m["name"], "Elastic"))
    entries = []
    left = list(ids)
    while left:
        k = rng.randint(1, len(left))
        names = ["block_%d" % b for b in left[:k]]
        left = left[k:]
        if not left and rng.random() < 0.3:
            names = ["default"] if rng.random() < 0.6 else names[:-1] + ["default"]
        entries.append(dict(names=names, mat=rng.choice(mats)["name"], dam=rng.choice(dams)["name"] if dams and rng.random() < 0.6 else "",
                            hor="ok"))
        m = [x for x in mats if x["name"] == entries[-1]["mat"]][0]
        if not contact["on"] and m["model"] == "Elastic Correspondence" and rng.random() < 0.5:
            entries[-1]["hor"] = "fn"
    rng.shuffle(entries)
    if contact["on"]:
        contact["models"] = [model(rng, "Con %d" % i, "Short Range Force") for i in range(1)]
        con = rng.choice(contact["models"])["name"]
        r = rng.random()
        contact["inter"] = [dict(kind="General Contact", first="", second="", model=con)]
        if r < 0.3:
            contact["inter"].append(dict(kind="Self Contact", first="", second="", model=con))
        elif r < 0.6:
            contact["inter"] = [dict(kind="Pair", first="block_%d" % rng.choice(ids), second="block_%d" % rng.choice(ids), model=con)]
    n = len(pts)
    sets = []
    for i in range(rng.choice([1, 2, 3])):
        sets.append(dict(name="Node Set %d" % i, kind=rng.choice(["list", "file"]), toks=sorted(rng.sample(range(1, n + 1), rng.randint(1, min(n, 5))))))
    steps = rng.randint(1, 4)
    solver = dict(kind=kind, dt="pos", t0=rng.choice([0, 0, 2]), t1=0, steps="count", count=steps, list=[], limits=[])
    solver["t1"] = solver["t0"] + steps * rng.choice([1, 2])
    if kind == "QuasiStatic":
        if rng.random() < 0.5:
            t = [solver["t0"]]
            for _ in range(steps):
                t.append(t[-1] + rng.choice([1, 1, 2]))
            solver.update(steps="list", list=t)
        if rng.random() < 0.3:
            a = rng.randint(0, 3)
            solver["limits"] = [a, a + rng.randint(0, 3)]
    bcs = []
    if static:                                        # hold the body
        sets.append(dict(name="Node Set all", kind="list", toks=list(range(1, n + 1))))
        for c in "xyz":
            bcs.append(dict(type="Prescribed Displacement", set="Node Set all", coord=c, val="ok", at=0))
    for i in range(rng.choice([0, 1, 2, 3])):
        t = rng.choice(["Body Force"] if static else ["Initial Velocity", "Initial Displacement", "Prescribed Displacement", "Body Force"])
        bcs.append(dict(type=t, set=rng.choice(sets)["name"], coord=rng.choice("xyz"), val="ok", at=0))
    if rng.random() < 0.2:
        bcs.append(dict(type=rng.choice(["Prescribed Temperature", "Initial Temperature"]), set=rng.choice(sets)["name"], coord="x", val="ok", at=0))
    comps = []
    for i in range(rng.choice([0, 1, 2])):
        comps.append(dict(cls="Block_Data", calc=rng.choice(["Sum", "Minimum", "Maximum"]), block="block_%d" % rng.choice(ids),
                          var=rng.choice(["Volume", "Displacement", "Force_Density"]), label="Label_%d" % i))
    outs = [dict(vars=rng.sample(OUTVARS, rng.randint(1, 4)) + [c["label"] for c in comps], type=rng.choice(["", "ExodusII"]))]
    if rng.random() < 0.3:
        outs.append(dict(vars=rng.sample(OUTVARS, 2), type=""))
    return dict(file="ok", disc="Text File", meshfile="there", mesh=[dict(n=5, tail=False, fin=True, blk=b, pos=p) for p, b in zip(pts, blk)],
                mats=mats, dams=dams, entries=entries, sets=sets, bcs=bcs, contact=contact, comps=comps, outs=outs, solver=solver)


# --------------------------------------------------------------------------- defects
def pick(rng, xs):
    if not xs:
        raise Reject()
    return rng.choice(xs)


def d_file(rng, d):
    d["file"] = rng.choice(["absent", "garbled", "noargs"])


def d_disc(rng, d):
    d["disc"] = rng.choice(["Text", "", "PdQuickgrid"])


def d_meshfile(rng, d):
    d["meshfile"] = rng.choice(["absent", "unnamed", "empty"])


def line(d, rng):
    far = max(p["pos"][0] for p in d["mesh"]) + 1
    return dict(n=5, tail=False, fin=True, blk=rng.choice(d["mesh"])["blk"], pos=[far, 0, 0])


def d_line(rng, d):
    l = line(d, rng)
    k = rng.randrange(6)
    if k == 0:
        l["n"] = rng.choice([1, 3, 4, 6, 7])
    elif k == 1:
        l["tail"] = True
    elif k == 2:
        l.update(tail=True, n=rng.choice([0, 1, 3, 4]))
    elif k == 3:
        l["fin"] = False
    else:
        l["blk"] = rng.choice([b for b in (1, 2, 3, 4, 7, 9, 11, 17) if b not in {x["blk"] for x in d["mesh"]}])
    d["mesh"].insert(rng.randint(0, len(d["mesh"])), l)


def d_model(rng, d):
    m = pick(rng, d["mats"] + d["dams"] + d["contact"]["models"])
    if rng.random() < 0.4:
        m["model"] = rng.choice(["", "Elastik", "elastic", "Critical", "Short Range"])
    else:
        k = rng.choice(m["keys"])
        m["keys"].remove(k)


def d_moduli(rng, d):
    m = pick(rng, d["mats"])
    m["keys"] = m["keys"] + [rng.choice([k for k in MODULI if k not in m["keys"]])]


def d_entry(rng, d):
    e = pick(rng, d["entries"])
    k = rng.randrange(6)
    if k == 0:
        e["mat"] = rng.choice(["", "Mat 9", "Dam 0"])
    elif k == 1:
        e["dam"] = "Dam 9" if d["dams"] else "Dam 0"
    elif k == 2:
        e["hor"] = rng.choice(["none", "bad", "neg"])
    elif k == 3:
        e["names"] = e["names"] + ["block_%d" % rng.choice([4, 9, 17])]
    elif k == 4:
        e["names"] = e["names"] + [rng.choice([n for x in d["entries"] for n in x["names"]])]
    else:
        d["entries"].remove(e)


def d_noncon(rng, d):
    if not d["contact"]["on"]:
        raise Reject()
    c = d["contact"]
    k = rng.randrange(6)
    if k == 0:
        c["radius"] = False
    elif k == 1:
        c["freq"] = "none"
    elif k == 2:
        rng.choice(c["inter"])["model"] = rng.choice(["Con 9", "Mat 0"])
    elif k == 3:
        c["models"] = []
    elif k == 4:
        c["inter"].append(dict(kind="Pair", first=rng.choice(["block_9", "block_4"]), second="block_%d" % d["mesh"][0]["blk"], model=c["models"][0]["name"]))
    else:
        rng.choice(d["entries"])["hor"] = "fn"


def d_set(rng, d):
    s = pick(rng, d["sets"])
    k = rng.randrange(4)
    if k == 0:
        s["kind"] = "lost"
    else:
        s["toks"].insert(rng.randint(0, len(s["toks"])), rng.choice([0, -1, JUNK]))


def d_bc(rng, d):
    b = pick(rng, d["bcs"])
    k = rng.choice([0, 1, 2, 3, 4, 5, 5, 5, 5, 6, 7, 8])
    if k in (3, 4, 5, 6, 7) and d["solver"]["kind"] == "Implicit" and b["type"].startswith("Prescribed"):
        raise Reject()                               # that solver does not evaluate these
    if k == 0:
        b["type"] = rng.choice(["", "Initial", "Prescribed Force", "Prescribed Velocity"])
    elif k == 1:
        b["set"] = rng.choice(["", "Node Set 9"])
    elif k == 2:
        b["coord"] = rng.choice(["w", "xy"])
    elif k == 3:
        b["val"] = rng.choice(["none", "bad"])
    elif k == 4:
        b["val"] = rng.choice(["nan", "inf"])
    elif k == 5:
        b.update(val="time", at=rng.randint(0, d["solver"]["t1"] + 1))
    elif k in (6, 7):
        b.update(val="spot", at=rng.randint(0, 4))
    else:
        d["bcs"].append(dict(type=rng.choice(["Prescribed Temperature", "Initial Temperature"]), set=b["set"], coord=rng.choice("yz"), val="ok", at=0))


def d_comp(rng, d):
    c = pick(rng, d["comps"])
    k = rng.choice(["cls", "calc", "block", "var", "label"])
    c[k] = rng.choice({"cls": ["", "Block_Date"], "calc": ["", "Average"], "block": ["", "block_9"], "var": ["", "Volum"], "label": [""]}[k])


def d_out(rng, d):
    o = pick(rng, d["outs"])
    if rng.random() < 0.7:
        o["vars"].append(rng.choice(["Volum", "Label_9", "displacement", "Pressure"]))
    else:
        o["type"] = rng.choice(["Text", "exodus"])


def d_solver(rng, d):
    s = d["solver"]
    k = rng.randrange(4)
    if k == 0:
        s["kind"] = rng.choice(["", "Verlett"])
    elif s["kind"] == "QuasiStatic":
        if k == 1:
            s.update(steps="none")
        elif k == 2:
            t = [s["t0"], s["t0"] + 1, s["t0"] + 2]
            j = rng.randrange(4)
            if j == 0:
                t[2] = t[1]
            elif j == 1:
                t[1], t[2] = t[2], t[1]
            elif j == 2:
                t.insert(rng.randint(0, 3), JUNK)
            else:
                t = []
            s.update(steps="list", list=t)
        else:
            a = rng.randint(1, 4)
            s["limits"] = rng.choice([[a, a - 1], [a, -1], [a, 0]])
    else:
        if k == 1:
            s["dt"] = rng.choice(["zero", "neg"])
        elif k == 2:
            s["dt"] = "word"
        else:
            s["t1"], s["t0"] = s["t0"], s["t1"]


def d_miss(rng, d):
    d["file"] = rng.choice(["no Discretization", "no Materials", "no Blocks"])


DEFECTS = [d_file, d_disc, d_meshfile, d_line, d_line, d_line, d_model, d_model, d_moduli, d_entry, d_entry, d_entry, d_noncon, d_noncon, d_noncon, d_set, d_set,
           d_bc, d_bc, d_bc, d_bc, d_comp, d_comp, d_out, d_solver, d_solver, d_solver, d_miss]


def make_deck(rng):
    d = good(rng)
    k = rng.choice([0, 1, 1, 1, 1, 2])
    for _ in range(k):
        rng.choice(DEFECTS)(rng, d)
    return dict(d=d, np=rng.choice([1, 2, 3, 4]))


# --------------------------------------------------------------------------- concrete form
def written(m):
    o = {}
    kind = "Damage Model" if m["name"].startswith("Dam") else "Contact Model" if m["name"].startswith("Con") else "Material Model"
    if m["model"]:
        o[kind] = m["model"]
    for k in m["keys"]:
        o[k] = VALUE[k]
    return o


def value(b, d):
    v = b["val"]
    if v == "ok":
        return {"Body Force": "0.0625", "Initial Velocity": "0.015625", "Prescribed Velocity": "0.015625", "Prescribed Temperature": "1.0 + t", "Initial Temperature": "1.0"}.get(b["type"], "0.015625*x" if d["solver"]["kind"] == "Verlet" else "0.0")
    return {"bad": "foo(x", "nan": "0.0/0.0", "inf": "1.0/0.0", "time": "0.0078125/(t - %r)" % (b["at"] * DT), "spot": "0.0078125/(x - %r)" % float(b["at"])}[v]


def concrete(d):
    files = {}
    k = {"Discretization": {}}
    if d["disc"]:
        k["Discretization"]["Type"] = d["disc"]
    if d["meshfile"] != "unnamed":
        k["Discretization"]["Input Mesh File"] = "mesh.txt"
    if d["meshfile"] == "empty":
        files["mesh.txt"] = ""
    elif d["meshfile"] == "there":
        t = []
        for l in d["mesh"]:
            w = [repr(float(x)) for x in l["pos"]] + [str(l["blk"]), "1.0", "2.0", "3.0"]
            if not l["fin"]:
                w[1] = "nan"
            w = w[:l["n"]]
            if l["tail"]:
                w.append("foo")
            t.append(" ".join(w))
        files["mesh.txt"] = "\n".join(t) + "\n"
    k["Materials"] = {m["name"]: written(m) for m in d["mats"]}
    if d["dams"]:
        k["Damage Models"] = {m["name"]: written(m) for m in d["dams"]}
    k["Blocks"] = {}
    for i, e in enumerate(d["entries"]):
        b = {"Block Names": " ".join(e["names"])}
        if e["mat"]:
            b["Material"] = e["mat"]
        if e["dam"]:
            b["Damage Model"] = e["dam"]
        if e["hor"] != "none":
            b["Horizon"] = {"ok": 1.75, "fn": "value = 1.75 + 0.0*x", "bad": "foo(x", "neg": -1.5}[e["hor"]]
        k["Blocks"]["Group %d" % i] = b
    bc = {}
    for i, s in enumerate(d["sets"]):
        w = ["foo" if x == JUNK else str(x) for x in s["toks"]]
        if s["kind"] == "list":
            bc[s["name"]] = " ".join(w)
        else:
            bc[s["name"]] = "set%d.txt" % i
            if s["kind"] == "file":
                files["set%d.txt" % i] = "\n".join(w) + "\n"
    for i, b in enumerate(d["bcs"]):
        o = {}
        if b["type"]:
            o["Type"] = b["type"]
        if b["set"]:
            o["Node Set"] = b["set"]
        o["Coordinate"] = b["coord"]
        if b["val"] != "none":
            o["Value"] = value(b, d)
        bc["Condition %d" % i] = o
    k["Boundary Conditions"] = bc
    c = d["contact"]
    if c["on"]:
        k["Contact"] = {}
        if c["radius"]:
            k["Contact"]["Search Radius"] = 2.0
        if c["freq"] == "pos":
            k["Contact"]["Search Frequency"] = 2
        k["Contact"]["Models"] = {m["name"]: written(m) for m in c["models"]}
        k["Contact"]["Interactions"] = {}
        for i, x in enumerate(c["inter"]):
            k["Contact"]["Interactions"]["Pair %d" % i if x["kind"] == "Pair" else x["kind"]] = dict(
                ({"First Block": x["first"], "Second Block": x["second"]} if x["kind"] == "Pair" else {}), **{"Contact Model": x["model"]})
    if d["comps"]:
        k["Compute Class Parameters"] = {}
        for i, x in enumerate(d["comps"]):
            k["Compute Class Parameters"]["Quantity %d" % i] = {a: x[b] for a, b in (("Compute Class", "cls"), ("Calculation Type", "calc"), ("Block", "block"),
                                                                                     ("Variable", "var"), ("Output Label", "label")) if x[b]}
    s = d["solver"]
    q = {}
    if s["kind"] in ("QuasiStatic",):
        q["Absolute Tolerance"] = 1.0e9
        if s["steps"] == "count":
            q["Number of Load Steps"] = s["count"]
        elif s["steps"] == "list":
            q["Time Steps"] = " ".join("foo" if t == JUNK else repr(t * DT) for t in s["list"]) or " "
        if s["limits"]:
            q["Adaptive Load-Stepping"] = {"Maximum load step reductions in one step": s["limits"][0]}
            if s["limits"][1] >= 0:
                q["Adaptive Load-Stepping"]["Maximum total load step reductions"] = s["limits"][1]
    else:
        q["Fixed dt"] = {"pos": DT, "zero": 0.0, "neg": -DT, "word": "abc"}[s["dt"]]
    k["Solver"] = {"Initial Time": s["t0"] * DT, "Final Time": s["t1"] * DT}
    if s["kind"]:
        k["Solver"][s["kind"]] = q
    for i, o in enumerate(d["outs"]):
        x = {"Output Filename": "out%d" % i, "Output Frequency": 1, "Output Variables": {v: True for v in o["vars"]}}
        if o["type"]:
            x["Output File Type"] = o["type"]
        k["Output%s" % (i + 1 if len(d["outs"]) > 1 else "")] = x
    if d["file"].startswith("no "):
        del k[d["file"][3:]]
    return k, files


def last(d):
    s = d["solver"]
    return (s["list"][-1] if s["steps"] == "list" and s["list"] else s["t1"]) * DT


def run_deck(sc):
    d, np = sc["d"], sc["np"]
    k, files = concrete(d)
    with scratch() as w:
        for n, t in files.items():
            with open(os.path.join(w, n), "w") as f:
                f.write(t)
        text = yaml({"Peridigm": k}) + "\n"
        if d["file"] == "garbled":
            text = text[:len(text) // 2] + "\n  - [ {\n" + text[len(text) // 2:]
        if d["file"] != "absent":
            with open(os.path.join(w, "deck.yaml"), "w") as f:
                f.write(text)
        r = execute(w, np=np, timeout=60, args=[] if d["file"] == "noargs" else None)
        if crashed_by_tool(r):
            raise ToolError("launcher: " + r.log[-500:])
        done = False
        try:
            o = read_output(w, "out0", np)
            done = bool(o and o["time"] and max(o["time"]) >= last(d) - 1e-9)
        except Exception:
            done = False
    return [dict(ev="deck", d=d), dict(ev="run", np=np, ended=not r.timeout, ok=not r.timeout and r.rc == 0, done=done)]
