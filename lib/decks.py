"""Decks and meshes from abstract scenarios."""
from vlib import num


def render(e, unit=1.0):
    """Deck text of an expression (top level may be conditional).  unit: physical value of one grid unit."""
    if e[0] in ("if", "when"):
        op = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[e[1]]
        s = "if(%s %s %s){value = %s;}" % (rx(e[2], unit), op, rx(e[3], unit), rx(e[4], unit))
        if e[0] == "if":
            s += " else{value = %s;}" % rx(e[5], unit)
        return s
    return rx(e, unit)


def rx(e, unit):
    o = e[0]
    if o == "num":
        return num(e[1] * unit) if e[1] >= 0 else "(0.0-%s)" % num(-e[1] * unit)
    if o in "xyzt":
        return o
    if o == "add":
        return "(%s + %s)" % (rx(e[1], unit), rx(e[2], unit))
    if o == "sub":
        return "(%s - %s)" % (rx(e[1], unit), rx(e[2], unit))
    if o == "mul":
        return "(%s * %s)" % (num(e[1]) if e[1] >= 0 else "(0.0-%s)" % num(-e[1]), rx(e[2], unit))
    if o == "quad":
        return "(%s * %s / %s)" % (rx(e[2], unit), rx(e[2], unit), num(e[1] * unit))
    raise ValueError(e)


def name(b):
    return "default" if b == 0 else "block_%d" % b


def text_mesh(pts, blk, vol, unit=1.0):
    return "".join("%s %s %s %d %s\n" % (num(p[0] * unit), num(p[1] * unit), num(p[2] * unit), b, num(v))
                   for p, b, v in zip(pts, blk, vol))


ELASTIC = {"Material Model": "Elastic", "Density": 1.0, "Bulk Modulus": 1.0e-20, "Shear Modulus": 1.0e-20}


CORRESPONDENCE = {"Material Model": "Elastic Correspondence", "Density": 1.0, "Bulk Modulus": 1.0e-20,
                  "Shear Modulus": 1.0e-20, "Hourglass Coefficient": 0.0}


def block_entries(entries, unit=1.0, material="M", extra=None):
    out = {}
    for i, en in enumerate(entries):
        h = en["hor"]
        d = {"Block Names": " ".join(name(b) for b in en["names"]), "Material": en.get("mat", material if h[0] == "num" else "V"),
             "Horizon": h[1] * unit if h[0] == "num" else render(h, unit)}
        if en.get("dmg"):
            d["Damage Model"] = en["dmg"]
        out["B%d" % (i + 1)] = d
    return out


def verlet(dt, final, initial=0.0, **kw):
    d = {"Final Time": float(final), "Verlet": dict({"Fixed dt": float(dt)}, **kw)}
    if initial:
        d["Initial Time"] = float(initial)
    return d


def output(variables, name="out", freq=1, **kw):
    return dict({"Output Filename": name, "Output Frequency": freq,
                 "Output Variables": {v: True for v in variables}}, **kw)


def filters(fl, unit=1.0):
    out = {}
    for i, f in enumerate(fl):
        if f["kind"] == "plane":
            k = float(f["k"])
            d = {"Type": "Rectangular_Plane"}
            for j, c in enumerate("XYZ"):
                d["Normal_" + c] = f["n"][j] / k
                d["Lower_Left_Corner_" + c] = f["r0"][j] * unit
                d["Bottom_Unit_Vector_" + c] = f["ub"][j] / k
            d["Bottom_Length"] = f["b"] * unit
            d["Side_Length"] = f["a"] * unit
        else:
            k = float(f["k"])
            d = {"Type": "Disk"}
            for j, c in enumerate("XYZ"):
                d["Normal_" + c] = f["n"][j] / k
                d["Center_" + c] = f["c"][j] * unit
            d["Radius"] = f["r"] * unit
        out["F%d" % i] = d
    return out
