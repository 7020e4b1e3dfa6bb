"""Scripts on stores (blocks and data managers): generation and the recorder."""
import os
import vlib
from vlib import execute, scratch, qz, ToolError

RELATION = {"NODE": 1, "ELEMENT": 2, "BOND": 3, "GLOBAL": 4}
LENGTH = {**{"LENGTH_%d" % i: i for i in range(1, 10)}, "SCALAR": 10, "VECTOR": 11, "SYMMETRIC_TENSOR": 12, "FULL_TENSOR": 13}
SIZE = {**{"LENGTH_%d" % i: i for i in range(1, 10)}, "SCALAR": 1, "VECTOR": 3, "SYMMETRIC_TENSOR": 6, "FULL_TENSOR": 9}


def families(rng, n):
    out = []
    for g in range(1, n + 1):
        k = rng.choice([0, 1, 1, 2, 3])
        out.append(rng.sample([q for q in range(1, n + 1) if q != g], min(k, n - 1)))
    return out


def distribution(rng, n, ranks, fam=None):
    mode = rng.random()
    owner = [rng.randint(1, ranks) for _ in range(n)]
    if mode < 0.2:
        owner = [rng.randint(1, ranks)] * n
    perm = list(range(1, n + 1))
    if rng.random() < 0.6:
        rng.shuffle(perm)
    return dict(owner=owner, perm=perm, fam=fam if fam is not None else families(rng, n))


def setting(rng, moving):
    """Points, distributions, fields and stores."""
    ranks = rng.choice([1, 2, 2, 3, 3, 4])
    n = rng.choice([1, 2, 3, 4, 5, 6])
    nb = rng.choice([1, 1, 2])
    blk = [rng.randint(1, nb) for _ in range(n)]
    fam = families(rng, n)
    d0 = distribution(rng, n, ranks, fam)
    dists = [d0]
    same = rng.random() < 0.6
    for _ in range(rng.randint(1, 2) if moving else 1):
        dists.append(distribution(rng, n, ranks, fam if same or not moving else None))
    if not moving:                                       # the same ownership in another order, with fewer ghosts sometimes
        dists[1]["owner"] = d0["owner"]
        dists[1]["fam"] = [list(f) for f in fam]
        for f in dists[1]["fam"]:
            rng.shuffle(f)
    names = rng.choice([["SCALAR", "VECTOR"], ["SCALAR", "VECTOR", "SYMMETRIC_TENSOR", "FULL_TENSOR"],
                        ["LENGTH_1", "LENGTH_2", "LENGTH_4", "LENGTH_5"], ["SCALAR", "VECTOR", "LENGTH_7", "LENGTH_8", "LENGTH_9"]])
    fields = []

    def add(rel, ln, two):
        fields.append(dict(rel={"BOND": "bond", "GLOBAL": "global"}.get(rel, "point"), size=SIZE[ln], two=two,
                           code="%d %d %d F%d" % (RELATION[rel], LENGTH[ln], 2 if two else 1, len(fields) + 1)))
    for _ in range(rng.randint(1, 4)):
        add(rng.choice(["NODE", "ELEMENT"]), rng.choice(names), rng.random() < 0.6)
    if same and rng.random() < 0.7:
        for _ in range(rng.randint(1, 2)):
            add("BOND", "SCALAR", rng.random() < 0.6)
    for _ in range(rng.choice([0, 1, 2])):
        add("GLOBAL", rng.choice(["SCALAR", "VECTOR"]), rng.random() < 0.6)
    if rng.random() < 0.85:                              # both kinds of point data, as every block of the program has
        add("NODE", names[0], True)
        add("NODE", names[0], False)
    ids = list(range(1, len(fields) + 1))
    rng.shuffle(ids)
    stores = []
    for b in range(1, nb + 1):
        mine = [f for f in ids if rng.random() < 0.8] or ids[:1]
        stores.append(dict(blk=b, fields=mine, dist=1))
        if rng.random() < 0.5:
            stores.append(dict(blk=b, fields=list(mine), dist=rng.choice([1, 2]) if not moving else 1))
    return dict(ranks=ranks, blk=blk, dists=dists, fields=fields, stores=stores)


def held(m, d, b, r):
    D = m["dists"][d - 1]
    own = [g for g in range(1, len(m["blk"]) + 1) if m["blk"][g - 1] == b and D["owner"][g - 1] == r]
    s = set(own)
    for g in own:
        s |= set(D["fam"][g - 1])
    return own, s


def script(rng, moving, nops):
    """A random script; everything it does is within the contract of the operations."""
    m = setting(rng, moving)
    R, F, S = m["ranks"], m["fields"], m["stores"]
    dist = [s["dist"] for s in S]
    ops, cnt = [], [0]
    has = lambda k, f: f in S[k]["fields"]
    glob = [f for f in range(1, len(F) + 1) if F[f - 1]["rel"] == "global" and any(f in s["fields"] for s in S)]

    def vals(n):
        cnt[0] += 1
        return [100 * cnt[0] + i for i in range(n)] if rng.random() < 0.9 else [-(100 * cnt[0] + i) for i in range(n)]

    def step(f):
        return rng.choice(["N", "NP1", "NP1"]) if F[f - 1]["two"] else "NONE"
    while len(ops) < nops:
        k = rng.randrange(len(S))
        b = S[k]["blk"]
        kind = rng.choice("WWWWWMMIIEEUUSC" + ("RRRR" if moving else "") + "X")
        if kind == "W":
            fs = [f for f in S[k]["fields"] if F[f - 1]["rel"] != "global"]
            r = rng.randint(1, R)
            own, h = held(m, dist[k], b, r)
            if not fs:
                continue
            f = rng.choice(fs)
            if F[f - 1]["rel"] == "bond":
                h = [g for g in own if m["dists"][dist[k] - 1]["fam"][g - 1]]
            if not h:
                continue
            g = rng.choice(sorted(h))
            size = F[f - 1]["size"] if F[f - 1]["rel"] != "bond" else len(m["dists"][dist[k] - 1]["fam"][g - 1])
            ops.append(dict(op="W", k=k + 1, f=f, s=step(f), r=r, g=g, v=vals(size)))
        elif kind == "X":
            if not glob:
                continue
            f = rng.choice(glob)
            ops.append(dict(op="X", k=k + 1, f=f, s=step(f), r=rng.randint(1, R), v=vals(F[f - 1]["size"])))
        elif kind == "M":
            w = rng.choice([1, 2])
            ops.append(dict(op="M", k=k + 1, w=w, g=rng.randint(1, len(m["blk"])), v=vals(1 if w == 1 else 3)))
        elif kind in "IE":
            fs = [f for f in range(1, len(F) + 1) if F[f - 1]["rel"] == "point" and F[f - 1]["size"] in (1, 3)]
            if not fs:
                continue
            f = rng.choice(fs)
            w = 1 if F[f - 1]["size"] == 1 else 2
            o = dict(op=kind, k=k + 1, f=f, s=step(f), w=w)
            if kind == "E":
                o["add"] = rng.random() < 0.75
            ops.append(o)
        elif kind == "U":
            ops.append(dict(op="U", k=k + 1))
        elif kind == "S":
            ops.append(dict(op="S", k=k + 1))
        elif kind == "C":
            js = [j for j in range(len(S)) if j != k and S[j]["blk"] == b and S[j]["fields"] == S[k]["fields"] and
                  all(held(m, dist[k], b, r)[0] == held(m, dist[j], b, r)[0] and held(m, dist[k], b, r)[1] <= held(m, dist[j], b, r)[1]
                      for r in range(1, R + 1))]
            if not js:
                continue
            ops.append(dict(op="C", k=k + 1, j=rng.choice(js) + 1))
        elif kind == "R":
            d = rng.randint(1, len(m["dists"]))
            if any(F[f - 1]["rel"] == "bond" for f in S[k]["fields"]) and m["dists"][d - 1]["fam"] != m["dists"][dist[k] - 1]["fam"]:
                continue
            dist[k] = d
            ops.append(dict(op="R", k=k + 1, d=d))
    return dict(m=m, ops=ops, np=R)


def text(sc):
    m = sc["m"]
    out = ["points %d %s" % (len(m["blk"]), " ".join(map(str, m["blk"])))]
    for d in m["dists"]:
        out.append("dist %s %s" % (" ".join(map(str, d["owner"])), " ".join(map(str, d["perm"]))))
        out += ["fam %d %s" % (g + 1, " ".join(map(str, f))) for g, f in enumerate(d["fam"])]
    out += ["field " + f["code"] for f in m["fields"]]
    out += ["store %d %d %s" % (s["blk"], s["dist"], " ".join(map(str, s["fields"]))) for s in m["stores"]]
    out.append("begin")
    for o in sc["ops"]:
        t = o["op"]
        v = " ".join(map(str, o.get("v", [])))
        out.append({"W": "W {k} {f} {s} {r} {g} " + v, "X": "X {k} {f} {s} {r} " + v, "M": "M {k} {w} {g} " + v, "I": "I {k} {f} {s} {w}",
                    "E": "E {k} {f} {s} {w} " + str(int(o.get("add", 0))), "U": "U {k}", "S": "S {k}", "C": "C {k} {j}", "R": "R {k} {d}"}[t].format(**o))
    return "\n".join(out) + "\n"


def contents(m, ranks):
    """One dump: the lines of every rank."""
    F, S = m["fields"], m["stores"]
    steps = lambda f: ["N", "NP1"] if f["two"] else ["NONE"]
    grid = lambda: [{s: [[] for _ in range(m["ranks"])] for s in ("NONE", "N", "NP1")} for _ in F]
    obs = dict(v=[grid() for _ in S], g=[grid() for _ in S], m=[[[], []] for _ in S], f=[[[] for _ in range(m["ranks"])] for _ in S],
               h=[[set() for _ in F] for _ in S])
    for r, lines in enumerate(ranks):
        for ln in lines:
            t = ln.split()
            num = lambda a: [qz(float(x), 1.0) for x in a]
            k = int(t[1]) - 1
            if t[0] == "V":
                obs["v"][k][int(t[2]) - 1][t[3]][r].append([int(t[4]), num(t[5:])])
            elif t[0] == "G":
                obs["g"][k][int(t[2]) - 1][t[3]][r] = num(t[4:])
            elif t[0] == "M":
                obs["m"][k][int(t[2]) - 1].append([int(t[3]), num(t[4:])])
            elif t[0] == "F":
                obs["f"][k][r].append([int(t[2]), [int(x) for x in t[3:]]])
            elif t[0] == "H":
                if t[4] == "1":
                    obs["h"][k][int(t[2]) - 1].add((t[3], r))
    for k in range(len(S)):
        for f in range(len(F)):                             # a step counts as there when every rank has it
            have = obs["h"][k][f]
            obs["h"][k][f] = sorted(s if all((s, r) in have for r in range(m["ranks"])) else "PART" for s in {x for x, _ in have})
    return obs


def run_script(sc):
    m, np_ = sc["m"], sc["np"]
    with scratch() as d:
        open(os.path.join(d, "script"), "w").write(text(sc))
        r = execute(d, np=np_, exe=os.path.join(vlib.BUILD, "src", "pdstore"), args=[])
        if vlib.crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        first = {"ev": "begin", "m": m, "obs": {}}
        ok = r.rc == 0
        parts = []
        for i in range(np_):
            p = os.path.join(d, "dump.%d" % i)
            s = open(p).read() if os.path.exists(p) else ""
            ok = ok and s.endswith("END\n")
            parts.append([x.strip().split("\n") if x.strip() else [] for x in s.replace("END\n", "").split("D\n")[1:]])
        if not ok or {len(p) for p in parts} != {len(sc["ops"]) + 1}:
            return [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
        evs = []
        for i in range(len(sc["ops"]) + 1):
            obs = contents(m, [p[i] for p in parts])
            if i == 0:
                evs.append({"ev": "begin", "m": m, "obs": obs})
            else:
                o = sc["ops"][i - 1]
                evs.append({"ev": "over" if o["op"] == "E" and not o["add"] else "op", "op": o, "obs": obs})
        return evs + [{"ev": "end"}]
