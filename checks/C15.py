"""C15: redistributing points between ranks preserves every point and its data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from store import *


def moves(rng):
    ranks = rng.choice([1, 2, 2, 3, 3, 4])
    n = rng.choice([1, 2, 3, 4, 6, 9, 12])
    shape = rng.choice([(3, 3, 3), (6, 1, 1), (1, 5, 1), (2, 2, 1), (9, 9, 9)])
    pts = []
    for g in range(n):
        k = rng.choice([0, 1, 2, n - 1])
        pts.append(dict(x=[rng.randint(-s, s) for s in shape], v=rng.randint(1, 50), fam=rng.sample([q for q in range(1, n + 1) if q != g + 1], min(k, n - 1))))
    mode = rng.random()
    owner = [rng.randint(1, ranks) for _ in range(n)] if mode < 0.6 else [rng.randint(1, ranks)] * n if mode < 0.8 else [g * ranks // n + 1 for g in range(n)]
    ops = []
    for _ in range(rng.randint(1, 6)):
        if rng.random() < 0.5:
            ops.append(dict(op="B"))
        else:
            perm = list(range(1, n + 1))
            rng.shuffle(perm)
            ops.append(dict(op="T", owner=[rng.randint(1, ranks) for _ in range(n)] if rng.random() < 0.8 else [rng.randint(1, ranks)] * n, perm=perm))
    return dict(np=ranks, pts=pts, owner=owner, ops=ops)


def run_moves(sc):
    with scratch() as d:
        with open(os.path.join(d, "script"), "w") as f:
            f.write("points %d\n" % len(sc["pts"]))
            for p, o in zip(sc["pts"], sc["owner"]):
                f.write("p %d %d %d %d %d %s\n" % (o, *p["x"], p["v"], " ".join(map(str, p["fam"]))))
            for o in sc["ops"]:
                f.write("B\n" if o["op"] == "B" else "T %s %s\n" % (" ".join(map(str, o["owner"])), " ".join(map(str, o["perm"]))))
        r = execute(d, np=sc["np"], exe=os.path.join(BUILD, "src", "pdmove"), args=[])
        if crashed_by_tool(r):
            raise ToolError("run failed: " + r.log[-800:])
        dumps, ok = [], r.rc == 0
        for i in range(sc["np"]):
            p = os.path.join(d, "dump.%d" % i)
            s = open(p).read() if os.path.exists(p) else ""
            ok = ok and s.endswith("END\n")
            dumps.append([x.split("\n")[:-1] for x in s.replace("END\n", "").split("D\n")[1:]])
        if not ok or {len(x) for x in dumps} != {len(sc["ops"]) + 1}:
            return [{"ev": "failed", "rc": r.rc, "log": r.log[-1500:]}]
        evs = []
        for i in range(len(sc["ops"]) + 1):
            obs, over = [], []
            for x in dumps:
                rows, ov = [], []
                for ln in x[i]:
                    t = ln.split()
                    if t[0] == "P":
                        v = [qz(float(a), 1.0) for a in t[2:6]]
                        rows.append([int(t[1]), dict(x=v[:3], v=v[3], fam=[int(a) for a in t[6:]])])
                    else:
                        ov = [int(a) for a in t[1:]]
                obs.append(rows)
                over.append(ov)
            if i == 0:
                evs.append({"ev": "begin", "pts": sc["pts"], "obs": obs})
            elif sc["ops"][i - 1]["op"] == "B":
                evs.append({"ev": "balance", "obs": obs})
            else:
                evs.append({"ev": "send", "owner": sc["ops"][i - 1]["owner"], "obs": obs, "over": over})
        return evs + [{"ev": "end"}]


def scenarios(rng, n):
    return [moves(rng) for _ in range(n)]


def field_scenarios(rng, n):
    return [script(rng, True, rng.choice([8, 14, 24])) for _ in range(n)]


TRY = {"make": ("TrMove", "run_moves")}


def run():
    c = Check("C15", assumptions=["field data are observed through the public interface of blocks and data managers; copies of points of "
                                  "other blocks are not compared right after a redistribution, as they are imported again before use"])
    driver("pdstore")
    driver("pdmove")
    c.mc("MCStore", "MCStore.cfg", workers=NCPU)
    c.refuted("MCStore", "MCStoreStale.cfg", workers=NCPU)
    c.conform("TrMove", scenarios(c.rng, 2000 if THOROUGH else 600), run_moves)
    c.conform("TrStore", field_scenarios(c.rng, 1500 if THOROUGH else 500), run_script)
    return c.finish()


if __name__ == "__main__":
    main(run, "C15")
