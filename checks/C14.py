"""C14: the field registry gives one stable identity to each field name."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

NAMES = ["Force", "force", "FORCE", "Force_Density", "force_density", "Forces", "Forc", "A", "a", "AB", "Ab", "A_1", "a_1", "A_2", "A1", "1A", "Damage",
         "damage", "Temperature", "TEMPERATURE", "Temperature_Change", "temperature_change", "Volume", "volume", "Bond_Damage", "Bond_damage", "bond damage",
         "Deformation_Gradient_Left_Polar_Decomposition_A", "Deformation_Gradient_Left_Polar_Decomposition_B", "deformation_gradient_left_polar_decomposition_a",
         "Z", "z", "zz", "ZZ", "Undefined", "undefined", "x[0]", "X[0]", "x@0", "x`0", "k^2", "k~2", "K^2"]
ALL = [[r, l, t] for r in (1, 2, 3, 4) for l in range(1, 14) for t in (1, 2)]


def short(length):
    """All sequences of the given length over three labels (two differ in case only) and two specifications."""
    reqs = [("R", n, s) for n in ("A", "a", "B") for s in ([1, 10, 1], [4, 10, 1], [1, 10, 2])]
    return [list(q) for q in itertools.product(reqs, repeat=length)]


def long(rng):
    names = rng.sample(NAMES, rng.choice([2, 4, 8, len(NAMES)]))
    specs = rng.sample(ALL, rng.choice([2, 4, 20]))
    if rng.random() < 0.5:                     # neighbors of one specification
        s = rng.choice(ALL)
        specs = [s] + [[a, b, c] for a, b, c in ALL if (a != s[0]) + (b != s[1]) + (c != s[2]) == 1]
    own = {n: rng.choice(specs) for n in names}
    out = []
    for _ in range(rng.choice([6, 15, 40, 80])):
        n = rng.choice(names)
        x = rng.random()
        if x < 0.7:
            out.append(("R", n, own[n] if rng.random() < 0.7 else rng.choice(specs)))
        elif x < 0.8:
            out.append(("L", n))
        elif x < 0.9:
            out.append(("H", n))
        else:
            out.append(("I", rng.choice([0, 1, 2, 5, rng.randint(0, 60), 1000000, -1])))
    return out


def scenarios(rng, n):
    k = 40
    seqs = [long(rng) for _ in range(n)]
    return [dict(np=1, seqs=seqs[i:i + k]) for i in range(0, len(seqs), k)]


TRY = {"make": ("TrRegistry", "run_seqs")}


def record(seq, text):
    if not text.endswith("END\n"):
        return [{"ev": "failed", "log": text[-1500:]}]
    dumps = text[:-4].split("D ")[1:]
    if len(dumps) != len(seq) + 1:
        return [{"ev": "failed", "log": text[-1500:]}]
    evs = []
    for i, d in enumerate(dumps):
        lines = d.split("\n")[:-1]
        obs = {k: [] for k in "SJNGKWB"}
        for ln in lines[1:]:
            k, rest = ln[0], ln[2:]
            if k in "SJNW":
                t = rest.split(" ", 4)
                obs[k].append([int(x) for x in t[:4]] + [t[4]])
            elif k == "G":
                obs[k].append([int(x) for x in rest.split()])
            elif k == "K":
                t = rest.split(" ", 2)
                obs[k].append([int(t[0]), int(t[1]), t[2]])
            else:
                obs[k].append(rest)
        if i == 0:
            evs.append({"ev": "begin", "obs": obs})
            continue
        q = seq[i - 1]
        e = {"ev": {"R": "request", "L": "label", "H": "has", "I": "number"}[q[0]], "res": int(lines[0]), "obs": obs}
        if q[0] == "I":
            e["id"] = q[1]
        else:
            e["label"] = q[1]
        if q[0] == "R":
            e["low"], e["spec"] = q[1].lower(), q[2]
        evs.append(e)
    return evs + [{"ev": "end"}]


def run_batch(seqs):
    with scratch() as d:
        with open(os.path.join(d, "requests"), "w") as f:
            for s in seqs:
                f.write("seq\n")
                for q in s:
                    f.write({"R": lambda: "R %d %d %d %s\n" % (*q[2], q[1]), "I": lambda: "I %d\n" % q[1]}.get(q[0], lambda: "%s %s\n" % (q[0], q[1]))())
        r = execute(d, np=1, exe=os.path.join(BUILD, "src", "pdregistry"), args=[], timeout=300)
        if r.rc != 0:
            raise ToolError("registry driver failed: " + r.log[-500:])
        return [record(s, open(os.path.join(d, "registry.%d" % i)).read()) for i, s in enumerate(seqs)]


def run_seqs(sc):
    """One recorded run made of the sequences one after the other (each begins with an empty registry)."""
    return [e for t in run_batch(sc["seqs"]) for e in t]


def run():
    c = Check("C14", assumptions=["a refusal is an exception or the end of the process, as in the interface documented by the code"])
    driver("pdregistry")
    c.mc("MCRegistry", "MCRegistry.cfg", workers=NCPU)
    for k in ("Case", "Label", "Update"):
        c.refuted("MCRegistry", "MCRegistry%s.cfg" % k, workers=NCPU)
    ex = [q for n in range(1, 5 if THOROUGH else 4) for q in short(n)]
    c.conform("TrRegistry", [dict(np=1, seqs=ex[i:i + 40]) for i in range(0, len(ex), 40)], run_seqs)
    c.conform("TrRegistry", scenarios(c.rng, 4000 if THOROUGH else 1000), run_seqs)
    return c.finish()


if __name__ == "__main__":
    main(run, "C14")
