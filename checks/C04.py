"""C04: simulation results do not depend on the number of MPI ranks."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import *
from phys import *
import quasi

TRY = {k: ("TrAgree", "run_agree") for k in ("make_phys", "make_auto", "make_wide", "make_quasi")}
SLACK = CONSTS = "CONSTANT Slack = 30"


def make_auto(rng):
    """The program chooses the time step."""
    return make_phys(rng, auto=True, steps=(12, 40))


def make_wide(rng):
    """Materials that exchange fields between blocks and ranks while the forces are evaluated."""
    return make_phys(rng, contact=False, steps=(3, 8), kind=rng.choice(SYNCHRONISED))


def make_quasi(rng):
    """Quasi-static solvers, with a tolerance far below the accuracy of the comparison."""
    m = attempt(rng, quasi.solve)
    sv = dict(m["solver"], tol=1e-12, rel=False, iters=60)
    return dict(deck=quasi.run_deck(m, m["d"]["stages"], sv), files=m["files"], nps=[1, 2, 3, 4])


def run():
    c = Check("C04", assumptions=["values are compared to 1e-5 of the largest value of the field, times and integer-grid scenarios exactly"])
    build()
    c.mc("MCAssemble", "MCAssemble.cfg", workers=NCPU)
    for k in ("Insert", "Nozero", "Oneside"):
        c.refuted("MCAssemble", "MCAssemble%s.cfg" % k, workers=NCPU)
    makes = [generator(g) for g in ("C05", "C06", "C07", "C08", "C11", "C19", "C21")]
    scs = []
    for k in range(300 if THOROUGH else 90):
        sc = attempt(c.rng, makes[k % len(makes)], want=lambda s: len(s["d"]["pts"]) > 2)
        for np_ in (1, 2, 3, 4):
            s = copy.deepcopy(sc)
            s["np"] = s["d"]["ranks"] = np_
            scs.append(s)
    c.conform("TrSim", scs, run_sim)
    k = 4 if THOROUGH else 1
    scs = [attempt(c.rng, f) for f, n in ((make_phys, 60), (make_auto, 18), (make_wide, 27), (make_quasi, 12)) for _ in range(n * k)]
    c.conform("TrAgree", scs, run_agree, consts=SLACK)
    return c.finish()


if __name__ == "__main__":
    main(run, "C04")
