"""C12: quasi-static load stepping."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from quasi import *

CONSTS = 'CONSTANT Design = "right"'
TRY = {k: ("TrQuasi", "run_quasi") for k in ("ladder", "solve", "strain")}


def run():
    c = Check("C12", assumptions=["convergence is judged by the residual at the reported displacements, evaluated again by an explicit run",
                                  "materials with history are judged by the reported forces only"])
    build()
    c.mc("MCQuasi", "MCQuasi.cfg", workers=NCPU)
    for w in ("Overshoot", "Forget", "Noreset"):
        c.refuted("MCQuasi", "MCQuasi%s.cfg" % w, workers=NCPU)
    k = 3 if THOROUGH else 1
    for make, n in ((ladder, 160), (solve, 80), (strain, 120)):
        c.conform("TrQuasi", [attempt(c.rng, make) for _ in range(n * k)], run_quasi, CONSTS, label=make.__name__)
    return c.finish()


if __name__ == "__main__":
    main(run, "C12")
