"""C18: the tangent stiffness is the derivative of the residual, row by row."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from tangent import *


def scenarios(rng, n):
    return [make(rng) for _ in range(n)]


CONSTS = "CONSTANT Slack = 30"
TRY = {"make": ("TrTangent", "run_tangent")}


def run():
    c = Check("C18", assumptions=["the derivative is taken from central differences of the program's own internal force, whose values C06 "
                                  "and C05 decide; tangents of quasi-static runs are compared at small loads, as they belong to the iterate "
                                  "before the last"])
    driver("pdtangent")
    c.mc("MCTangent", "MCTangent.cfg", workers=NCPU)
    for d in ("Drop", "Stale", "Rows", "Owncols", "Early"):
        c.refuted("MCTangent", "MCTangent%s.cfg" % d, workers=NCPU)
    c.conform("TrTangent", scenarios(c.rng, 4000 if THOROUGH else 1200), run_tangent, CONSTS)
    c.finding("partial-volume", "TrTangent", partial_volume(), run_tangent, CONSTS)
    return c.finish()


if __name__ == "__main__":
    main(run, "C18")
