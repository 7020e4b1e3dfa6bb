"""C10: a run continued from restart files is the run without the interruption."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from sim import attempt
from restart import *

CONSTS = "CONSTANT Slack = 60"
TRY = {"make": ("TrRestart", run_restart)}
make = make_restart


def run():
    c = Check("C10", assumptions=["explicit dynamics; the runs before and after the interruption use the same number of ranks (1 to 4)",
                                  "results of the two runs are compared to 6e-6 of the size of the field"])
    build()
    c.mc("MCRestart", "MCRestart.cfg", workers=NCPU)
    for w in ("Stale", "Forget", "Anytime", "Partial"):
        c.refuted("MCRestart", "MCRestart%s.cfg" % w, workers=NCPU)
    n = 800 if THOROUGH else 240
    c.conform("TrRestart", [attempt(c.rng, make) for _ in range(n)], run_restart, CONSTS)
    return c.finish()


if __name__ == "__main__":
    main(run, "C10")
