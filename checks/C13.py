"""C13: two-step state - step N holds what step N+1 held before the last update."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from store import *


def scenarios(rng, n):
    return [script(rng, k % 6 == 0, rng.choice([8, 14, 20])) for k in range(n)]


TRY = {"make": ("TrStore", "run_script")}


def run():
    c = Check("C13", assumptions=["field data are observed through the public interface of blocks and data managers",
                                  "after an update the new step may hold the former old step or keep its values"])
    driver("pdstore")
    c.mc("MCStore", "MCStore.cfg", workers=NCPU)
    for k in ("Keep", "Toggle", "Stale"):
        c.refuted("MCStore", "MCStore%s.cfg" % k, workers=NCPU)
    c.conform("TrStore", scenarios(c.rng, 2500 if THOROUGH else 800), run_script)
    return c.finish()


if __name__ == "__main__":
    main(run, "C13")
