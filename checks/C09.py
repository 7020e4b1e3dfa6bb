"""C09: internal forces balance, vanish for rigid motion and obey the material law."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from force import *


def scenarios(rng, n):
    return [make(rng) for _ in range(n)]


TRY = {"make": ("TrForce", "run_force")}


def run():
    c = Check("C09", assumptions=["forces are compared to about 0.5 % of the sum of the bond forces of a point",
                                  "materials: Elastic, Elastic Plastic far below yield, Elastic Bond Based (also plane)"])
    build()
    c.mc("MCForce", "MCForce.cfg", workers=NCPU)
    c.refuted("MCForce", "MCForceOwn.cfg", workers=NCPU)
    c.refuted("MCForce", "MCForceOneside.cfg", workers=NCPU)
    c.mc("MCAssemble", "MCAssemble.cfg", workers=NCPU)
    c.conform("TrForce", scenarios(c.rng, 1500 if THOROUGH else 450), run_force)
    return c.finish()


if __name__ == "__main__":
    main(run, "C09")
