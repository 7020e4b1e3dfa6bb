"""C16: inconsistent input is rejected."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from badinput import *
from sim import attempt

TRY = {"make_deck": ("TrDeck", "run_deck")}


def run():
    c = Check("C16", assumptions=["decks are drawn from a catalogue of sections; parameters that the program ignores are not judged"])
    build()
    for w in ("", "Agree"):
        c.mc("MCReject", "MCReject%s.cfg" % w)
    for w in ("Leave", "Master", "Mute", "Late"):
        c.refuted("MCReject", "MCReject%s.cfg" % w)
    c.conform("TrDeck", [attempt(c.rng, make_deck) for _ in range(4000 if THOROUGH else 1400)], run_deck)
    return c.finish()


if __name__ == "__main__":
    main(run, "C16")
