SPECIFICATION Spec
CONSTANTS Mats = {"lps", "bb"} Infl = {"Parabolic Decay"} Design = "own volume"
INVARIANTS Conserved RigidFree Silent
CHECK_DEADLOCK FALSE
