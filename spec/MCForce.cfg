SPECIFICATION Spec
CONSTANTS Mats = {"lps", "bb"} Infl = {"Parabolic Decay"} Design = "good"
INVARIANTS Conserved RigidFree Silent
CHECK_DEADLOCK FALSE
