SPECIFICATION Spec
CONSTANTS N = 4
          L = 4
          MaxH = 2
          Ranks = 3
          Reach = "own"
          Frames = "closed"
INVARIANTS Complete Symmetric
CHECK_DEADLOCK FALSE
