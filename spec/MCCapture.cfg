SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW NoHist
INVARIANTS Right Restored Kept
CONSTANTS
 Threads = {1, 2, 3}
 MaxDepth = 2
 MaxSaid = 3
 Depth = 0
 Algo = "own"
