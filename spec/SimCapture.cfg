SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
INVARIANTS Right Restored
CONSTANTS
 Threads = {1, 2, 3}
 MaxDepth = 2
 MaxSaid = 100
 Depth = 14
 Algo = "own"
