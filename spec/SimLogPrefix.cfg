SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
CONSTANTS
 Threads = {1, 2, 3}
 MaxDepth = 3
 Depth = 14
 Algo = "shared"
