SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW NoHist
INVARIANTS TypeOK Nested Restored Latest
PROPERTIES Truthful
CONSTANTS
 Threads = {1, 2, 3}
 MaxDepth = 2
 Depth = 0
 Algo = "shared"
