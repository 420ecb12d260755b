SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Exact Bounds
CONSTANTS
 MaxIn = 4
 MaxEqn = 7
 MaxOut = 3
 MaxArgs = 3
 SimDepth = 2
