SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
INVARIANTS NoMissing Exact Final CountsOk
CONSTANTS
 MaxIn = 3
 MaxEqn = 7
 MaxOut = 3
 MaxArgs = 3
 Calls = TRUE
 SimDepth = 2
