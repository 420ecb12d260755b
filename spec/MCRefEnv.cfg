SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS NoMissing Exact Final CountsOk
CONSTANTS
 MaxIn = 2
 MaxEqn = 2
 MaxOut = 2
 MaxArgs = 2
 Calls = TRUE
 SimDepth = 0
