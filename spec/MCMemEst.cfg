SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agrees Exact Bounds
CONSTANTS
 MaxIn = 2
 MaxEqn = 2
 MaxOut = 2
 MaxArgs = 2
 SimDepth = 0
