SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Bounded InOrder EachOnce Total
CONSTANTS
 MaxB = 24
 MaxM = 26
 MC = TRUE
