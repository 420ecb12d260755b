SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Chosen Within NoLess
PROPERTY Terminates
CONSTANTS
 MaxCost = 5
 MaxLim = 16
 MaxB = 6
