SPECIFICATION SpecGiven
CHECK_DEADLOCK FALSE
INVARIANTS ChosenGiven Within NoLess
CONSTANTS
 MaxCost = 5
 MaxLim = 16
 MaxB = 6
