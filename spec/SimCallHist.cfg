SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
INVARIANTS NoHistory
CONSTANTS
 MaxCalls = 5
 MaxN = 9
 MC = FALSE
