SPECIFICATION SpecMC
CHECK_DEADLOCK FALSE
INVARIANTS NoHistory OnlyGood Laws
CONSTANTS
 MaxCalls = 2
 MaxN = 3
 MC = TRUE
