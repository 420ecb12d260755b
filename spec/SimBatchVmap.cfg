SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxB = 9
 MaxM = 6
 MC = FALSE
