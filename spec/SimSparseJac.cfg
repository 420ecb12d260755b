SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
INVARIANTS WellFormed Commutes
CONSTANTS
 N = 4
 Ms = {1, 2, 4, 6}
 MaxK = 5
 MaxOps = 6
 MaxQ = 6
