SPECIFICATION SpecMC
CHECK_DEADLOCK FALSE
INVARIANTS WellFormed Commutes
CONSTANTS
 N = 3
 Ms = {1}
 MaxK = 2
 MaxOps = 2
 MaxQ = 2
