SPECIFICATION SpecSim
CHECK_DEADLOCK FALSE
CONSTANTS
 Names = {"fa", "fb", "fc", "neg"}
 RuleIds = {"r1", "r2", "r3"}
 Depth = 12
 ProgDepth = 2
