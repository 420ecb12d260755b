SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW NoHist
INVARIANTS TypeOK LatestRule Local Restored Shadow Undo
CONSTANTS
 Names = {"fa", "fb", "fc", "neg"}
 RuleIds = {"r1", "r2", "r3"}
 Depth = 6
 ProgDepth = 2
