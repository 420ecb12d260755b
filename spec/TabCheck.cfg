SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Grid <- gGrid
 Step = 2048
INVARIANTS OkUn OkBin OkUnC OkBinC
