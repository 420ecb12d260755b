SPECIFICATION SpecA
CHECK_DEADLOCK FALSE
CONSTANTS
 NZero <- R0
 NOne <- R1
 NTwo <- R2
 NAdd <- RAdd
 NMul <- RMul
 NNeg <- RNeg
 Un <- RUn
 UnOk <- RUnOk
 Bin <- RBin
 BinOk <- RBinOk
 NKey <- RKey
 KLt <- RKLt
 NBounded <- RBounded
 NToInt <- RToInt
 NConj <- RConj
 NRe <- RConj
 NIm <- RZero
 UnNames <- gUnA
 BinNames <- gBin
 Kinds <- gKindsA
 InputShapes <- gShapesA
 NumV <- gNum
 WeightSet <- gW1
 ConstKinds = {"f"}
 CNumV <- gNum
 Points = 1
 Depth = 5
 BlockLen = 7
 MaxSize = 18
 Full = FALSE
