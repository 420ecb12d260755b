SPECIFICATION SpecH
CHECK_DEADLOCK FALSE
CONSTANTS
 NZero <- C0
 NOne <- C1
 NTwo <- C2
 NAdd <- CAdd
 NMul <- CMul
 NNeg <- CNeg
 Un <- ZUn
 UnOk <- ZUnOk
 Bin <- ZBin
 BinOk <- ZBinOk
 NKey <- ZKey
 KLt <- ZKLt
 NBounded <- ZBounded
 NToInt <- ZToInt
 NConj <- CConj
 NRe <- ZRe
 NIm <- ZIm
 UnNames <- gUnHol
 BinNames <- gBin
 Kinds <- gKindsHol
 InputShapes <- gShapes
 NumV <- gNum
 WeightSet <- gW1
 ConstKinds = {"f", "f2", "c"}
 CNumV <- gCNum
 Points = 1
 Depth = 10
 MaxSize = 16
 Full = TRUE
