SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 NZero <- R0
 NOne <- R1
 NTwo <- R2
 NAdd <- RAdd
 NMul <- RMul
 NNeg <- RNeg
 Un <- RUn
 UnOk <- NUnOk
 Bin <- RBin
 BinOk <- NBinOk
 NKey <- RKey
 KLt <- RKLt
 NBounded <- NBound
 NToInt <- RToInt
 NConj <- RConj
 NRe <- RConj
 NIm <- RZero
 MaxElems <- NMax
 Full = FALSE
