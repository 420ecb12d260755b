SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS
 NZero <- C0
 NOne <- C1
 NTwo <- C2
 NAdd <- CAdd
 NMul <- CMul
 NNeg <- CNeg
 Un <- ZUn
 UnOk <- NUnOk
 Bin <- ZBin
 BinOk <- NBinOk
 NKey <- ZKey
 KLt <- ZKLt
 NBounded <- NBound
 NToInt <- ZToInt
 NConj <- CConj
 NRe <- ZRe
 NIm <- ZIm
 MaxElems <- NMax
 Full = FALSE
