-------------------------------- MODULE C64 --------------------------------
(* Complex numbers as pairs <<re, im>> of R64 reals; all of it plain TLA+. *)
EXTENDS R64
Z0        == RInt(0)
C(re, im) == <<re, im>>
CRe(a)    == a[1]
CIm(a)    == a[2]
CReal(r)  == <<r, Z0>>
CInt(i)   == <<RInt(i), Z0>>
CRat(p,q) == <<RRat(p,q), Z0>>
CAdd(a,b) == <<RAdd(a[1],b[1]), RAdd(a[2],b[2])>>
CSub(a,b) == <<RSub(a[1],b[1]), RSub(a[2],b[2])>>
CNeg(a)   == <<RNeg(a[1]), RNeg(a[2])>>
CMul(a,b) == <<RSub(RMul(a[1],b[1]), RMul(a[2],b[2])),
               RAdd(RMul(a[1],b[2]), RMul(a[2],b[1]))>>
CConj(a)  == <<a[1], RNeg(a[2])>>
CAbs2(a)  == RAdd(RMul(a[1],a[1]), RMul(a[2],a[2]))
CDiv(a,b) == LET n == CMul(a, CConj(b))
                 m == CAbs2(b)
             IN  <<RDiv(n[1], m), RDiv(n[2], m)>>
CAbs(a)   == RSqrt(CAbs2(a))
CExp(a)   == LET m == RExp(a[1]) IN <<RMul(m, RCos(a[2])), RMul(m, RSin(a[2]))>>
CLog(a)   == <<RMul(RRat(1,2), RLog(CAbs2(a))), RAtan2(a[2], a[1])>>
CMulI(a)  == <<RNeg(a[2]), a[1]>>
CHalf(a)  == <<RMul(a[1], RRat(1,2)), RMul(a[2], RRat(1,2))>>
\* sin z = (e^{iz} - e^{-iz}) / 2i ; cos z = (e^{iz} + e^{-iz}) / 2
CSin(a)   == LET p == CExp(CMulI(a))
                 q == CExp(CNeg(CMulI(a)))
             IN  CNeg(CMulI(CHalf(CSub(p, q))))
CCos(a)   == LET p == CExp(CMulI(a))
                 q == CExp(CNeg(CMulI(a)))
             IN  CHalf(CAdd(p, q))
CTanh(a)  == LET p == CExp(a)
                 q == CExp(CNeg(a))
             IN  CDiv(CSub(p, q), CAdd(p, q))
CSqrt(a)  == CExp(CHalf(CLog(a)))
=============================================================================
