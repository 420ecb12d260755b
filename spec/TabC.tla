------------------------------ MODULE TabC ------------------------------
(* Number system and function tables of FwdLapl: complex numbers; inputs stay real.                          *)
EXTENDS C64, TLC, Sequences
C0 == CInt(0)
C1 == CInt(1)
C2 == CInt(2)
CI == <<RInt(0), RInt(1)>>
CInv(z) == CDiv(C1, z)
CSq(z) == CMul(z, z)

ZUn(f, x) ==
  CASE f = "neg" -> <<CNeg(x), CInt(-1), C0>>
    [] f = "exp" -> LET e == CExp(x) IN <<e, e, e>>
    [] f = "log" -> <<CLog(x), CInv(x), CNeg(CInv(CSq(x)))>>
    [] f = "sin" -> <<CSin(x), CCos(x), CNeg(CSin(x))>>
    [] f = "cos" -> <<CCos(x), CNeg(CSin(x)), CNeg(CCos(x))>>
    [] f = "tanh" -> LET t == CTanh(x)
                         s == CSub(C1, CSq(t)) IN <<t, s, CMul(CMul(CInt(-2), t), s)>>
    [] f = "sqrt" -> LET s == CSqrt(x)
                     IN <<s, CInv(CMul(C2, s)), CNeg(CInv(CMul(CInt(4), CMul(x, s))))>>
    [] f = "rsqrt" -> LET s == CInv(CSqrt(x))
                      IN <<s, CMul(CRat(-1, 2), CDiv(s, x)), CMul(CRat(3, 4), CDiv(s, CSq(x)))>>
    [] f = "sinh" -> LET p == CExp(x)
                         q == CExp(CNeg(x))
                         s == CDiv(CSub(p, q), C2) IN <<s, CDiv(CAdd(p, q), C2), s>>
    [] f = "cosh" -> LET p == CExp(x)
                         q == CExp(CNeg(x))
                         c == CDiv(CAdd(p, q), C2) IN <<c, CDiv(CSub(p, q), C2), c>>
    [] f = "expm1" -> LET e == CExp(x) IN <<CSub(e, C1), e, e>>
    [] f = "log1p" -> LET y == CAdd(C1, x) IN <<CLog(y), CInv(y), CNeg(CInv(CSq(y)))>>
    [] f = "logistic" -> LET s == CInv(CAdd(C1, CExp(CNeg(x))))
                             d == CMul(s, CSub(C1, s)) IN <<s, d, CMul(d, CSub(C1, CMul(C2, s)))>>
    [] f = "recip" -> LET r == CInv(x) IN <<r, CNeg(CSq(r)), CMul(C2, CMul(r, CSq(r)))>>
    [] f = "square" -> <<CSq(x), CMul(C2, x), C2>>
    [] f = "stop" -> <<x, C0, C0>>
    [] f = "id" -> <<x, C1, C0>>
    [] OTHER -> Assert(FALSE, <<"unknown complex unary", f>>)
ZIn(x, lo, hi) == RLe(lo, x) /\ RLe(x, hi)
ZUnOk(f, x) ==
  CASE f \in {"exp", "sin", "cos"} -> ZIn(x[1], RInt(-4), RInt(4)) /\ ZIn(x[2], RInt(-4), RInt(4))
    [] f = "tanh" -> ZIn(x[1], RInt(-3), RInt(3)) /\ ZIn(x[2], RInt(-1), RInt(1))
    [] f \in {"log", "sqrt", "rsqrt"} -> RLe(RRat(1, 50), CAbs2(x)) /\ (RLe(RRat(1, 20), x[1]) \/ RLe(RRat(1, 20), RAbs(x[2])))
    [] f = "recip" -> RLe(RRat(1, 50), CAbs2(x))
    [] OTHER -> TRUE
ZBin(f, x, y) ==
  CASE f = "add" -> <<CAdd(x, y), C1, C1, C0, C0, C0>>
    [] f = "sub" -> <<CSub(x, y), C1, CInt(-1), C0, C0, C0>>
    [] f = "mul" -> <<CMul(x, y), y, x, C0, C1, C0>>
    [] f = "div" -> LET r == CInv(y)
                        q == CMul(x, r)
                    IN <<q, r, CNeg(CMul(q, r)), C0, CNeg(CSq(r)), CMul(C2, CMul(q, CSq(r)))>>
    [] f = "cplx" -> <<CAdd(x, CMul(CI, y)), C1, CI, C0, C0, C0>>
    [] f = "atan2" -> \* of two real numbers
                    LET a == x[1]
                        b == y[1]
                        d == RAdd(RMul(a, a), RMul(b, b))
                        d2 == RMul(d, d)
                        R(v) == <<v, RInt(0)>>
                        m == RDiv(RMul(RInt(2), RMul(a, b)), d2)
                    IN <<R(RAtan2(a, b)), R(RDiv(b, d)), R(RNeg(RDiv(a, d))), R(RNeg(m)),
                         R(RDiv(RSub(RMul(a, a), RMul(b, b)), d2)), R(m)>>
    [] OTHER -> Assert(FALSE, <<"unknown complex binary", f>>)
ZBinOk(f, x, y) == CASE f = "div" -> RLe(RRat(1, 50), CAbs2(y))
                     [] f = "atan2" -> /\ x[2] = RInt(0) /\ y[2] = RInt(0)
                                       /\ RLe(RRat(1, 10), RAdd(RMul(x[1], x[1]), RMul(y[1], y[1])))
                                       /\ (RLe(RRat(1, 20), y[1]) \/ RLe(RRat(1, 20), RAbs(x[1])))
                     [] OTHER -> TRUE
ZKey(z) == z[1]
ZKLt(a, b) == RLe(RAdd(a, RRat(1, 50)), b)
ZBounded(z) == RFinite(z[1]) /\ RFinite(z[2]) /\ RLe(CAbs2(z), RInt(100000000))
ZToInt(z) == RToInt(z[1])
ZRe(z) == <<z[1], RInt(0)>>
ZIm(z) == <<z[2], RInt(0)>>
=============================================================================
