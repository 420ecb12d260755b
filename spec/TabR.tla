------------------------------ MODULE TabR ------------------------------
(* Number system and function tables of FwdLapl: real numbers (doubles): derivative tables and domains.      *)
EXTENDS R64, TLC, Sequences, SequencesExt
R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RN(i) == RInt(i)
RInv(x) == RDiv(R1, x)
RSq(x) == RMul(x, x)

\* <<f, f', f''>>
RUn(f, x) ==
  CASE f = "neg"   -> <<RNeg(x), RN(-1), R0>>
    [] f = "exp"   -> LET e == RExp(x) IN <<e, e, e>>
    [] f = "exp2"  -> LET l == RLog(R2)
                          e == RExp(RMul(l, x)) IN <<e, RMul(l, e), RMul(RSq(l), e)>>
    [] f = "expm1" -> LET e == RExp(x) IN <<RSub(e, R1), e, e>>
    [] f = "log"   -> <<RLog(x), RInv(x), RNeg(RInv(RSq(x)))>>
    [] f = "log1p" -> LET y == RAdd(R1, x) IN <<RLog(y), RInv(y), RNeg(RInv(RSq(y)))>>
    [] f = "sin"   -> <<RSin(x), RCos(x), RNeg(RSin(x))>>
    [] f = "cos"   -> <<RCos(x), RNeg(RSin(x)), RNeg(RCos(x))>>
    [] f = "tan"   -> LET t == RTan(x)
                          s == RAdd(R1, RSq(t)) IN <<t, s, RMul(RMul(R2, t), s)>>
    [] f = "tanh"  -> LET p == RExp(x)
                          q == RExp(RNeg(x))
                          t == RDiv(RSub(p, q), RAdd(p, q))
                          s == RSub(R1, RSq(t)) IN <<t, s, RMul(RMul(RN(-2), t), s)>>
    [] f = "sinh"  -> LET p == RExp(x)
                          q == RExp(RNeg(x))
                          s == RDiv(RSub(p, q), R2) IN <<s, RDiv(RAdd(p, q), R2), s>>
    [] f = "cosh"  -> LET p == RExp(x)
                          q == RExp(RNeg(x))
                          c == RDiv(RAdd(p, q), R2) IN <<c, RDiv(RSub(p, q), R2), c>>
    [] f \in {"logistic", "sigmoid"} ->
                      LET s == RInv(RAdd(R1, RExp(RNeg(x))))
                          d == RMul(s, RSub(R1, s)) IN <<s, d, RMul(d, RSub(R1, RMul(R2, s)))>>
    [] f = "softplus" ->
                      LET s == RInv(RAdd(R1, RExp(RNeg(x))))
                      IN <<RLog(RAdd(R1, RExp(x))), s, RMul(s, RSub(R1, s))>>
    [] f = "silu"  -> LET s == RInv(RAdd(R1, RExp(RNeg(x))))
                          d == RMul(s, RSub(R1, s))
                          e == RMul(d, RSub(R1, RMul(R2, s)))
                      IN <<RMul(x, s), RAdd(s, RMul(x, d)), RAdd(RMul(R2, d), RMul(x, e))>>
    [] f = "sqrt"  -> LET s == RSqrt(x)
                      IN <<s, RInv(RMul(R2, s)), RNeg(RInv(RMul(RN(4), RMul(x, s))))>>
    [] f = "rsqrt" -> LET s == RInv(RSqrt(x))
                      IN <<s, RMul(RRat(-1, 2), RDiv(s, x)), RMul(RRat(3, 4), RDiv(s, RSq(x)))>>
    [] f = "cbrt"  -> LET c == RCbrt(x)
                          c2 == RSq(c)
                      IN <<c, RInv(RMul(RN(3), c2)), RDiv(RRat(-2, 9), RMul(c2, x))>>
    [] f = "recip" -> LET r == RInv(x) IN <<r, RNeg(RSq(r)), RMul(R2, RMul(r, RSq(r)))>>
    [] f = "square"-> <<RSq(x), RMul(R2, x), R2>>
    [] f = "asin"  -> LET d == RSub(R1, RSq(x))
                          s == RSqrt(d) IN <<RAsin(x), RInv(s), RDiv(x, RMul(d, s))>>
    [] f = "acos"  -> LET d == RSub(R1, RSq(x))
                          s == RSqrt(d)
                      IN <<RSub(RMul(R2, RAtan(R1)), RSub(RAsin(x), R0)), RNeg(RInv(s)), RNeg(RDiv(x, RMul(d, s)))>>
    [] f = "atan"  -> LET d == RInv(RAdd(R1, RSq(x)))
                      IN <<RAtan(x), d, RMul(RMul(RN(-2), x), RSq(d))>>
    [] f \in {"abs", "cabs"} -> IF RLt(x, R0) THEN <<RNeg(x), RN(-1), R0>> ELSE <<x, R1, R0>>
    [] f = "relu"  -> IF RLt(x, R0) THEN <<R0, R0, R0>> ELSE <<x, R1, R0>>
    [] f = "clip"  -> \* clip to [-1/2, 1/2]
                      IF RLt(x, RRat(-1, 2)) THEN <<RRat(-1, 2), R0, R0>>
                      ELSE IF RLt(RRat(1, 2), x) THEN <<RRat(1, 2), R0, R0>> ELSE <<x, R1, R0>>
    [] f = "sign"  -> <<IF RLt(x, R0) THEN RN(-1) ELSE R1, R0, R0>>
    [] f = "stop"  -> <<x, R0, R0>>
    [] f = "gt0"   -> <<IF RLt(R0, x) THEN R1 ELSE R0, R0, R0>>
    [] f = "toint" -> <<RInt(RToInt(x)), R0, R0>>
    [] f = "floor" -> <<RFloor(x), R0, R0>>
    [] f = "erf"   -> \* only its derivatives are elementary; value by series
                      LET c == RDiv(R2, RSqrt(RMul(RN(4), RAtan(R1))))
                          d == RMul(c, RExp(RNeg(RSq(x))))
                          \* <<term x^(2n+1)(-1)^n/n!, partial sum>>
                          S == FoldLeft(LAMBDA acc, n :
                                 LET t == RMul(acc[1], RDiv(RNeg(RSq(x)), RN(n)))
                                 IN  <<t, RAdd(acc[2], RDiv(t, RN(2*n + 1)))>>,
                               <<x, x>>, [n \in 1..70 |-> n])
                      IN <<RMul(c, S[2]), d, RMul(RMul(RN(-2), x), d)>>
    [] f = "custom" -> \* x * sin(x), with a custom derivative rule in the program
                      LET s == RSin(x)
                          c == RCos(x) IN <<RMul(x, s), RAdd(s, RMul(x, c)), RSub(RMul(R2, c), RMul(x, s))>>
    [] f = "id"    -> <<x, R1, R0>>
    [] OTHER -> Assert(FALSE, <<"unknown unary", f>>)

RIn(x, lo, hi) == RLe(lo, x) /\ RLe(x, hi)
RUnOk(f, x) ==
  CASE f \in {"exp", "exp2", "expm1", "sinh", "cosh", "softplus", "silu", "logistic", "sigmoid", "tanh"}
                 -> RIn(x, RN(-6), RN(5))
    [] f \in {"log", "sqrt", "rsqrt"} -> RIn(x, RRat(1, 20), RN(1000))
    [] f = "log1p" -> RIn(x, RRat(-9, 10), RN(1000))
    [] f \in {"asin", "acos"} -> RIn(x, RRat(-9, 10), RRat(9, 10))
    [] f = "tan"   -> RLe(RRat(3, 10), RAbs(RCos(x))) /\ RIn(x, RN(-20), RN(20))
    [] f \in {"sin", "cos", "custom"} -> RIn(x, RN(-20), RN(20))
    [] f \in {"cbrt", "recip", "abs", "cabs", "relu", "sign", "gt0"} -> RLe(RRat(1, 20), RAbs(x)) /\ RIn(x, RN(-1000), RN(1000))
    [] f = "clip"  -> /\ RLe(RRat(1, 50), RAbs(RSub(x, RRat(1, 2))))
                      /\ RLe(RRat(1, 50), RAbs(RAdd(x, RRat(1, 2))))
    [] f = "erf"   -> RIn(x, RN(-2), RN(2))
    [] f \in {"toint", "floor"} -> RIn(x, RN(-50), RN(50)) /\ LET d == RSub(x, RFloor(x)) IN RIn(d, RRat(1, 50), RRat(49, 50))
    [] OTHER -> RIn(x, RN(-1000), RN(1000))

\* <<f, fx, fy, fxx, fxy, fyy>>
RBin(f, x, y) ==
  CASE f = "add" -> <<RAdd(x, y), R1, R1, R0, R0, R0>>
    [] f = "sub" -> <<RSub(x, y), R1, RN(-1), R0, R0, R0>>
    [] f = "mul" -> <<RMul(x, y), y, x, R0, R1, R0>>
    [] f = "div" -> LET r == RInv(y)
                        q == RMul(x, r)
                    IN <<q, r, RNeg(RMul(q, r)), R0, RNeg(RSq(r)), RMul(R2, RMul(q, RSq(r)))>>
    [] f = "pow" -> LET p == RPow(x, y)
                        l == RLog(x)
                        px == RDiv(p, x)
                    IN <<p, RMul(y, px), RMul(l, p), RMul(RMul(y, RSub(y, R1)), RDiv(px, x)),
                         RMul(px, RAdd(R1, RMul(y, l))), RMul(RSq(l), p)>>
    [] f = "atan2" -> \* atan2(x, y) = arg(y + i x)
                    LET d == RAdd(RSq(x), RSq(y))
                        d2 == RSq(d)
                    IN <<RAtan2(x, y), RDiv(y, d), RNeg(RDiv(x, d)),
                         RDiv(RMul(RN(-2), RMul(x, y)), d2), RDiv(RSub(RSq(x), RSq(y)), d2),
                         RDiv(RMul(R2, RMul(x, y)), d2)>>
    [] f = "max" -> IF RLt(x, y) THEN <<y, R0, R1, R0, R0, R0>> ELSE <<x, R1, R0, R0, R0, R0>>
    [] f = "min" -> IF RLt(y, x) THEN <<y, R0, R1, R0, R0, R0>> ELSE <<x, R1, R0, R0, R0, R0>>
    [] f = "logaddexp" ->
                    LET p == RInv(RAdd(R1, RExp(RSub(y, x))))
                        q == RSub(R1, p)
                        h == RMul(p, q)
                    IN <<RAdd(x, RLog(RAdd(R1, RExp(RSub(y, x))))), p, q, h, RNeg(h), h>>
    [] OTHER -> Assert(FALSE, <<"unknown binary", f>>)
RBinOk(f, x, y) ==
  CASE f = "div"   -> RLe(RRat(1, 10), RAbs(y))
    [] f = "pow"   -> RIn(x, RRat(1, 10), RN(4)) /\ RIn(y, RN(-3), RN(3))
    [] f = "atan2" -> RLe(RRat(1, 10), RAdd(RSq(x), RSq(y))) /\ (RLe(RRat(1, 20), y) \/ RLe(RRat(1, 20), RAbs(x)))
    [] f \in {"max", "min"} -> RLe(RRat(1, 50), RAbs(RSub(x, y)))
    [] f = "logaddexp" -> RIn(RSub(x, y), RN(-5), RN(5))
    [] OTHER -> TRUE

RKey(x) == x
RKLt(a, b) == RLe(RAdd(a, RRat(1, 50)), b)
RBounded(x) == RFinite(x) /\ RLe(RAbs(x), RInt(20000))
RConj(x) == x
RZero(x) == R0
=============================================================================
