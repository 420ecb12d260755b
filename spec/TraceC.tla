------------------------------- MODULE TraceC -------------------------------
(* Recorded programs that pass through complex numbers; inputs are real.     *)
EXTENDS Trace, TabC
NUnOk(f, x) ==
  CASE f \in {"exp", "sin", "cos", "sinh", "cosh", "expm1"} -> ZIn(x[1], RInt(-10), RInt(8)) /\ ZIn(x[2], RInt(-30), RInt(30))
    [] f \in {"log", "sqrt", "rsqrt", "log1p"} ->
         LET z == IF f = "log1p" THEN CAdd(C1, x) ELSE x
         IN  RLe(RRat(1, 1000), CAbs2(z)) /\ (RLe(RRat(1, 1000), z[1]) \/ RLe(RRat(1, 1000), RAbs(z[2])))
    [] f = "recip" -> RLe(RRat(1, 1000), CAbs2(x))
    [] OTHER -> ZUnOk(f, x)
NBinOk(f, x, y) ==
  CASE f = "div" -> RLe(RRat(1, 1000), CAbs2(y))
    [] OTHER -> ZBinOk(f, x, y)
NBound(x) == RFinite(x[1]) /\ RFinite(x[2]) /\ RLe(CAbs2(x), RInt(100000000))
=============================================================================
