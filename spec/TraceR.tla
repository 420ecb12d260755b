------------------------------- MODULE TraceR -------------------------------
EXTENDS Trace, TabR
(* Domains for recorded programs: wider than the ones random programs are   *)
(* kept in, because their operations are not composed blindly.              *)
NUnOk(f, x) ==
  CASE f \in {"exp", "exp2", "expm1"} -> RIn(x, RN(-60), RN(12))
    [] f \in {"sinh", "cosh", "softplus", "silu", "logistic", "sigmoid", "tanh"} -> RIn(x, RN(-15), RN(12))
    [] f \in {"log", "sqrt", "rsqrt"} -> RIn(x, RRat(1, 1000), RN(100000))
    [] f \in {"cbrt", "recip", "abs", "sign"} -> RLe(RRat(1, 1000), RAbs(x))
    [] f = "erf" -> RIn(x, RN(-3), RN(3))
    [] OTHER -> RUnOk(f, x)
NBinOk(f, x, y) ==
  CASE f = "div"   -> RLe(RRat(1, 1000), RAbs(y))
    [] f = "pow"   -> RIn(x, RRat(1, 100), RN(100)) /\ RIn(y, RN(-6), RN(6))
    [] f \in {"max", "min"} -> RLe(RRat(1, 1000), RAbs(RSub(x, y)))
    [] f = "logaddexp" -> RIn(RSub(x, y), RN(-20), RN(20))
    [] OTHER -> RBinOk(f, x, y)
NBound(x) == RFinite(x) /\ RLe(RAbs(x), RInt(10000000))
=============================================================================
