-------------------------------- MODULE R64 --------------------------------
(***************************************************************************)
(* Real numbers for TLC.  A real is represented by the two 32-bit halves   *)
(* of an IEEE-754 double, <<hi, lo>>.  TLC cannot evaluate the standard    *)
(* module Reals; R64.java (compiled next to this file) realises each       *)
(* operator below in double arithmetic.  Nothing else is overridden: jets, *)
(* tensors, masks, chain rules are all plain TLA+.                         *)
(***************************************************************************)
EXTENDS Integers
LOCAL Undef == CHOOSE r \in {} : TRUE
RInt(i)     == Undef   \* the integer i
RRat(p, q)  == Undef   \* p / q for integers p, q
RAdd(a, b)  == Undef
RSub(a, b)  == Undef
RMul(a, b)  == Undef
RDiv(a, b)  == Undef
RNeg(a)     == Undef
RLt(a, b)   == Undef   \* BOOLEAN
RLe(a, b)   == Undef
RFinite(a)  == Undef
RAbs(a)     == Undef
RSqrt(a)    == Undef
RCbrt(a)    == Undef
RExp(a)     == Undef
RLog(a)     == Undef
RSin(a)     == Undef
RCos(a)     == Undef
RTan(a)     == Undef
RAsin(a)    == Undef
RAtan(a)    == Undef
RAtan2(a,b) == Undef
RPow(a, b)  == Undef
RFloor(a)   == Undef   \* a real
RToInt(a)   == Undef   \* truncate to an integer
\* |a - b| <= tol * max(1, scale) with tol = 10^-e
RClose(a, b, scale, e) == Undef
=============================================================================
