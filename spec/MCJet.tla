-------------------------------- MODULE MCJet --------------------------------
(***************************************************************************)
(* The propagation rules of module Jet against the definition of what they *)
(* propagate.  A state holds polynomials in N variables (coefficients by   *)
(* exponents) together with their triplets, once with the Laplacian and    *)
(* once with the whole Hessian.  Every step combines them by sums,         *)
(* products, linear maps, polynomials of one value (JUn) or of two values  *)
(* (JBin).  Value, gradient, Hessian and weighted Laplacian obtained by    *)
(* differentiating the polynomial term by term must be the triplet.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Xs, Ws, Steps, MaxDeg, MaxTerms
N == 2
Add(a, b) == a + b
Mul(a, b) == a * b
L == INSTANCE Jet WITH NZero <- 0, NOne <- 1, NTwo <- 2, NAdd <- Add, NMul <- Mul, Full <- FALSE
H == INSTANCE Jet WITH NZero <- 0, NOne <- 1, NTwo <- 2, NAdd <- Add, NMul <- Mul, Full <- TRUE
VARIABLES pt, vals, k
vars == <<pt, vals, k>>     \* pt = [x, w], vals = sequence of [p, l, h]

\* polynomials: functions from exponent pairs with non-zero coefficients
Dom(p) == DOMAIN p
Coef(p, e) == IF e \in Dom(p) THEN p[e] ELSE 0
Tidy(S, F(_)) == LET D == {e \in S : F(e) # 0} IN [e \in D |-> F(e)]
PConst(c) == Tidy({<<0, 0>>}, LAMBDA e : c)
PVar(i) == [e \in {IF i = 1 THEN <<1, 0>> ELSE <<0, 1>>} |-> 1]
PAdd(p, q) == Tidy(Dom(p) \cup Dom(q), LAMBDA e : Coef(p, e) + Coef(q, e))
PScale(c, p) == Tidy(Dom(p), LAMBDA e : c * p[e])
SumOver(S, F(_)) == FoldSet(LAMBDA s, acc : acc + F(s), 0, S)
PMul(p, q) == Tidy({<<a[1] + b[1], a[2] + b[2]>> : a \in Dom(p), b \in Dom(q)},
                   LAMBDA e : SumOver(Dom(p), LAMBDA a : p[a] * Coef(q, <<e[1] - a[1], e[2] - a[2]>>)))
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
PEval(p, x) == SumOver(Dom(p), LAMBDA e : p[e] * Pw(x[1], e[1]) * Pw(x[2], e[2]))
PD(p, i) == Tidy({[e EXCEPT ![i] = @ - 1] : e \in {d \in Dom(p) : d[i] > 0}},
                 LAMBDA e : (e[i] + 1) * Coef(p, [e EXCEPT ![i] = @ + 1]))
Deg(p) == LET S == {e[1] + e[2] : e \in Dom(p)} \cup {0} IN CHOOSE m \in S : \A s \in S : s <= m

\* functions of one value: a y^2 + b y + c, y^3;  of two values: y z, y + b z, y^2 z + z
UnFs == {"sq", "cube", "aff"}
U(f, y) == CASE f = "sq" -> <<y * y, 2 * y, 2>> [] f = "cube" -> <<y * y * y, 3 * y * y, 6 * y>> [] f = "aff" -> <<3 - 2 * y, -2, 0>>
UP(f, p) == CASE f = "sq" -> PMul(p, p) [] f = "cube" -> PMul(p, PMul(p, p)) [] f = "aff" -> PAdd(PConst(3), PScale(-2, p))
BinFs == {"mul", "lin", "mix"}
B(f, y, z) == CASE f = "mul" -> <<y * z, z, y, 0, 1, 0>> [] f = "lin" -> <<y - 3 * z, 1, -3, 0, 0, 0>>
                [] f = "mix" -> <<y * y * z + z * z, 2 * y * z, y * y + 2 * z, 2 * z, 2 * y, 2>>
BP(f, p, q) == CASE f = "mul" -> PMul(p, q) [] f = "lin" -> PAdd(p, PScale(-3, q)) [] f = "mix" -> PAdd(PMul(PMul(p, p), q), PMul(q, q))

Neg(a) == -a
Entry(p, l, h) == [p |-> p, l |-> l, h |-> h]
Init == /\ pt \in [x : Xs \X Xs, w : Ws \X Ws] /\ k = 0
        /\ vals = << Entry(PVar(1), L!JInput(N, 1, pt.x[1], pt.w[1]), H!JInput(N, 1, pt.x[1], pt.w[1])),
                     Entry(PVar(2), L!JInput(N, 2, pt.x[2], pt.w[2]), H!JInput(N, 2, pt.x[2], pt.w[2])),
                     Entry(PConst(2), L!JConst(N, 2), H!JConst(N, 2)) >>
Push(e) == Deg(e.p) <= MaxDeg /\ Cardinality(Dom(e.p)) <= MaxTerms /\ vals' = Append(vals, e)
Next == /\ k < Steps /\ k' = k + 1 /\ pt' = pt
        /\ \E i \in DOMAIN vals : LET a == vals[i] IN
             \/ \E f \in UnFs : Push(Entry(UP(f, a.p), L!JUn(U(f, a.l.v), a.l), H!JUn(U(f, a.h.v), a.h)))
             \/ Push(Entry(PScale(-1, a.p), L!JLin(Neg, a.l), H!JLin(Neg, a.h)))
             \/ \E j \in DOMAIN vals : LET b == vals[j] IN
                  \/ \E f \in BinFs : Push(Entry(BP(f, a.p, b.p), L!JBin(B(f, a.l.v, b.l.v), a.l, b.l), H!JBin(B(f, a.h.v, b.h.v), a.h, b.h)))
                  \/ Push(Entry(PAdd(a.p, b.p), L!JAdd(a.l, b.l), H!JAdd(a.h, b.h)))
                  \/ Push(Entry(PMul(a.p, b.p), L!JMul(a.l, b.l), H!JMul(a.h, b.h)))
Spec == Init /\ [][Next]_vars
Last2 == vals[Len(vals)]
Values == Last2.l.v = PEval(Last2.p, pt.x) /\ Last2.h.v = Last2.l.v
Gradients == \A i \in 1..N : Last2.l.g[i] = pt.w[i] * PEval(PD(Last2.p, i), pt.x) /\ Last2.h.g[i] = Last2.l.g[i]
Hessians == \A i, j \in 1..N : Last2.h.l[i][j] = pt.w[i] * pt.w[j] * PEval(PD(PD(Last2.p, i), j), pt.x)
Laplacians == Last2.l.l = SumOver(1..N, LAMBDA i : pt.w[i] * pt.w[i] * PEval(PD(PD(Last2.p, i), i), pt.x))
Traces == Last2.l.l = H!LTrace(Last2.h.l)
cXs == {-1, 2}
cXs2 == {-2, -1, 0, 1, 3}
cWs == {1, 3}
=============================================================================
