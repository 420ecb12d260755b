------------------------------ MODULE TabCheck ------------------------------
(***************************************************************************)
(* The derivative tables of TabR and TabC against finite differences of    *)
(* fourth order of the tabulated values and first derivatives, at a grid   *)
(* of points; complex functions along the real and the imaginary axis.     *)
(***************************************************************************)
EXTENDS TabR
Z == INSTANCE TabC
CONSTANTS Grid, Step     \* points are multiples p / 16
VARIABLES f, x, y
vars == <<f, x, y>>
Un1 == {"neg", "exp", "exp2", "expm1", "log", "log1p", "sin", "cos", "tan", "tanh", "sinh", "cosh", "logistic", "sigmoid", "softplus",
        "silu", "sqrt", "rsqrt", "cbrt", "recip", "square", "asin", "acos", "atan", "abs", "relu", "clip", "sign", "gt0", "toint", "floor",
        "erf", "custom", "id"}
Bin1 == {"add", "sub", "mul", "div", "pow", "atan2", "max", "min", "logaddexp"}
UnC == {"neg", "exp", "log", "sin", "cos", "tanh", "sqrt", "recip", "square", "id"}
BinC == {"add", "sub", "mul", "div", "cplx"}
P(i) == RRat(i, 16)
H == RRat(1, Step)
Init == /\ x \in Grid /\ y \in Grid
        /\ f \in ({"un"} \X Un1) \cup ({"bin"} \X Bin1) \cup ({"cun"} \X UnC) \cup ({"cbin"} \X BinC)
        /\ (f[1] = "un" => y = x)
Spec == Init /\ [][FALSE]_vars
\* (8 (g(1) - g(-1)) - (g(2) - g(-2))) / 12 h
Diff(g(_)) == RDiv(RSub(RMul(RInt(8), RSub(g(1), g(-1))), RSub(g(2), g(-2))), RMul(RInt(12), H))
CDiff(g(_)) == << Diff(LAMBDA s : g(s)[1]), Diff(LAMBDA s : g(s)[2]) >>
Near(a, b) == RClose(a, b, RMul(RInt(10), RAdd(RAbs(a), RAbs(b))), 6)
CNear(a, b) == LET s == RMul(RInt(10), RAdd(RAdd(RAbs(a[1]), RAbs(a[2])), RAdd(RAbs(b[1]), RAbs(b[2])))) IN RClose(a[1], b[1], s, 6) /\ RClose(a[2], b[2], s, 6)
At(v, s) == RAdd(v, RMul(RInt(s), H))
S5 == {-2, -1, 0, 1, 2}
OkUn == f[1] = "un" => LET n == f[2]
                           a == P(x) IN
  (\A s \in S5 : RUnOk(n, At(a, s))) =>
     /\ Near(Diff(LAMBDA s : RUn(n, At(a, s))[1]), RUn(n, a)[2])
     /\ Near(Diff(LAMBDA s : RUn(n, At(a, s))[2]), RUn(n, a)[3])
OkBin == f[1] = "bin" => LET n == f[2]
                             a == P(x)
                             b == P(y)
                             D1(i) == Diff(LAMBDA s : RBin(n, At(a, s), b)[i])
                             D2(i) == Diff(LAMBDA s : RBin(n, a, At(b, s))[i])
                             t == RBin(n, a, b) IN
  (\A s \in S5 : RBinOk(n, At(a, s), b) /\ RBinOk(n, a, At(b, s))) =>
     /\ Near(D1(1), t[2]) /\ Near(D2(1), t[3])
     /\ Near(D1(2), t[4]) /\ Near(D2(2), t[5]) /\ Near(D1(3), t[5]) /\ Near(D2(3), t[6])
\* complex points x + i y; one step along direction d
CAt(z, s, d) == IF d = 1 THEN << At(z[1], s), z[2] >> ELSE << z[1], At(z[2], s) >>
Dir(z, d) == IF d = 1 THEN z ELSE Z!CMulI(z)
OkUnC == f[1] = "cun" => LET n == f[2]
                             z == << P(x), P(y) >> IN
  \A d \in {1, 2} : (\A s \in S5 : Z!ZUnOk(n, CAt(z, s, d))) =>
     /\ CNear(CDiff(LAMBDA s : Z!ZUn(n, CAt(z, s, d))[1]), Dir(Z!ZUn(n, z)[2], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZUn(n, CAt(z, s, d))[2]), Dir(Z!ZUn(n, z)[3], d))
\* second argument: a rotated copy of the first
OkBinC == f[1] = "cbin" => LET n == f[2]
                               z == << P(x), P(y) >>
                               w == << P(y + 3), P(2 - x) >>
                               t == Z!ZBin(n, z, w) IN
  \A d \in {1, 2} : (\A s \in S5 : Z!ZBinOk(n, CAt(z, s, d), w) /\ Z!ZBinOk(n, z, CAt(w, s, d))) =>
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, CAt(z, s, d), w)[1]), Dir(t[2], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, z, CAt(w, s, d))[1]), Dir(t[3], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, CAt(z, s, d), w)[2]), Dir(t[4], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, z, CAt(w, s, d))[2]), Dir(t[5], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, CAt(z, s, d), w)[3]), Dir(t[5], d))
     /\ CNear(CDiff(LAMBDA s : Z!ZBin(n, z, CAt(w, s, d))[3]), Dir(t[6], d))
gGrid == {-57, -40, -29, -23, -17, -11, -7, -5, -3, -2, 1, 2, 3, 4, 6, 9, 11, 14, 19, 22, 27, 35, 50, 60}
gGrid2 == -70..70
=============================================================================
