------------------------------ MODULE FwdLapl ------------------------------
(***************************************************************************)
(* The forward Laplacian as a state machine over array programs.           *)
(*                                                                         *)
(* A tensor is a record                                                    *)
(*   sh   shape            e    sequence of jets (module Jet), row-major   *)
(*   dep  does it carry derivatives at all (FALSE: a plain array)          *)
(*   dt   "f" | "c" | "b" | "i"                                            *)
(* A state of the machine is the environment env (sequence of tensors);    *)
(* one transition executes one operation record op:                        *)
(*   o  operation, f  function name, a  argument positions in env,         *)
(*   k  sequence of integer-valued parameters, c  sequence of numbers      *)
(* Apply(op, env) is the tensor (or tensors) the operation appends and     *)
(* Enabled(op, env) says whether it is well-formed and far enough from     *)
(* singularities, kinks and overflow for its derivatives to be meaningful. *)
(*                                                                         *)
(* The second half is the *representation* model: which inputs an element  *)
(* may depend on structurally (support), and, per sparsity threshold,      *)
(* whether the Jacobian must be stored sparse or dense and how wide a      *)
(* sparse one may be.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Shapes, TLC
CONSTANTS NZero, NOne, NTwo, NAdd(_,_), NMul(_,_), NNeg(_),
          Un(_,_),          \* Un(f, x)     = <<f, f', f''>>
          UnOk(_,_),        \* is f smooth around x
          Bin(_,_,_),       \* Bin(f, x, y) = <<f, fx, fy, fxx, fxy, fyy>>
          BinOk(_,_,_),
          NKey(_),          \* order-comparable real key of a number
          KLt(_,_),         \* order on keys with a safety gap
          NBounded(_),      \* magnitude check used for every produced number
          NToInt(_),        \* truncation to an integer
          NConj(_), NRe(_), NIm(_),
          Full              \* carry whole Hessians (see Jet)

J == INSTANCE Jet

NN(t) == Len(t.e)

----------------------------------------------------------------------------
(* helpers *)
Tensor(sh, e, dep, dt) == [sh |-> sh, e |-> e, dep |-> dep, dt |-> dt]
AnyDep(op, env) == \E i \in DOMAIN op.a : env[op.a[i]].dep
OutDt(op, env) == IF \E i \in DOMAIN op.a : env[op.a[i]].dt = "c" THEN "c" ELSE env[op.a[1]].dt
Drop(j) == [v |-> j.v, g |-> [i \in DOMAIN j.g |-> NZero], l |-> J!LZero(Len(j.g))]
ConstJet(n, x) == J!JConst(n, x)
NVars(env) == LET i == IF env[1].e # << >> THEN 1 ELSE CHOOSE i \in DOMAIN env : env[i].e # << >> IN Len(env[i].e[1].g)

FoldJ(F(_,_), s) == LET r[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE F(r[i-1], s[i])
                    IN  r[Len(s)]
JSum(s)  == FoldJ(J!JAdd, s)
JProd(s) == FoldJ(J!JMul, s)
ArgMax(s) == CHOOSE i \in DOMAIN s : \A q \in DOMAIN s : q # i => ~KLt(NKey(s[i].v), NKey(s[q].v))
ArgMin(s) == CHOOSE i \in DOMAIN s : \A q \in DOMAIN s : q # i => ~KLt(NKey(s[q].v), NKey(s[i].v))
JMax(s) == s[ArgMax(s)]
JMin(s) == s[ArgMin(s)]
\* every pair of candidates for an order-dependent operation is well separated
\* (identical jets are harmless: ties between them do not matter)
Apart(s) == \A p, q \in DOMAIN s : p < q =>
               (KLt(NKey(s[p].v), NKey(s[q].v)) \/ KLt(NKey(s[q].v), NKey(s[p].v)))

\* Laplace expansion of a determinant of jets m[i][j]
Minor(m, c) == [i \in 1..(Len(m) - 1) |->
                  [j \in 1..(Len(m) - 1) |-> m[i + 1][IF j < c THEN j ELSE j + 1]]]
NegJ(a) == J!JLin(NNeg, a)
RECURSIVE JDet(_)
JDet(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE JSum([c \in 1..Len(m) |->
                  LET t == J!JMul(m[1][c], JDet(Minor(m, c)))
                  IN  IF c % 2 = 1 THEN t ELSE NegJ(t)])

\* adjugate / determinant, Cholesky factor (lower) of symmetric matrices m[i][j]
JRecip(a) == J!JUn(Un("recip", a.v), a)
JInv(m) ==
  LET n == Len(m)
      r == JRecip(JDet(m))
      cof(i, q) == \* determinant without row i and column q, with its sign
        IF n = 1 THEN ConstJet(Len(m[1][1].g), NOne)
        ELSE LET d == JDet([a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> m[IF a < i THEN a ELSE a + 1][IF b < q THEN b ELSE b + 1]]])
             IN  IF (i + q) % 2 = 0 THEN d ELSE NegJ(d)
  IN [i \in 1..n |-> [q \in 1..n |-> J!JMul(cof(q, i), r)]]
JChol(m) ==   \* column by column
  LET n == Len(m)
      z == ConstJet(Len(m[1][1].g), NZero)
      sub(a, s) == IF s = << >> THEN a ELSE J!JAdd(a, NegJ(JSum(s)))
      col(c, k) == \* column k given the columns before it
        LET s(i) == sub(m[i][k], [q \in 1..(k - 1) |-> J!JMul(c[q][i], c[q][k])])
            d == LET x == s(k) IN J!JUn(Un("sqrt", x.v), x)
            r == JRecip(d)
        IN [i \in 1..n |-> IF i < k THEN z ELSE IF i = k THEN d ELSE J!JMul(s(i), r)]
      cols[k \in 0..n] == IF k = 0 THEN << >> ELSE Append(cols[k - 1], col(cols[k - 1], k))
  IN [i \in 1..n |-> [q \in 1..n |-> cols[n][q][i]]]
MatOf(t, b) == \* matrix number b (1-based) of a batch
  LET n == t.sh[Len(t.sh)]
  IN  [i \in 1..n |-> [q \in 1..n |-> t.e[(b - 1) * n * n + (i - 1) * n + q]]]

\* modulus of a jet over real inputs: sqrt(z conj z)
JModulus(j) == LET q == J!JMul(j, J!JLin(NConj, j)) IN J!JUn(Un("sqrt", q.v), q)

----------------------------------------------------------------------------
(* Index maps and windows of the structural operations.                     *)
ElemMap(op, shs) ==
  CASE op.o = "reshape"   -> IdMap(Size(shs[1]))
    [] op.o = "transpose" -> TransposeMap(shs[1], op.k[1])
    [] op.o = "rev"       -> RevMap(shs[1], Rng(op.k[1]))
    [] op.o = "slice"     -> SliceMap(shs[1], op.k[1], op.k[2], op.k[3])
    [] op.o = "bcast"     -> BcastMap(shs[1], op.k[1], op.k[2])
    [] op.o = "concat"    -> ConcatMap(shs, op.k[1][1])
    [] op.o = "take"      -> TakeMap(shs[1], op.k[1], op.k[2][1])
    [] op.o = "dslice"    -> DSliceMap(shs[1], op.k[1], op.k[2])
    [] op.o = "dus"       -> DUSMap(shs[1], shs[2], op.k[1])
    [] op.o = "pad"       -> PadMap(shs[1], op.k[1], op.k[2])
    [] op.o = "select"    -> [j \in 1..Size(shs[1]) |-> <<IF op.k[1][j] = 1 THEN 1 ELSE 2, j>>]
    [] op.o = "scatset"   -> \* x.at[ids].set(u) along axis 0
         LET row == Size(shs[1]) \div shs[1][1]
         IN  [j \in 1..Size(shs[1]) |->
               LET r == (j - 1) \div row
               IN  IF r \in Rng(op.k[1])
                   THEN <<2, (CHOOSE q \in DOMAIN op.k[1] : op.k[1][q] = r) * row - row + ((j - 1) % row) + 1>>
                   ELSE <<1, j>>]
    [] op.o = "index"     -> \* any rearrangement: argument number and (1-based) position of every entry
         [j \in DOMAIN op.k[2] |-> <<op.k[2][j], op.k[3][j]>>]
MapOps == {"index", "reshape", "transpose", "rev", "slice", "bcast", "concat", "take", "dslice",
           "dus", "pad", "select", "scatset"}
MapShape(op, shs) ==
  CASE op.o = "reshape"   -> op.k[1]
    [] op.o = "transpose" -> TransposeShape(shs[1], op.k[1])
    [] op.o = "rev"       -> shs[1]
    [] op.o = "slice"     -> SliceShape(shs[1], op.k[1], op.k[2], op.k[3])
    [] op.o = "bcast"     -> op.k[1]
    [] op.o = "concat"    -> ConcatShape(shs, op.k[1][1])
    [] op.o = "take"      -> TakeShape(shs[1], op.k[1], op.k[2][1])
    [] op.o = "dslice"    -> op.k[2]
    [] op.o = "pad"       -> PadShape(shs[1], op.k[1], op.k[2])
    [] op.o = "index"     -> op.k[1]
    [] OTHER              -> shs[1]
MapOk(op, shs) ==
  CASE op.o = "reshape"   -> Size(op.k[1]) = Size(shs[1])
    [] op.o = "index"     -> /\ Len(op.k[2]) = Size(op.k[1]) /\ Len(op.k[3]) = Size(op.k[1])
                             /\ \A j \in DOMAIN op.k[2] : op.k[2][j] \in DOMAIN shs /\ op.k[3][j] \in 1..Size(shs[op.k[2][j]])
    [] op.o = "transpose" -> Len(op.k[1]) = Len(shs[1]) /\ Rng(op.k[1]) = 0..(Len(shs[1]) - 1)
    [] op.o = "rev"       -> Rng(op.k[1]) \subseteq 0..(Len(shs[1]) - 1)
    [] op.o = "slice"     -> \A d \in DOMAIN shs[1] :
                               0 <= op.k[1][d] /\ op.k[1][d] < op.k[2][d] /\ op.k[2][d] <= shs[1][d] /\ op.k[3][d] >= 1
    [] op.o = "bcast"     -> /\ Len(op.k[2]) = Len(shs[1])
                             /\ \A d \in DOMAIN shs[1] : op.k[2][d] + 1 \in DOMAIN op.k[1]
                                   /\ shs[1][d] \in {1, op.k[1][op.k[2][d] + 1]}
                             /\ \A d \in 1..(Len(shs[1]) - 1) : op.k[2][d] < op.k[2][d + 1]
    [] op.o = "concat"    -> /\ op.k[1][1] \in 0..(Len(shs[1]) - 1)
                             /\ \A i \in DOMAIN shs : Len(shs[i]) = Len(shs[1])
                                  /\ \A d \in DOMAIN shs[1] : d # op.k[1][1] + 1 => shs[i][d] = shs[1][d]
    [] op.o = "take"      -> op.k[2][1] \in 0..(Len(shs[1]) - 1) /\ Len(op.k[1]) >= 1
    [] op.o = "dslice"    -> /\ Len(op.k[1]) = Len(shs[1]) /\ Len(op.k[2]) = Len(shs[1])
                             /\ \A d \in DOMAIN shs[1] : 1 <= op.k[2][d] /\ op.k[2][d] <= shs[1][d]
    [] op.o = "dus"       -> /\ Len(op.k[1]) = Len(shs[1]) /\ Len(shs[2]) = Len(shs[1])
                             /\ \A d \in DOMAIN shs[1] : shs[2][d] <= shs[1][d]
    [] op.o = "pad"       -> Len(op.k[1]) = Len(shs[1]) /\ Len(op.k[2]) = Len(shs[1])
    [] op.o = "select"    -> shs[1] = shs[2] /\ Len(op.k[1]) = Size(shs[1])
    [] op.o = "scatset"   -> /\ Len(shs[1]) >= 1 /\ shs[2] = <<Len(op.k[1])>> \o Tail(shs[1])
                             /\ Rng(op.k[1]) \subseteq 0..(shs[1][1] - 1)
                             /\ Cardinality(Rng(op.k[1])) = Len(op.k[1])
                             /\ Len(op.k[1]) >= 1

\* data-dependent reads: the start/row is the truncated value of an element of
\* the second argument (JAX clamps it into range)
DDOps == {"ddslice", "ddtake", "ddus", "sortby", "ddarg"}
\* the order of the entries of a rank-1 tensor (0-based), smallest first
Order(t) == [i \in DOMAIN t.e |-> (CHOOSE p \in DOMAIN t.e : Cardinality({q \in DOMAIN t.e : KLt(NKey(t.e[q].v), NKey(t.e[p].v))}) = i - 1) - 1]
AllApart(s) == \A p, q \in DOMAIN s : p < q => LET a == NKey(s[p].v) b == NKey(s[q].v) IN KLt(a, b) \/ KLt(b, a)
DDStart(op, env) == NToInt(env[op.a[Len(op.a)]].e[1].v)
DDResolve(op, env) ==
  LET x == env[op.a[1]]
      s == IF op.o \in {"sortby", "ddarg"} THEN 0 ELSE DDStart(op, env)
      w == IF s < 0 THEN s + x.sh[1] ELSE s       \* lax.dynamic_slice counts negative starts from the end
  IN CASE op.o = "ddslice" -> [op EXCEPT !.o = "dslice",
                               !.k = << <<w>> \o [d \in 1..(Len(x.sh) - 1) |-> 0], op.k[1] >>]
       [] op.o = "ddtake"  -> [op EXCEPT !.o = "take", !.k = << <<Clamp(s, 0, x.sh[1] - 1)>>, <<0>> >>]
       [] op.o = "sortby"  -> [op EXCEPT !.o = "take", !.k = << Order(env[op.a[2]]), <<0>> >>]
       [] op.o = "ddarg"   -> LET r == Order(env[op.a[2]]) IN
                              [op EXCEPT !.o = "take", !.k = << << IF op.f = "min" THEN r[1] ELSE r[Len(r)] >>, <<0>> >>]
       [] op.o = "ddus"    -> [op EXCEPT !.o = "dus", !.k = << <<w>> \o [d \in 1..(Len(x.sh) - 1) |-> 0] >>]

RedOps == {"sum", "prod", "max", "min"}
CumOps == {"cumsum", "cumprod", "cummax", "cummin"}
RedWindows(op, sh) == IF op.o \in RedOps THEN Windows(sh, Rng(op.k[1]))
                      ELSE CumWindows(sh, op.k[1][1], op.k[2][1] = 1)
RedShape(op, sh)   == IF op.o \in RedOps THEN ReduceShape(sh, Rng(op.k[1])) ELSE sh
RedFun(o, s) == CASE o \in {"sum", "cumsum"}  -> JSum(s)
                  [] o \in {"prod", "cumprod"} -> JProd(s)
                  [] o \in {"max", "cummax"}   -> JMax(s)
                  [] o \in {"min", "cummin"}   -> JMin(s)
RedOk(op, sh) == /\ Rng(op.k[1]) \subseteq 0..(Len(sh) - 1)
                 /\ op.o \in RedOps => Len(op.k[1]) >= 1
                 /\ op.o \in CumOps => Len(op.k[1]) = 1

\* scatters with an accumulating combiner along axis 0; ids may repeat
ScatOps == {"scatadd", "scatmul", "scatmax", "scatmin"}
ScatRows(op, sh) == LET row == Size(sh) \div sh[1]
                    IN [j \in 1..Size(sh) |->
                          LET r == (j - 1) \div row
                              q == SelectSeq([i \in 1..Len(op.k[1]) |-> i], LAMBDA i : op.k[1][i] = r)
                          IN  [i \in 1..Len(q) |-> (q[i] - 1) * row + ((j - 1) % row) + 1]]
ScatFun(o, s) == CASE o = "scatadd" -> JSum(s) [] o = "scatmul" -> JProd(s)
                   [] o = "scatmax" -> JMax(s) [] o = "scatmin" -> JMin(s)

\* broadcasting of two shapes (numpy rules), aligned to the right
BShape(a, b) ==
  LET n == Max2(Len(a), Len(b))
      dim(s, d) == IF d <= n - Len(s) THEN 1 ELSE s[d - (n - Len(s))]
  IN  [d \in 1..n |-> Max2(dim(a, d), dim(b, d))]
BCompat(a, b) ==
  LET n == Max2(Len(a), Len(b))
      dim(s, d) == IF d <= n - Len(s) THEN 1 ELSE s[d - (n - Len(s))]
  IN  \A d \in 1..n : dim(a, d) = dim(b, d) \/ dim(a, d) = 1 \/ dim(b, d) = 1
BMap(sh, osh) == BcastMap(sh, osh, [d \in 1..Len(sh) |-> Len(osh) - Len(sh) + d - 1])

----------------------------------------------------------------------------
(* One transition *)
ArgShapes(op, env) == [i \in DOMAIN op.a |-> env[op.a[i]].sh]

DropUn == {"sign", "stop", "gt0", "toint"}   \* operations whose result carries no derivative

ApplyMap(op, env) ==
  LET shs == ArgShapes(op, env)
      m   == ElemMap(op, shs)
      n   == NVars(env)
      z   == ConstJet(n, IF op.o = "pad" THEN op.c[1] ELSE NZero)
  IN  Tensor(MapShape(op, shs),
             [j \in 1..Len(m) |-> IF m[j][1] = 0 THEN z ELSE env[op.a[m[j][1]]].e[m[j][2]]],
             AnyDep(op, env), OutDt(op, env))

Truth(n, b) == ConstJet(n, IF b THEN NOne ELSE NZero)
DetOf(t, b) == \* determinant jet of matrix number b (1-based) in a batch
  LET n == t.sh[Len(t.sh)]
  IN  JDet([i \in 1..n |-> [q \in 1..n |-> t.e[(b - 1) * n * n + (i - 1) * n + q]]])

Apply(op, env) ==
  CASE op.o = "const" -> << Tensor(op.k[1], [i \in DOMAIN op.c |-> ConstJet(NVars(env), op.c[i])], FALSE, IF op.f = "c" THEN "c" ELSE "f") >>
    [] op.o = "un" ->
        LET x == env[op.a[1]] IN
        IF op.f \in DropUn
        THEN << Tensor(x.sh, [i \in DOMAIN x.e |-> Drop(J!JUn(Un(op.f, x.e[i].v), x.e[i]))], FALSE,
                       CASE op.f = "gt0" -> "b" [] op.f = "toint" -> "i" [] OTHER -> x.dt) >>
        ELSE << Tensor(x.sh, [i \in DOMAIN x.e |-> J!JUn(Un(op.f, x.e[i].v), x.e[i])], x.dep, x.dt) >>
    [] op.o = "ipow" ->
        LET x == env[op.a[1]]
            p == op.k[1][1]
            q == IF p < 0 THEN -p ELSE p
            P(j) == JProd([i \in 1..q |-> j])
            R(j) == IF p < 0 THEN LET b == P(j) IN J!JUn(Un("recip", b.v), b) ELSE P(j)
        IN << Tensor(x.sh, [i \in DOMAIN x.e |-> R(x.e[i])], x.dep, x.dt) >>
    [] op.o = "bin" ->
        LET x == env[op.a[1]]
            y == env[op.a[2]]
            osh == BShape(x.sh, y.sh)
            mx == BMap(x.sh, osh)
            my == BMap(y.sh, osh)
        IN << Tensor(osh, [j \in 1..Size(osh) |->
                LET a == x.e[mx[j][2]]
                    b == y.e[my[j][2]]
                IN  J!JBin(Bin(op.f, a.v, b.v), a, b)], AnyDep(op, env), OutDt(op, env)) >>
    [] op.o = "where" -> \* jnp.where(p > 0, x, y): predicate is data
        LET p == env[op.a[1]]
            x == env[op.a[2]]
            y == env[op.a[3]]
        IN << Tensor(x.sh, [j \in 1..Size(x.sh) |->
                 IF KLt(NKey(NZero), NKey(p.e[j].v)) THEN x.e[j] ELSE y.e[j]],
               x.dep \/ y.dep, x.dt) >>
    [] op.o \in MapOps -> << ApplyMap(op, env) >>
    [] op.o \in DDOps  ->
         LET r == DDResolve(op, env)
             t == ApplyMap(r, env)
         IN  IF op.o \in {"ddtake", "ddarg"} THEN << [t EXCEPT !.sh = Tail(@)] >> ELSE << t >>
    [] op.o = "sort" ->   \* along an axis; "top" keeps the largest entries of the last axis, largest first
        LET x == env[op.a[1]]
            w == Windows(x.sh, Rng(op.k[1]))
            n == IF op.f = "top" THEN op.k[2][1] ELSE x.sh[op.k[1][1] + 1]
            osh == [x.sh EXCEPT ![op.k[1][1] + 1] = n]
            ow == Windows(osh, Rng(op.k[1]))
            srt == [o \in DOMAIN w |-> [i \in 1..n |->
                      CHOOSE p \in Rng(w[o]) : Cardinality({q \in Rng(w[o]) :
                        LET a == NKey(x.e[q].v) b == NKey(x.e[p].v) IN IF op.f = "top" THEN KLt(b, a) ELSE KLt(a, b)}) = i - 1]]
            at(j) == LET o == CHOOSE o \in DOMAIN ow : j \in Rng(ow[o])
                         i == CHOOSE i \in DOMAIN ow[o] : ow[o][i] = j
                     IN  x.e[srt[o][i]]
        IN << Tensor(osh, [j \in 1..Size(osh) |-> at(j)], x.dep, x.dt) >>
    [] op.o \in RedOps \cup CumOps ->
        LET x == env[op.a[1]]
            w == RedWindows(op, x.sh)
        IN << Tensor(RedShape(op, x.sh),
                     [o \in 1..Len(w) |-> RedFun(op.o, [i \in 1..Len(w[o]) |-> x.e[w[o][i]]])],
                     x.dep, x.dt) >>
    [] op.o \in ScatOps ->
        LET x == env[op.a[1]]
            u == env[op.a[2]]
            w == ScatRows(op, x.sh)
        IN << Tensor(x.sh, [j \in 1..Size(x.sh) |->
                  ScatFun(op.o, <<x.e[j]>> \o [i \in 1..Len(w[j]) |-> u.e[w[j][i]]])],
                  AnyDep(op, env), OutDt(op, env)) >>
    [] op.o = "dot" ->
        LET x == env[op.a[1]]
            y == env[op.a[2]]
            t == DotTerms(x.sh, y.sh, op.k[1], op.k[2], op.k[3], op.k[4])
        IN << Tensor(DotShape(x.sh, y.sh, op.k[1], op.k[2], op.k[3], op.k[4]),
                     [o \in 1..Len(t) |-> JSum([q \in 1..Len(t[o]) |-> J!JMul(x.e[t[o][q][1]], y.e[t[o][q][2]])])],
                     AnyDep(op, env), OutDt(op, env)) >>
    [] op.o = "lin" ->    \* real-linear maps of complex numbers
        LET x == env[op.a[1]]
            F(z) == CASE op.f = "conj" -> NConj(z) [] op.f = "re" -> NRe(z) [] op.f = "im" -> NIm(z)
        IN << Tensor(x.sh, [i \in DOMAIN x.e |-> J!JLin(F, x.e[i])], x.dep, IF op.f = "conj" THEN x.dt ELSE "f") >>
    [] op.o = "cabs" ->
        LET x == env[op.a[1]]
        IN << Tensor(x.sh, [i \in DOMAIN x.e |-> JModulus(x.e[i])], x.dep, "f") >>
    [] op.o = "cplx" ->
        LET x == env[op.a[1]]
            y == env[op.a[2]]
        IN << Tensor(x.sh, [i \in DOMAIN x.e |-> J!JBin(Bin("cplx", x.e[i].v, y.e[i].v), x.e[i], y.e[i])], AnyDep(op, env), "c") >>
    [] op.o = "cmp" ->    \* comparisons carry no derivatives, whatever they compare
        LET x == env[op.a[1]]
            y == env[op.a[2]]
            osh == BShape(x.sh, y.sh)
            mx == BMap(x.sh, osh)
            my == BMap(y.sh, osh)
            lt(j) == KLt(NKey(x.e[mx[j][2]].v), NKey(y.e[my[j][2]].v))
            holds(j) == CASE op.f \in {"lt", "le"} -> lt(j) [] op.f \in {"gt", "ge"} -> ~lt(j) [] op.f = "eq" -> FALSE [] op.f = "ne" -> TRUE
        IN << Tensor(osh, [j \in 1..Size(osh) |-> Truth(NVars(env), holds(j))], FALSE, "b") >>
    [] op.o = "logic" ->
        LET x == env[op.a[1]]
            y == env[op.a[Len(op.a)]]
            T(t, j) == t.e[j].v # NZero
            holds(j) == CASE op.f = "and" -> T(x, j) /\ T(y, j) [] op.f = "or" -> T(x, j) \/ T(y, j)
                          [] op.f = "xor" -> T(x, j) # T(y, j) [] op.f = "not" -> ~T(x, j)
        IN << Tensor(x.sh, [j \in DOMAIN x.e |-> Truth(NVars(env), holds(j))], FALSE, "b") >>
    [] op.o = "arg" ->    \* position of the largest or smallest entry
        LET x == env[op.a[1]]
            w == Windows(x.sh, Rng(op.k[1]))
            pos(o) == LET s == [i \in DOMAIN w[o] |-> x.e[w[o][i]]] IN IF op.f = "max" THEN ArgMax(s) ELSE ArgMin(s)
            num(i) == LET r[q \in 0..i] == IF q = 0 THEN NZero ELSE NAdd(r[q - 1], NOne) IN r[i]
        IN << Tensor(ReduceShape(x.sh, Rng(op.k[1])), [o \in 1..Len(w) |-> ConstJet(NVars(env), num(pos(o) - 1))], FALSE, "i") >>
    [] op.o \in {"inv", "chol"} ->
        LET x == env[op.a[1]]
            n == x.sh[Len(x.sh)]
            m == [b \in 1..(Len(x.e) \div (n * n)) |-> IF op.o = "inv" THEN JInv(MatOf(x, b)) ELSE JChol(MatOf(x, b))]
        IN << Tensor(x.sh, [j \in 1..Len(x.e) |-> m[((j - 1) \div (n * n)) + 1][(((j - 1) \div n) % n) + 1][((j - 1) % n) + 1]], x.dep, x.dt) >>
    [] op.o = "det" ->
        LET x == env[op.a[1]]
            bsh == SubSeq(x.sh, 1, Len(x.sh) - 2)
        IN << Tensor(bsh, [b \in 1..Size(bsh) |-> DetOf(x, b)], x.dep, x.dt) >>
    [] op.o = "slogdet" ->
        LET x == env[op.a[1]]
            n == Len(x.sh)
            bsh == SubSeq(x.sh, 1, n - 2)
            d == [b \in 1..Size(bsh) |-> DetOf(x, b)]
            sg(j) == LET m == JModulus(j) IN J!JBin(Bin("div", j.v, m.v), j, m)
        IN << Tensor(bsh, [b \in DOMAIN d |-> IF x.dt = "c" THEN sg(d[b]) ELSE Drop(sg(d[b]))],
                     x.dep /\ x.dt = "c", x.dt),
              Tensor(bsh, [b \in DOMAIN d |-> LET m == JModulus(d[b]) IN J!JUn(Un("log", m.v), m)], x.dep, "f") >>

JetBounded(j) == NBounded(j.v) /\ (IF Full THEN \A i, q \in DOMAIN j.l : NBounded(j.l[i][q]) ELSE NBounded(j.l)) /\ \A i \in DOMAIN j.g : NBounded(j.g[i])
Bounded(t) == \A i \in DOMAIN t.e : JetBounded(t.e[i])

MaxElems == 24    \* size of a single array
\* well-formedness and distance from non-smooth points, before Apply
Pre(op, env) ==
  LET shs == ArgShapes(op, env)
      x == env[op.a[1]]
  IN
  CASE op.o = "const" -> TRUE
    [] op.o = "un" -> \A i \in DOMAIN x.e : UnOk(op.f, x.e[i].v)
    [] op.o = "ipow" -> op.k[1][1] # 0 /\ (op.k[1][1] < 0 => \A i \in DOMAIN x.e : UnOk("recip", x.e[i].v))
    [] op.o = "bin" -> /\ BCompat(shs[1], shs[2])
                       /\ Size(BShape(shs[1], shs[2])) <= MaxElems
                       /\ LET osh == BShape(shs[1], shs[2])
                              mx == BMap(shs[1], osh)
                              my == BMap(shs[2], osh)
                              y == env[op.a[2]]
                          IN \A j \in 1..Size(osh) : BinOk(op.f, x.e[mx[j][2]].v, y.e[my[j][2]].v)
    [] op.o = "where" -> /\ shs[1] = shs[2] /\ shs[2] = shs[3]
                         /\ \A i \in DOMAIN x.e : KLt(NKey(NZero), NKey(x.e[i].v)) \/ KLt(NKey(x.e[i].v), NKey(NZero))
    [] op.o \in MapOps -> MapOk(op, shs)
    [] op.o \in {"sortby", "ddarg"} -> LET b == env[op.a[2]] IN
                         /\ Len(x.sh) >= 1 /\ b.dt = "f" /\ Len(b.sh) = 1 /\ AllApart(b.e)
                         /\ IF op.o = "sortby" THEN b.sh[1] = x.sh[1] ELSE b.sh[1] <= x.sh[1]
    [] op.o = "sort" -> /\ x.dt = "f" /\ Len(op.k[1]) = 1 /\ op.k[1][1] \in 0..(Len(x.sh) - 1)
                        /\ op.f = "top" => op.k[1][1] = Len(x.sh) - 1 /\ op.k[2][1] \in 1..x.sh[Len(x.sh)]
                        /\ \A w \in Rng(Windows(x.sh, Rng(op.k[1]))) : AllApart([i \in DOMAIN w |-> x.e[w[i]]])
    [] op.o \in DDOps -> /\ Len(x.sh) >= 1 /\ UnOk("toint", env[op.a[Len(op.a)]].e[1].v)
                         /\ LET r == DDResolve(op, env) IN MapOk(r, [i \in 1..(Len(op.a) - 1) |-> shs[i]])
    [] op.o \in RedOps \cup CumOps ->
         /\ RedOk(op, x.sh)
         /\ op.o \in {"max", "min", "cummax", "cummin"} =>
              \A w \in Rng(RedWindows(op, x.sh)) : Apart([i \in DOMAIN w |-> x.e[w[i]]])
    [] op.o \in ScatOps ->
         /\ Len(shs[1]) >= 1 /\ Len(op.k[1]) >= 1
         /\ shs[2] = <<Len(op.k[1])>> \o Tail(shs[1])
         /\ Rng(op.k[1]) \subseteq 0..(shs[1][1] - 1)
         /\ op.o = "scatmul" => Cardinality(Rng(op.k[1])) = Len(op.k[1])
         /\ op.o \in {"scatmax", "scatmin"} =>
              LET w == ScatRows(op, shs[1])
                  u == env[op.a[2]]
              IN \A j \in 1..Size(shs[1]) :
                   Apart(<<x.e[j]>> \o [i \in 1..Len(w[j]) |-> u.e[w[j][i]]])
    [] op.o = "dot" ->
         /\ Len(op.k[1]) = Len(op.k[2]) /\ Len(op.k[3]) = Len(op.k[4])
         /\ \A i \in DOMAIN op.k[1] : op.k[1][i] + 1 \in DOMAIN shs[1] /\ op.k[2][i] + 1 \in DOMAIN shs[2]
                                      /\ shs[1][op.k[1][i] + 1] = shs[2][op.k[2][i] + 1]
         /\ \A i \in DOMAIN op.k[3] : op.k[3][i] + 1 \in DOMAIN shs[1] /\ op.k[4][i] + 1 \in DOMAIN shs[2]
                                      /\ shs[1][op.k[3][i] + 1] = shs[2][op.k[4][i] + 1]
         /\ Cardinality(Rng(op.k[1]) \cup Rng(op.k[3])) = Len(op.k[1]) + Len(op.k[3])
         /\ Cardinality(Rng(op.k[2]) \cup Rng(op.k[4])) = Len(op.k[2]) + Len(op.k[4])
         /\ Size(DotShape(shs[1], shs[2], op.k[1], op.k[2], op.k[3], op.k[4])) <= MaxElems
    [] op.o = "det" -> Len(x.sh) >= 2 /\ x.sh[Len(x.sh)] = x.sh[Len(x.sh) - 1]
    [] op.o = "chol" -> \* symmetric and positive definite, judged by the factor itself
         /\ Len(x.sh) >= 2 /\ x.sh[Len(x.sh)] = x.sh[Len(x.sh) - 1] /\ x.dt = "f"
         /\ LET n == x.sh[Len(x.sh)] IN \A b \in 1..(Len(x.e) \div (n * n)) :
              LET m == MatOf(x, b) IN
              /\ \A i, q \in 1..n : ~KLt(NKey(m[i][q].v), NKey(m[q][i].v))
              /\ \A k \in 1..n : UnOk("sqrt", JDet([i \in 1..k |-> [q \in 1..k |-> m[i][q]]]).v)
    [] op.o \in {"slogdet", "inv"} ->
         /\ Len(x.sh) >= 2 /\ x.sh[Len(x.sh)] = x.sh[Len(x.sh) - 1]
         /\ \A b \in 1..Size(SubSeq(x.sh, 1, Len(x.sh) - 2)) : UnOk("recip", DetOf(x, b).v)
    [] op.o = "lin"  -> TRUE
    [] op.o = "cmp" -> /\ BCompat(shs[1], shs[2]) /\ x.dt = "f" /\ env[op.a[2]].dt = "f"
                       /\ Size(BShape(shs[1], shs[2])) <= MaxElems
                       /\ LET osh == BShape(shs[1], shs[2])
                              mx == BMap(shs[1], osh)
                              my == BMap(shs[2], osh)
                              y == env[op.a[2]]
                          IN \A j \in 1..Size(osh) : LET a == NKey(x.e[mx[j][2]].v) b == NKey(y.e[my[j][2]].v) IN KLt(a, b) \/ KLt(b, a)
    [] op.o = "logic" -> \A i \in DOMAIN op.a : env[op.a[i]].dt = "b" /\ shs[i] = shs[1]
    [] op.o = "arg" -> /\ x.dt = "f" /\ Len(op.k[1]) = 1 /\ op.k[1][1] \in 0..(Len(x.sh) - 1)
                       /\ \A w \in Rng(Windows(x.sh, Rng(op.k[1]))) : \A p, q \in DOMAIN w : p < q =>
                            LET a == NKey(x.e[w[p]].v) b == NKey(x.e[w[q]].v) IN KLt(a, b) \/ KLt(b, a)
    [] op.o = "cabs" -> \A i \in DOMAIN x.e : UnOk("recip", x.e[i].v)
    [] op.o = "cplx" -> shs[1] = shs[2] /\ x.dt = "f" /\ env[op.a[2]].dt = "f"
    [] OTHER -> FALSE

Enabled(op, env) == Pre(op, env) /\ LET t == Apply(op, env) IN \A i \in DOMAIN t : Bounded(t[i])

\* the inputs: arrays shs[1], shs[2], ... with consecutive variable numbers
Offsets(shs) == LET f[i \in 0..Len(shs)] == IF i = 0 THEN 0 ELSE f[i-1] + Size(shs[i]) IN f
InputEnv(shs, vals, ws) ==
  LET off == Offsets(shs)
      n == off[Len(shs)]
  IN [i \in 1..Len(shs) |->
        Tensor(shs[i], [j \in 1..Size(shs[i]) |-> J!JInput(n, off[i-1] + j, vals[off[i-1] + j], ws[i])], Size(shs[i]) > 0, "f")]

----------------------------------------------------------------------------
(* The representation model.                                                *)
(*  sup   per element: set of inputs it may structurally depend on          *)
(*  kw    per threshold T in 1..N: [k |-> "s" | "d" | "?", w |-> width bound]*)
(*        "s": must be sparse with at most w columns; "d": must be dense;   *)
(*        "?": unconstrained                                                *)
(*  full  every element has exactly w distinct inputs (no padding)          *)
NoRep(n, sz) == [sup |-> [i \in 1..sz |-> {}], kw |-> [t \in 1..n |-> [k |-> "n", w |-> 0]]]
InputRep(n, off, sz) == [sup |-> [i \in 1..sz |-> {off + i}], kw |-> [t \in 1..n |-> [k |-> "s", w |-> 1]]]

\* contributing <<arg, pos>> pairs per output element
Flow(op, env) ==
  LET shs == ArgShapes(op, env)
      sz(i) == Size(shs[i])
  IN
  CASE op.o \in {"un", "ipow", "lin", "cabs"} -> [j \in 1..sz(1) |-> {<<1, j>>}]
    [] op.o = "bin" -> LET osh == BShape(shs[1], shs[2])
                           mx == BMap(shs[1], osh)
                           my == BMap(shs[2], osh)
                       IN [j \in 1..Size(osh) |-> {<<1, mx[j][2]>>, <<2, my[j][2]>>}]
    [] op.o = "where" -> [j \in 1..sz(2) |-> {<<2, j>>, <<3, j>>}]
    [] op.o \in MapOps -> LET m == ElemMap(op, shs) IN [j \in 1..Len(m) |-> IF m[j][1] = 0 THEN {} ELSE {m[j]}]
    [] op.o \in RedOps \cup CumOps -> LET w == RedWindows(op, shs[1]) IN [o \in 1..Len(w) |-> {<<1, p>> : p \in Rng(w[o])}]
    [] op.o \in ScatOps -> LET w == ScatRows(op, shs[1]) IN [j \in 1..sz(1) |-> {<<1, j>>} \cup {<<2, p>> : p \in Rng(w[j])}]
    [] op.o = "dot" -> LET t == DotTerms(shs[1], shs[2], op.k[1], op.k[2], op.k[3], op.k[4])
                       IN [o \in 1..Len(t) |-> UNION {{<<1, p[1]>>, <<2, p[2]>>} : p \in Rng(t[o])}]
    [] OTHER -> << >>

\* operations without a sparsity rule of their own: every element of the result
\* may be attributed to all inputs of all arguments
CoarseOps == {"sort"} \cup CumOps \cup ScatOps \cup DDOps \cup {"dus", "pad", "scatset", "where", "slogdet", "index", "inv", "det", "chol"}
CoarseUn  == {"cbrt", "sinh", "cosh", "exp2", "custom", "erf", "relu", "clip", "floor"}

\* single-argument or both-argument classes with a definite representation
RepApply(op, env, reps, out) ==   \* out: Seq of tensors appended
  LET n    == NVars(env)
      da   == SelectSeq([i \in DOMAIN op.a |-> i], LAMBDA i : env[op.a[i]].dep)   \* dependent args
      rep(i) == reps[op.a[i]]
      all  == UNION { UNION Rng(rep(da[i]).sup) : i \in DOMAIN da }
      anyrep(t) == [sup |-> [j \in 1..Len(t.e) |-> all],
                    kw |-> [q \in 1..n |-> [k |-> IF \E i \in DOMAIN da : rep(da[i]).kw[q].k = "d" THEN "d" ELSE "?", w |-> 0]]]
      fl   == Flow(op, env)
      sup  == [j \in DOMAIN fl |-> UNION { reps[op.a[p[1]]].sup[p[2]] : p \in fl[j] }]
      cnt  == IF sup = << >> THEN 0 ELSE SetMax({Cardinality(sup[j]) : j \in DOMAIN sup})
      \* the same for the contributions of one argument
      cnti(a) == SetMax({Cardinality(UNION { reps[op.a[p[1]]].sup[p[2]] : p \in {r \in fl[j] : r[1] = a} }) : j \in DOMAIN fl})
      \* an argument whose stored mask has no padding: every element has w inputs
      full(i, q) == \A j \in DOMAIN rep(i).sup : Cardinality(rep(i).sup[j]) = rep(i).kw[q].w
      mx(q) == SetMax({rep(da[i]).kw[q].w : i \in DOMAIN da} \cup {1})
      sm(q) == SumSeq([i \in 1..Len(da) |-> rep(da[i]).kw[q].w])
      allS(q) == \A i \in DOMAIN da : rep(da[i]).kw[q].k = "s"
      anyD(q) == \E i \in DOMAIN da : rep(da[i]).kw[q].k = "d"
      same == \A i, q \in DOMAIN da : rep(da[i]) = rep(da[q]) /\ env[op.a[da[i]]].sh = env[op.a[da[q]]].sh
      one(t) == LET rule(q) ==
                 IF anyD(q) THEN [k |-> "d", w |-> 0]
                 ELSE IF ~allS(q) THEN [k |-> "?", w |-> 0]
                 ELSE CASE op.o \in {"un", "ipow", "lin", "cabs"} -> [k |-> "s", w |-> mx(q)]
                        [] op.o \in {"bin"} -> [k |-> "s", w |-> IF same /\ mx(q) = 1 THEN 1 ELSE sm(q)]
                        [] op.o \in {"reshape", "transpose", "rev", "slice", "bcast", "concat", "take", "dslice", "select", "where"}
                             -> [k |-> "s", w |-> mx(q)]
                        [] op.o \in RedOps ->
                             IF cnt > q THEN [k |-> "d", w |-> 0]
                             ELSE IF full(da[1], q) \/ cnt < q \/ op.o # "sum"
                             THEN [k |-> "s", w |-> IF full(da[1], q) \/ op.o # "sum" THEN Max2(cnt, 1) ELSE cnt + 1]
                             ELSE [k |-> "?", w |-> 0]
                        [] op.o = "dot" /\ Len(da) = 2 ->
                             IF op.k[1] # << >> /\ (cnti(1) > q \/ cnti(2) > q) THEN [k |-> "d", w |-> 0]
                             ELSE IF cnt < q THEN [k |-> "s", w |-> cnti(1) + cnti(2) + 1] ELSE [k |-> "?", w |-> 0]
                        [] op.o = "dot" /\ Len(da) = 1 ->
                             IF cnt > q THEN [k |-> "d", w |-> 0] ELSE [k |-> "s", w |-> Max2(cnt, 1)]
                        [] OTHER -> [k |-> "?", w |-> 0]
                IN [sup |-> sup, kw |-> [q \in 1..n |-> rule(q)]]
  IN [i \in DOMAIN out |->
        IF ~out[i].dep THEN NoRep(n, Len(out[i].e))
        ELSE IF fl = << >> \/ op.o \in CoarseOps \/ (op.o = "un" /\ op.f \in CoarseUn) THEN anyrep(out[i])
        ELSE one(out[i])]
=============================================================================
