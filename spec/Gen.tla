-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of FwdLapl: random array programs, one operation per step,   *)
(* together with what every intermediate must be (value, Jacobian,         *)
(* Laplacian) and how its Jacobian may be stored.  Explored with TLC's     *)
(* simulator; each finished behaviour is appended to the file named by the *)
(* environment variable GEN_OUT and replayed into the implementation.      *)
(***************************************************************************)
EXTENDS FwdLapl, Json, IOUtils, CSV
CONSTANTS UnNames, BinNames, Kinds, InputShapes, Depth, NumV(_), MaxSize, WeightSet,
          Points,               \* number of input points each program is evaluated at (1 or 2)
          ConstKinds, CNumV(_)   \* types of constant operands, complex constants
VARIABLES env, env2, reps, prog, step, inp
vars == <<env, env2, reps, prog, step, inp>>

\* bind one random element of S
Rnd(S, Op(_)) == IF S = {} THEN << >> ELSE CHOOSE r \in {Op(x) : x \in {RandomElement(S)}} : TRUE
RVal(i) == IF i >= 0 THEN RandomElement(-1400..1400) ELSE 0
None == << >>
O(o, f, a, k, c) == [o |-> o, f |-> f, a |-> a, k |-> k, c |-> c]
L == Len(env)
Nv == NVars(env)
Floaty(i) == env[i].dt \in {"f", "c"}
RealArg(i) == env[i].dt = "f"
DepArgs == {i \in 1..L : env[i].dep}
Pick == LET d == DepArgs IN IF d # {} THEN d ELSE 1..L
Sh(i) == env[i].sh
Rank(i) == Len(env[i].sh)
RandConst(sh) == O("const", IF RandomElement(1..6) = 1 /\ sh = << >> THEN "lit" ELSE "f", << >>, << sh >>,
                   TLCEval([i \in 1..Size(sh) |-> NumV(RVal(i))]))

\* a constant that may be complex, for operations that promote their operands
MixConst(sh) == Rnd(ConstKinds, LAMBDA f : IF f = "c" THEN O("const", "c", << >>, << sh >>, TLCEval([i \in 1..Size(sh) |-> CNumV(RVal(i))]))
                                           ELSE RandConst(sh))

\* shapes b such that (a, b) broadcast
ConstFor(sh) == RandomElement({sh, << >>} \cup (IF Len(sh) >= 1 THEN {<<sh[Len(sh)]>>, [sh EXCEPT ![1] = 1]} ELSE {})
                              \cup (IF Size(sh) = 1 THEN {<<5>>, <<7>>, <<2, 3>>} ELSE {}))

Perms(n) == {p \in [1..n -> 0..(n-1)] : Rng(p) = 0..(n-1)}
Factor(n) == {<<n>>, <<1, n>>, <<n, 1>>} \cup {<<a, n \div a>> : a \in {q \in 1..n : n % q = 0}}
             \cup (IF n = 1 THEN {<< >>} ELSE {}) \cup (IF n % 2 = 0 THEN {<<2, 1, n \div 2>>} ELSE {})
ShapeSeq(f, n) == [i \in 1..n |-> f[i]]

MakeUn == Rnd(UnNames, LAMBDA f : Rnd({i \in Pick : Floaty(i)}, LAMBDA a : << O("un", f, <<a>>, << >>, << >>) >>))
MakeIPow == Rnd({-2, -1, 2, 3, 4}, LAMBDA p : Rnd({i \in Pick : Floaty(i)}, LAMBDA a : << O("ipow", "", <<a>>, << <<p>> >>, << >>) >>))
\* literal operands and constants take part on either side
MakeBin ==
  Rnd(BinNames, LAMBDA f : Rnd({i \in Pick : Floaty(i)}, LAMBDA a : Rnd(1..4, LAMBDA how :
    IF how = 1
    THEN Rnd({ConstFor(Sh(a))}, LAMBDA sh : Rnd(BOOLEAN, LAMBDA left :
           << MixConst(sh), O("bin", f, IF left THEN <<L + 1, a>> ELSE <<a, L + 1>>, << >>, << >>) >>))
    ELSE Rnd({i \in 1..L : Floaty(i) /\ BCompat(Sh(a), Sh(i))}, LAMBDA b : << O("bin", f, <<a, b>>, << >>, << >>) >>))))
MakeSubset(kind) ==
  Rnd({i \in Pick : Floaty(i) /\ Rank(i) >= 1 /\ (kind \in {"max", "min"} => RealArg(i))} \cup {1}, LAMBDA a :
    IF Rank(a) = 0 THEN None ELSE
    Rnd({s \in SUBSET (0..(Rank(a) - 1)) : s # {}}, LAMBDA s : << O(kind, "", <<a>>, << Asc(s) >>, << >>) >>))
MakeCum(kind) ==
  Rnd({i \in Pick : Floaty(i) /\ Rank(i) >= 1 /\ (kind \in {"cummax", "cummin"} => RealArg(i))} \cup {1}, LAMBDA a :
    IF Rank(a) = 0 THEN None ELSE
    Rnd(0..(Rank(a) - 1), LAMBDA ax : Rnd({0, 1}, LAMBDA r : << O(kind, "", <<a>>, << <<ax>>, <<r>> >>, << >>) >>)))
MakeReshape == Rnd({i \in Pick : TRUE}, LAMBDA a : Rnd(Factor(Size(Sh(a))), LAMBDA s : << O("reshape", "", <<a>>, << s >>, << >>) >>))
MakeTranspose == Rnd({i \in Pick : TRUE}, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                   Rnd(Perms(Rank(a)), LAMBDA p : << O("transpose", "", <<a>>, << ShapeSeq(p, Rank(a)) >>, << >>) >>))
MakeRev == Rnd(Pick, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                   Rnd((SUBSET (0..(Rank(a) - 1))) \ {{}}, LAMBDA s : << O("rev", "", <<a>>, << Asc(s) >>, << >>) >>))
Spans(n) == {<<b, e, s>> \in (0..(n-1)) \X (1..n) \X (1..2) : b < e}
MakeSlice == Rnd(Pick, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
               Rnd({TLCEval([d \in 1..Rank(a) |-> RandomElement(Spans(Sh(a)[d]))])}, LAMBDA t :
                 << O("slice", "", <<a>>, << [d \in 1..Rank(a) |-> t[d][1]], [d \in 1..Rank(a) |-> t[d][2]], [d \in 1..Rank(a) |-> t[d][3]] >>, << >>) >>))
MakeBcast == Rnd(Pick, LAMBDA a : Rnd(1..3, LAMBDA n : Rnd(1..2, LAMBDA how :
               IF how = 1   \* new leading axis
               THEN << O("bcast", "", <<a>>, << <<n>> \o Sh(a), [d \in 1..Rank(a) |-> d] >>, << >>) >>
               ELSE << O("bcast", "", <<a>>, << Sh(a) \o <<n>>, [d \in 1..Rank(a) |-> d - 1] >>, << >>) >>)))
MakeConcat == Rnd({i \in Pick : Floaty(i)}, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                Rnd(0..(Rank(a) - 1), LAMBDA ax : Rnd(1..3, LAMBDA how :
                  IF how = 1
                  THEN Rnd({[Sh(a) EXCEPT ![ax + 1] = RandomElement(1..2)]}, LAMBDA sh : Rnd(BOOLEAN, LAMBDA left :
                         << RandConst(sh), O("concat", "", IF left THEN <<L + 1, a>> ELSE <<a, L + 1>>, << <<ax>> >>, << >>) >>))
                  ELSE Rnd({i \in 1..L : Floaty(i) /\ env[i].dt = env[a].dt /\ Rank(i) = Rank(a) /\
                                  \A d \in 1..Rank(a) : d # ax + 1 => Sh(i)[d] = Sh(a)[d]}, LAMBDA b :
                         IF how = 2 THEN << O("concat", "", <<a, b>>, << <<ax>> >>, << >>) >>
                         ELSE << O("concat", "", <<a, b, a>>, << <<ax>> >>, << >>) >>))))
MakeTake == Rnd(Pick, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
              Rnd(0..(Rank(a) - 1), LAMBDA ax : Rnd(1..3, LAMBDA n :
                Rnd({TLCEval([i \in 1..n |-> RandomElement(0..(Sh(a)[ax + 1] - 1))])}, LAMBDA ids :
                  << O("take", "", <<a>>, << ids, <<ax>> >>, << >>) >>)))
            )
MakeDSlice == Rnd(Pick, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                Rnd({TLCEval([d \in 1..Rank(a) |-> <<RandomElement(0..Sh(a)[d]), RandomElement(1..Sh(a)[d])>>])}, LAMBDA t :
                  << O("dslice", "", <<a>>, << [d \in 1..Rank(a) |-> t[d][1]], [d \in 1..Rank(a) |-> t[d][2]] >>, << >>) >>))
MakeDUS == Rnd({i \in Pick : Floaty(i)}, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
             Rnd({i \in 1..L : Floaty(i) /\ env[i].dt = env[a].dt /\ Rank(i) = Rank(a) /\ \A d \in 1..Rank(a) : Sh(i)[d] <= Sh(a)[d]}, LAMBDA b :
               Rnd({TLCEval([d \in 1..Rank(a) |-> RandomElement(0..Sh(a)[d])])}, LAMBDA t :
                 << O("dus", "", <<a, b>>, << t >>, << >>) >>)))
MakePad == Rnd(Pick, LAMBDA a : IF Rank(a) < 1 \/ ~Floaty(a) THEN None ELSE
             Rnd({TLCEval([d \in 1..Rank(a) |-> <<RandomElement(0..1), RandomElement(0..1)>>])}, LAMBDA t :
               << O("pad", "", <<a>>, << [d \in 1..Rank(a) |-> t[d][1]], [d \in 1..Rank(a) |-> t[d][2]] >>, <<NumV(RVal(0))>>) >>))
MakeSelect == Rnd({i \in Pick : Floaty(i)}, LAMBDA a : Rnd({i \in 1..L : Floaty(i) /\ env[i].dt = env[a].dt /\ Sh(i) = Sh(a)}, LAMBDA b : Rnd(BOOLEAN, LAMBDA cst :
                Rnd({TLCEval([i \in 1..Size(Sh(a)) |-> RandomElement({0, 1})])}, LAMBDA m :
                  IF cst THEN << RandConst(Sh(a)), O("select", "", <<a, L + 1>>, << m >>, << >>) >>
                  ELSE << O("select", "", <<a, b>>, << m >>, << >>) >>))))
MakeWhere == Rnd({i \in Pick : RealArg(i)}, LAMBDA a : Rnd({i \in 1..L : RealArg(i) /\ Sh(i) = Sh(a)}, LAMBDA b : Rnd({i \in 1..L : RealArg(i) /\ Sh(i) = Sh(a)}, LAMBDA c :
                << O("where", "", <<a, b, c>>, << >>, << >>) >>)))
MakeScat(kind) == Rnd({i \in Pick : Floaty(i) /\ (kind \in {"scatmax", "scatmin"} => RealArg(i))}, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                Rnd(1..3, LAMBDA how :
                  LET us == {i \in 1..L : Floaty(i) /\ env[i].dt = env[a].dt /\ Rank(i) = Rank(a) /\ Tail(Sh(i)) = Tail(Sh(a)) /\ Sh(i)[1] <= 3} IN
                  IF how = 1 \/ us = {}
                  THEN Rnd(1..2, LAMBDA n : Rnd({TLCEval([i \in 1..n |-> RandomElement(0..(Sh(a)[1] - 1))])}, LAMBDA ids : Rnd(BOOLEAN, LAMBDA left :
                         IF left \/ Sh(a)[1] > 3
                         THEN << RandConst(<<n>> \o Tail(Sh(a))), O(kind, "", <<a, L + 1>>, << ids >>, << >>) >>
                         ELSE Rnd({TLCEval([i \in 1..Sh(a)[1] |-> RandomElement(0..3)])}, LAMBDA i2 :
                              << RandConst(<<4>> \o Tail(Sh(a))), O(kind, "", <<L + 1, a>>, << i2 >>, << >>) >>))))
                  ELSE Rnd(us, LAMBDA u : Rnd({TLCEval([i \in 1..Sh(u)[1] |-> RandomElement(0..(Sh(a)[1] - 1))])}, LAMBDA ids :
                         << O(kind, "", <<a, u>>, << ids >>, << >>) >>))))
MakeDD(kind) == Rnd({i \in Pick : Floaty(i)}, LAMBDA a : IF Rank(a) < 1 THEN None ELSE
                Rnd({i \in 1..L : RealArg(i) /\ (kind \in {"sortby", "ddarg"} => Rank(i) = 1 /\ Sh(i)[1] <= Sh(a)[1])
                                                  /\ (kind = "sortby" => Sh(i)[1] = Sh(a)[1])}, LAMBDA b :
                  CASE kind = "ddslice" -> Rnd(1..Sh(a)[1], LAMBDA n : << O("ddslice", "", <<a, b>>, << <<n>> \o Tail(Sh(a)) >>, << >>) >>)
                    [] kind = "sortby"  -> << O("sortby", "", <<a, b>>, << >>, << >>) >>
                    [] kind = "ddarg"   -> Rnd({"max", "min"}, LAMBDA f : << O("ddarg", f, <<a, b>>, << >>, << >>) >>)
                    [] kind = "ddtake"  -> << O("ddtake", "", <<a, b>>, << >>, << >>) >>
                    [] kind = "ddus"    -> Rnd({i \in 1..L : Floaty(i) /\ env[i].dt = env[a].dt /\ Rank(i) = Rank(a) /\ \A d \in 1..Rank(a) : Sh(i)[d] <= Sh(a)[d]}, LAMBDA u :
                                             << O("ddus", "", <<a, u, b>>, << >>, << >>) >>)))
\* contraction over nc axes and nb batch axes
Pairs(a, b) == {<<i, j>> \in (0..(Rank(a) - 1)) \X (0..(Rank(b) - 1)) : Sh(a)[i + 1] = Sh(b)[j + 1]}
MakeDot == Rnd({i \in Pick : Floaty(i)}, LAMBDA a : Rnd(1..3, LAMBDA how :
             IF Rank(a) < 1 THEN None ELSE
             IF how = 1
             THEN \* constant matrix on one side
                  Rnd(0..(Rank(a) - 1), LAMBDA ax : Rnd(1..3, LAMBDA m : Rnd(BOOLEAN, LAMBDA left :
                    << MixConst(<<Sh(a)[ax + 1], m>>),
                       IF left THEN O("dot", "", <<L + 1, a>>, << <<0>>, <<ax>>, << >>, << >> >>, << >>)
                               ELSE O("dot", "", <<a, L + 1>>, << <<ax>>, <<0>>, << >>, << >> >>, << >>) >>)))
             ELSE Rnd({i \in 1..L : Floaty(i) /\ Rank(i) >= 1}, LAMBDA b :
                    LET P == Pairs(a, b) IN
                    Rnd({0, 1, 1, 1}, LAMBDA nc : Rnd({0, 1, 2}, LAMBDA nb :
                      Rnd({<<x, y, z>> \in (P \cup {<<-1, -1>>}) \X (P \cup {<<-1, -1>>}) \X (P \cup {<<-1, -1>>}) :
                            \A u, w \in {x, y, z} : (u # w) => (u[1] # w[1] /\ u[2] # w[2])}, LAMBDA t :
                        LET C == SelectSeq(IF t[1] = t[2] THEN <<t[1]>> ELSE <<t[1], t[2]>>, LAMBDA q : q[1] >= 0 /\ q # t[3])
                            B == SelectSeq(<<t[3]>>, LAMBDA q : q[1] >= 0)
                        IN << O("dot", "", <<a, b>>, << [i \in DOMAIN C |-> C[i][1]], [i \in DOMAIN C |-> C[i][2]],
                                                       [i \in DOMAIN B |-> B[i][1]], [i \in DOMAIN B |-> B[i][2]] >>, << >>) >>))))))
MakeSlogdet == LET S == {i \in DepArgs : Floaty(i) /\ Rank(i) >= 2 /\ Sh(i)[Rank(i)] = Sh(i)[Rank(i) - 1] /\ Sh(i)[Rank(i)] \in 1..4} IN
               IF S = {} THEN None ELSE Rnd(S, LAMBDA a : << O("slogdet", "", <<a>>, << >>, << >>) >>)
MakeLin == Rnd({"conj", "re", "im"}, LAMBDA f : LET S == {i \in DepArgs : env[i].dt = "c"} IN
             IF S = {} THEN None ELSE Rnd(S, LAMBDA a : << O("lin", f, <<a>>, << >>, << >>) >>))
MakeCAbs == LET S == {i \in DepArgs : env[i].dt = "c"} IN IF S = {} THEN None ELSE Rnd(S, LAMBDA a : << O("cabs", "", <<a>>, << >>, << >>) >>)
MakeCplx == Rnd({i \in Pick : RealArg(i)}, LAMBDA a : Rnd({i \in 1..L : RealArg(i) /\ Sh(i) = Sh(a)}, LAMBDA b : << O("cplx", "", <<a, b>>, << >>, << >>) >>))

MakeCmp == Rnd({"lt", "le", "gt", "ge", "eq", "ne"}, LAMBDA f : Rnd({i \in Pick : RealArg(i)}, LAMBDA a : Rnd(1..2, LAMBDA how :
             IF how = 1 THEN << RandConst(Sh(a)), O("cmp", f, <<a, L + 1>>, << >>, << >>) >>
             ELSE Rnd({i \in 1..L : RealArg(i) /\ BCompat(Sh(a), Sh(i))}, LAMBDA b : << O("cmp", f, <<a, b>>, << >>, << >>) >>))))
MakeLogic == LET B == {i \in 1..L : env[i].dt = "b"} IN
             IF B = {} THEN MakeCmp
             ELSE Rnd({"and", "or", "xor", "not"}, LAMBDA f : Rnd(B, LAMBDA a : Rnd({i \in B : Sh(i) = Sh(a)}, LAMBDA b :
                    << O("logic", f, IF f = "not" THEN <<a>> ELSE <<a, b>>, << >>, << >>) >>)))
MakeArg == Rnd({"max", "min"}, LAMBDA f : Rnd({i \in Pick : RealArg(i)}, LAMBDA a : IF Rank(a) = 0 THEN None ELSE
             Rnd(0..(Rank(a) - 1), LAMBDA ax : << O("arg", f, <<a>>, << <<ax>> >>, << >>) >>)))
MakeSort == Rnd({"asc", "asc", "top"}, LAMBDA f : Rnd({i \in Pick : RealArg(i) /\ Rank(i) >= 1}, LAMBDA a :
              IF f = "top" THEN Rnd(1..Sh(a)[Rank(a)], LAMBDA n : << O("sort", f, <<a>>, << <<Rank(a) - 1>>, <<n>> >>, << >>) >>)
              ELSE Rnd(0..(Rank(a) - 1), LAMBDA ax : << O("sort", f, <<a>>, << <<ax>> >>, << >>) >>)))

Make(kind) ==
  CASE kind = "un" -> MakeUn [] kind = "ipow" -> MakeIPow [] kind = "bin" -> MakeBin
    [] kind \in RedOps -> MakeSubset(kind) [] kind \in CumOps -> MakeCum(kind)
    [] kind = "reshape" -> MakeReshape [] kind = "transpose" -> MakeTranspose [] kind = "rev" -> MakeRev
    [] kind = "slice" -> MakeSlice [] kind = "bcast" -> MakeBcast [] kind = "concat" -> MakeConcat
    [] kind = "take" -> MakeTake [] kind = "dslice" -> MakeDSlice [] kind = "dus" -> MakeDUS
    [] kind = "pad" -> MakePad [] kind = "select" -> MakeSelect [] kind = "where" -> MakeWhere
    [] kind \in ScatOps \cup {"scatset"} -> MakeScat(kind)
    [] kind \in DDOps -> MakeDD(kind)
    [] kind = "dot" -> MakeDot [] kind = "slogdet" -> MakeSlogdet
    [] kind = "cmp" -> MakeCmp [] kind = "logic" -> MakeLogic [] kind = "arg" -> MakeArg [] kind = "sort" -> MakeSort
    [] kind = "lin" -> MakeLin [] kind = "cabs" -> MakeCAbs [] kind = "cplx" -> MakeCplx

----------------------------------------------------------------------------
InputReps(shs) == LET off == Offsets(shs) IN [i \in 1..Len(shs) |-> InputRep(off[Len(shs)], off[i-1], Size(shs[i]))]
NTotal(shs) == SumSeq([i \in 1..Len(shs) |-> Size(shs[i])])

Init == env = << >> /\ env2 = << >> /\ reps = << >> /\ inp = [shs |-> << >>] /\ prog = << >> /\ step = 0

\* choose the inputs
Start == \E shs \in {RandomElement(InputShapes)} :
         \E vals \in {TLCEval([i \in 1..NTotal(shs) |-> NumV(RVal(i))])} :
         \E vals2 \in {TLCEval([i \in 1..NTotal(shs) |-> NumV(RVal(i))])} :
         \E ws \in {TLCEval([i \in 1..Len(shs) |-> RandomElement(WeightSet)])} :
          /\ env' = InputEnv(shs, vals, ws)
          /\ env2' = IF Points = 2 THEN InputEnv(shs, vals2, ws) ELSE << >>
          /\ reps' = InputReps(shs)
          /\ inp' = [shs |-> shs, vals |-> vals, vals2 |-> vals2, ws |-> ws]
          /\ prog' = << >>
          /\ step' = 1

\* XLA merges nested dynamic slices as if no position were ever clamped (a defect of the compiler: it
\* changes the value of the plain function as well), so a program with a position computed from data has
\* either one dynamic position or only positions in range.
InRange(op, e) ==
  LET r == IF op.o \in DDOps THEN DDResolve(op, e) ELSE op
      sh == e[op.a[1]].sh
  IN CASE op.o = "ddtake" -> DDStart(op, e) \in 0..(sh[1] - 1)
       [] r.o = "dslice" -> \A d \in DOMAIN sh : r.k[1][d] >= 0 /\ r.k[1][d] + r.k[2][d] <= sh[d]
       [] r.o = "dus" -> \A d \in DOMAIN sh : r.k[1][d] >= 0 /\ r.k[1][d] + e[op.a[2]].sh[d] <= sh[d]
       [] OTHER -> TRUE
DynOps == DDOps \cup {"dslice", "dus"}
DDOk(op, e, p) ==
  op.o \in DynOps =>
  LET dyn == {i \in DOMAIN p : p[i].o \in DynOps} IN
  (dyn # {} /\ (op.o \in DDOps \/ \E i \in dyn : p[i].o \in DDOps)) => (InRange(op, e) /\ \A i \in dyn : InRange(p[i], e))

\* execute a short sequence of operations, all or nothing
RECURSIVE Run(_, _, _, _)
Run(ops, e, r, p) ==   \* <<ok, env, reps, prog>>
  IF ops = << >> THEN <<TRUE, e, r, p>>
  ELSE LET op == Head(ops) IN
       IF op.o # "const" /\ ~(\A i \in DOMAIN op.a : op.a[i] \in DOMAIN e) THEN <<FALSE, e, r, p>>
       ELSE IF op.o # "const" /\ (~Enabled(op, e) \/ ~DDOk(op, e, p)) THEN <<FALSE, e, r, p>>
       ELSE LET out == Apply(op, e)
                rp == IF op.o = "const" THEN << NoRep(NVars(e), Len(op.c)) >> ELSE RepApply(op, e, r, out)
            IN  IF \E i \in DOMAIN out : Size(out[i].sh) > MaxSize THEN <<FALSE, e, r, p>>
                ELSE Run(Tail(ops), TLCEval(e \o out), TLCEval(r \o rp), Append(p, op))

\* the same operations at the other point; << >> if one of them is not enabled there
RECURSIVE Run2(_, _, _)
Run2(ops, e, p) ==
  IF ops = << >> THEN e
  ELSE IF Head(ops).o # "const" /\ (~Enabled(Head(ops), e) \/ ~DDOk(Head(ops), e, p)) THEN << >>
  ELSE Run2(Tail(ops), TLCEval(e \o Apply(Head(ops), e)), p)

Emit(e, e2, r, p) == CSVWrite("%1$s", << ToJson([inp |-> inp, prog |-> p, env |-> e, env2 |-> e2, reps |-> r]) >>, IOEnv.GEN_OUT)

Exec == /\ step < Depth
        /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
           \E ops \in {TLCEval(Make(kind))} :
           \E res \in {TLCEval(IF ops = None THEN <<FALSE, env, reps, prog>> ELSE Run(ops, env, reps, prog))} :
           \E res2 \in {TLCEval(IF Points = 2 /\ res[1] THEN Run2(ops, env2, prog) ELSE << >>)} :
             /\ IF res[1] /\ (Points = 2 => res2 # << >>)
                THEN env' = res[2] /\ env2' = res2 /\ reps' = res[3] /\ prog' = res[4]
                ELSE UNCHANGED <<env, env2, reps, prog>>
             /\ step' = step + 1
             /\ inp' = inp
             /\ (step' = Depth => Emit(env', env2', reps', prog'))
Next == IF step = 0 THEN Start ELSE Exec
Spec == Init /\ [][Next]_vars
=============================================================================
