-------------------------------- MODULE GenA --------------------------------
(***************************************************************************)
(* Annotated functions.  A random array program is followed by one block:  *)
(* a function of a few intermediates (its parameters, in any order, with   *)
(* repetitions and constants), written with operations on trailing axes    *)
(* only, together with every annotation that is true of it:                *)
(*   [none, ax, fl]  the axes it acts on (or all of them) and its flags.   *)
(* The operations of the block are ordinary transitions of the machine, so *)
(* the value, Jacobian and Laplacian of its results do not depend on the   *)
(* annotation.                                                             *)
(* Local positions of the block: 1..np are the parameters, every operation *)
(* appends one.  tr[i] is the number of trailing axes of local i on which  *)
(* the function acts (-1: a literal).                                      *)
(***************************************************************************)
EXTENDS GenR
CONSTANT BlockLen
VARIABLE blk
NoBlk == [cls |-> "", na |-> 0, par |-> << >>, base |-> 0, ops |-> << >>, tr |-> << >>, want |-> 0]
Classes == {"gen", "lin", "mul", "bil", "lif", "dot", "sum", "idx"}
ClsSeq == <<"gen", "gen", "gen", "gen", "gen", "lin", "lin", "mul", "bil", "bil", "lif", "lif", "dot", "dot", "sum", "idx", "idx">>
IdxKinds == <<"transpose", "rev", "slice", "reshape", "bcast", "concat", "concat", "take", "take", "select", "select", "dus", "scatset", "dslice">>

NP(b) == Len(b.par)
At(b, i) == IF i <= NP(b) THEN b.par[i] ELSE b.base + (i - NP(b))   \* environment position of local i
NL(b) == NP(b) + Len(b.ops)
Sub(s, i, j) == IF i > j THEN << >> ELSE SubSeq(s, i, j)
Trail(sh, k) == Sub(sh, Len(sh) - k + 1, Len(sh))
Lead(sh, k) == Sub(sh, 1, Len(sh) - k)
Live(b) == {i \in 1..NL(b) : b.tr[i] >= 0}
ShL(b, i) == env[At(b, i)].sh
DepL(b, i) == env[At(b, i)].dep

----------------------------------------------------------------------------
(* choosing the parameters *)
Cand(na) == {i \in 1..L : RealArg(i) /\ Rank(i) >= na}
\* <<parameters, new constants>>
RECURSIVE More(_, _, _, _, _)
More(n, na, dot, par, cs) ==
  IF n = 0 THEN <<par, cs>>
  ELSE LET ok == {i \in Cand(na) : (\A j \in DOMAIN par : par[j] <= L => BCompat(Sh(i), Sh(par[j])))
                                   /\ (\A j \in DOMAIN cs : BCompat(Sh(i), cs[j].k[1]))
                                   /\ (dot => Trail(Sh(i), na) = Trail(Sh(par[1]), na))}
       IN  Rnd(1..4, LAMBDA how :
             IF how = 1
             THEN Rnd({TLCEval(RandomElement({sh \in {Sh(par[1]), << >>} \cup (IF Rank(par[1]) >= 1 THEN {[Sh(par[1]) EXCEPT ![1] = 1]} ELSE {}) :
                                      Len(sh) >= na /\ (dot => Trail(sh, na) = Trail(Sh(par[1]), na))} \cup {Sh(par[1])}))}, LAMBDA sh :
                    More(n - 1, na, dot, Append(par, L + Len(cs) + 1),
                         Append(cs, O("const", "f", << >>, << sh >>, TLCEval([i \in 1..Size(sh) |-> NumV(RVal(i))])))))
             ELSE Rnd(ok, LAMBDA i : More(n - 1, na, dot, Append(par, i), cs)))
Swap(s) == IF Len(s) < 2 THEN s ELSE Rnd(BOOLEAN, LAMBDA h : IF h THEN s ELSE << s[2], s[1] >> \o Sub(s, 3, Len(s)))
NumPar(cls) == IF cls \in {"mul", "bil", "lif", "dot"} THEN 2 ELSE IF cls = "sum" THEN 1 ELSE RandomElement({1, 1, 2, 2, 3})
NumAx(cls) == IF cls = "mul" THEN 0 ELSE IF cls = "dot" THEN RandomElement({1, 1, 2}) ELSE RandomElement({0, 0, 1, 1, 2})

----------------------------------------------------------------------------
(* the operations of a block, in local positions *)
Lit == O("const", "lit", << >>, << << >> >>, << NumV(RVal(1)) >>)
Un1(b, f, a) == << O("un", f, <<a>>, << >>, << >>) >>
Pair(b, f, a, c) == << O("bin", f, <<a, c>>, << >>, << >>) >>
SumLast(b, a, n, kind) == << O(kind, "", <<a>>, << [i \in 1..n |-> Len(ShL(b, a)) - n + i - 1] >>, << >>) >>
LitOp(b, f, a) == Rnd(BOOLEAN, LAMBDA left : << Lit, O("bin", f, IF left THEN <<NL(b) + 1, a>> ELSE <<a, NL(b) + 1>>, << >>, << >>) >>)
Mates(b, a) == {c \in Live(b) : b.tr[c] = b.tr[a] /\ BCompat(ShL(b, a), ShL(b, c))}
Expand(b, a, n) == << O("bcast", "", <<a>>, << ShL(b, a) \o <<n>>, [d \in 1..Len(ShL(b, a)) |-> d - 1] >>, << >>) >>
Reduce(b, a, kind) == Rnd({s \in SUBSET ((Len(ShL(b, a)) - b.tr[a])..(Len(ShL(b, a)) - 1)) : s # {}}, LAMBDA s :
                        << O(kind, "", <<a>>, << Asc(s) >>, << >>) >>)
\* a combined with its own reduction: the axes are kept
Norm(b, a) == Rnd({"mul", "sub", "div", "add"}, LAMBDA f : Rnd({"sum", "sum", "prod", "max"}, LAMBDA kind :
                LET sh == ShL(b, a)
                IN << O(kind, "", <<a>>, << <<Len(sh) - 1>> >>, << >>),
                      O("bcast", "", <<NL(b) + 1>>, << sh, [d \in 1..(Len(sh) - 1) |-> d - 1] >>, << >>),
                      O("bin", f, <<a, NL(b) + 2>>, << >>, << >>) >>))
Cumul(b, a, kind) == Rnd((Len(ShL(b, a)) - b.tr[a])..(Len(ShL(b, a)) - 1), LAMBDA ax : Rnd({0, 1}, LAMBDA r :
                       << O(kind, "", <<a>>, << <<ax>>, <<r>> >>, << >>) >>))
GenStep(b) ==
  Rnd(Live(b), LAMBDA x : Rnd(BOOLEAN, LAMBDA newest :
    LET a == IF newest /\ NL(b) \in Live(b) THEN NL(b) ELSE x IN
    Rnd(1..9, LAMBDA how :
      CASE how \in 1..2 -> Rnd(UnNames, LAMBDA f : Un1(b, f, a))
        [] how = 3 -> Rnd({-1, 2, 3}, LAMBDA q : << O("ipow", "", <<a>>, << <<q>> >>, << >>) >>)
        [] how \in 4..5 -> Rnd(BinNames, LAMBDA f : Rnd(Mates(b, a), LAMBDA c : Pair(b, f, a, c)))
        [] how = 6 -> Rnd(BinNames, LAMBDA f : LitOp(b, f, a))
        [] b.tr[a] = 0 \/ how = 9 -> IF b.tr[a] < b.na THEN Rnd(1..3, LAMBDA n : Expand(b, a, n))
                                     ELSE Rnd(Mates(b, a), LAMBDA c : Pair(b, "mul", a, c))
        [] how = 7 -> Rnd({"sum", "sum", "prod", "max", "min"}, LAMBDA kind : Reduce(b, a, kind))
        [] how = 8 -> Rnd(1..3, LAMBDA w : IF w = 1 THEN Rnd({"cumsum", "cumprod"}, LAMBDA kind : Cumul(b, a, kind)) ELSE Norm(b, a)))))
LinStep(b) ==
  Rnd(Live(b), LAMBDA x : Rnd(BOOLEAN, LAMBDA newest :
    LET a == IF newest /\ NL(b) \in Live(b) THEN NL(b) ELSE x
        consts == {c \in Mates(b, a) : ~DepL(b, c)}
    IN Rnd(1..8, LAMBDA how :
      CASE how = 1 -> Un1(b, "neg", a)
        [] how \in 2..3 -> LitOp(b, "mul", a)
        [] how = 4 -> Rnd({"add", "sub"}, LAMBDA f : LitOp(b, f, a))
        [] how \in 5..6 -> Rnd({"add", "sub", "max"}, LAMBDA f : Rnd(Mates(b, a), LAMBDA c : Pair(b, f, a, c)))
        [] how = 7 /\ consts # {} -> Rnd(consts, LAMBDA c : Pair(b, "mul", a, c))
        [] b.tr[a] >= 1 -> Rnd({"sum", "max", "cumsum"}, LAMBDA kind : IF kind = "cumsum" THEN Cumul(b, a, kind) ELSE Reduce(b, a, kind))
        [] OTHER -> LitOp(b, "mul", a))))
\* a product of the two parameters that stays affine in each of them
BilStep(b) ==
  IF b.ops = << >> THEN Pair(b, "mul", 1, 2)
  ELSE Rnd(1..5, LAMBDA how : LET a == NL(b) IN
      CASE how = 1 -> Un1(b, "neg", a)
        [] how = 2 -> LitOp(b, "mul", a)
        [] how = 3 -> Rnd(1..2, LAMBDA c : IF c \in Mates(b, a) THEN Pair(b, "add", a, c) ELSE LitOp(b, "add", a))
        [] b.tr[a] >= 1 -> Rnd({"sum", "cumsum"}, LAMBDA kind : IF kind = "cumsum" THEN Cumul(b, a, kind) ELSE Reduce(b, a, kind))
        [] OTHER -> LitOp(b, "mul", a))
\* first parameter times a function of the second
LifStep(b) ==
  IF b.ops = << >> THEN Rnd(UnNames, LAMBDA f : Un1(b, f, 2))
  ELSE IF Len(b.ops) = 1 THEN Rnd({"mul", "mul", "div", "add"}, LAMBDA f : Pair(b, f, 1, 3))
  ELSE Rnd(1..3, LAMBDA how : LET a == NL(b) IN
      CASE how = 1 -> LitOp(b, "mul", a)
        [] b.tr[a] >= 1 -> Rnd({"sum", "cumsum"}, LAMBDA kind : IF kind = "cumsum" THEN Cumul(b, a, kind) ELSE Reduce(b, a, kind))
        [] OTHER -> Un1(b, "neg", a))
DotStep(b) == IF b.ops = << >> THEN Pair(b, "mul", 1, 2) ELSE SumLast(b, 3, b.na, "sum")
SumStep(b) == IF ShL(b, 1) = << >> THEN None
              ELSE Rnd((SUBSET (0..(Len(ShL(b, 1)) - 1))) \ {{}}, LAMBDA s : << O("sum", "", <<1>>, << Asc(s) >>, << >>) >>)
MakeBlk(b) ==
  CASE b.cls = "gen" -> GenStep(b) [] b.cls = "lin" -> LinStep(b) [] b.cls = "mul" -> Pair(b, "mul", 1, 2)
    [] b.cls = "bil" -> BilStep(b) [] b.cls = "lif" -> LifStep(b) [] b.cls = "dot" -> DotStep(b) [] b.cls = "sum" -> SumStep(b)
    [] OTHER -> None
\* trailing axes of the result of a local operation
TrOf(tr, op) ==
  CASE op.o = "const" -> -1
    [] op.o \in RedOps -> IF tr[op.a[1]] = 0 THEN 0 ELSE tr[op.a[1]] - Len(op.k[1])
    [] op.o = "bcast" -> tr[op.a[1]] + 1
    [] op.o = "bin" -> LET s == {tr[op.a[1]], tr[op.a[2]]} \ {-1} IN CHOOSE x \in s : TRUE
    [] OTHER -> tr[op.a[1]]
RECURSIVE TrAll(_, _)
TrAll(tr, ops) == IF ops = << >> THEN tr ELSE TrAll(Append(tr, TrOf(tr, Head(ops))), Tail(ops))
ToEnv(b, ops) == [i \in DOMAIN ops |-> [ops[i] EXCEPT !.a = [j \in DOMAIN ops[i].a |-> At(b, ops[i].a[j])]]]

----------------------------------------------------------------------------
(* The annotations that are true of a finished block with results outs.     *)
MinRank(b) == CHOOSE r \in {Len(ShL(b, i)) : i \in 1..NP(b)} : \A i \in 1..NP(b) : r <= Len(ShL(b, i))
RECURSIVE BAll(_)
BAll(shs) == IF Len(shs) = 1 THEN shs[1] ELSE BShape(shs[1], BAll(Tail(shs)))
\* acting on the last axes only: every result consists of the broadcast leading axes of all parameters
\* and of its own trailing axes
Acts(b, outs) ==
  LET kept == BAll([i \in 1..NP(b) |-> Lead(ShL(b, i), b.na)])
  IN \A o \in Rng(outs) : Lead(ShL(b, o), b.tr[o]) = kept
NDep(b) == Cardinality({i \in 1..NP(b) : DepL(b, i)})
Flags(b) ==
  CASE b.cls = "gen" -> {<< >>, <<"REDUCTION">>}
    [] b.cls = "lin" -> {<< >>, <<"LINEAR">>, <<"LINEAR_IN_FIRST">>} \cup (IF NDep(b) <= 2 THEN {<<"LINEAR_IN_ONE">>} ELSE {})
    [] b.cls = "mul" -> {<< >>, <<"MULTIPLICATION">>, <<"LINEAR_IN_ONE">>, <<"LINEAR_IN_FIRST">>}
    [] b.cls = "bil" -> {<< >>, <<"LINEAR_IN_ONE">>, <<"LINEAR_IN_FIRST">>}
    [] b.cls = "lif" -> {<< >>, <<"LINEAR_IN_FIRST">>}
    [] b.cls = "dot" -> {<< >>, <<"LINEAR_IN_ONE", "REDUCTION">>, <<"LINEAR_IN_ONE">>}
    [] b.cls = "sum" -> {<< >>, <<"LINEAR">>, <<"LINEAR", "REDUCTION">>}
    [] b.cls = "idx" -> {<< >>, <<"LINEAR">>, <<"INDEXING">>, <<"INDEXING">>, <<"INDEXING", "JOIN_JVP">>}
Ann(none, ax, fl) == [none |-> none, ax |-> ax, fl |-> fl]
Minus(k) == [i \in 1..k |-> i - k - 1]
Anns(b, outs) ==
  LET ks == {k \in b.na..MinRank(b) : k <= 2 /\ Acts(b, outs)}
      deco == {<< >>, <<"JOIN_JVP">>, <<"SPARSE_JHJ">>, <<"JOIN_JVP", "SPARSE_JHJ">>}
      all == {Ann(TRUE, << >>, f \o g) : f \in Flags(b) \ {<<"MULTIPLICATION">>}, g \in deco}
  IN CASE b.cls = "idx" -> {Ann(TRUE, << >>, f) : f \in Flags(b)}
       [] b.cls = "sum" -> all \cup {Ann(FALSE, a, <<"SUMMATION">>) : a \in
                             {b.ops[1].k[1], [i \in DOMAIN b.ops[1].k[1] |-> b.ops[1].k[1][i] - Len(ShL(b, 1))]}}
       [] OTHER -> all \cup {Ann(FALSE, Minus(k), f \o g) : k \in ks, f \in Flags(b) \ {<<"MULTIPLICATION">>}, g \in deco}
                   \cup (IF b.cls = "mul" /\ 0 \in ks THEN {Ann(FALSE, << >>, <<"MULTIPLICATION">> \o g) : g \in deco} ELSE {})
                   \cup (IF b.cls = "dot" /\ b.na \in ks THEN {Ann(FALSE, Minus(b.na), <<"DOT_PRODUCT">> \o g) : g \in deco} ELSE {})
\* one or two results
Outs(b) == LET more == {i \in Live(b) \ (1..NP(b)) : DepL(b, i) /\ i # NL(b)} IN
           IF b.cls \in {"mul", "dot", "sum", "idx", "bil"} \/ more = {} \/ RandomElement(1..3) > 1 THEN << NL(b) >>
           ELSE Rnd(more, LAMBDA i : Rnd(BOOLEAN, LAMBDA h : IF h THEN << NL(b), i >> ELSE << i, NL(b) >>))

----------------------------------------------------------------------------
InitA == Init /\ blk = NoBlk
Prefix == /\ step >= 1 /\ step < Depth
          /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
             \E ops \in {TLCEval(Make(kind))} :
             \E res \in {TLCEval(IF ops = None THEN <<FALSE, env, reps, prog>> ELSE Run(ops, env, reps, prog))} :
               /\ IF res[1] THEN env' = res[2] /\ reps' = res[3] /\ prog' = res[4] ELSE UNCHANGED <<env, reps, prog>>
               /\ step' = step + 1 /\ UNCHANGED <<env2, inp, blk>>
\* choose class and parameters (index functions are chosen together with their operation)
Open == /\ step = Depth
        /\ \E cls \in {ClsSeq[RandomElement(1..Len(ClsSeq))]} :
           \E na \in {NumAx(cls)} :
           \E n \in {NumPar(cls)} :
             IF cls = "idx"
             THEN \E kind \in {IdxKinds[RandomElement(1..Len(IdxKinds))]} :
                  \E ops \in {TLCEval(Make(kind))} :
                  \E res \in {TLCEval(IF ops = None THEN <<FALSE, env, reps, prog>> ELSE Run(ops, env, reps, prog))} :
                    /\ LET last == ops[Len(ops)] IN
                       IF res[1] /\ ops # None
                       THEN /\ env' = res[2] /\ reps' = res[3] /\ prog' = res[4]
                            /\ blk' = [cls |-> cls, na |-> 0, par |-> last.a, base |-> Len(res[2]) - 1,
                                       ops |-> << [last EXCEPT !.a = [j \in DOMAIN last.a |-> j]] >>,
                                       tr |-> [j \in 1..(Len(last.a) + 1) |-> 0], want |-> 0]
                       ELSE UNCHANGED <<env, reps, prog, blk>>
             ELSE /\ \E S \in {TLCEval({i \in Cand(na) : env[i].dep})} :
                     IF S = {} THEN UNCHANGED <<env, reps, prog, blk>>
                     ELSE \E pc \in {TLCEval(Rnd(S, LAMBDA i : More(n - 1, na, cls = "dot", <<i>>, << >>)))} :
                          \E par \in {TLCEval(Swap(pc[1]))} :
                          \E res \in {TLCEval(Run(pc[2], env, reps, prog))} :
                            /\ env' = res[2] /\ reps' = res[3] /\ prog' = res[4]
                            /\ blk' = [cls |-> cls, na |-> na, par |-> par, base |-> Len(res[2]), ops |-> << >>,
                                       tr |-> [j \in DOMAIN par |-> na],
                                       want |-> CASE cls \in {"mul", "sum"} -> 1 [] cls = "dot" -> 2 [] cls = "lif" -> RandomElement({2, 2, 3})
                                                  [] OTHER -> RandomElement(1..4)]
        /\ step' = step + 1 /\ UNCHANGED <<env2, inp>>
Body == /\ step > Depth /\ step < Depth + BlockLen
        /\ IF blk.cls = "" \/ blk.want = 0 THEN UNCHANGED <<env, reps, prog, blk>>
           ELSE \E ops \in {TLCEval(MakeBlk(blk))} :
                \E res \in {TLCEval(IF ops = None THEN <<FALSE, env, reps, prog>> ELSE Run(ToEnv(blk, ops), env, reps, prog))} :
                  IF res[1] THEN /\ env' = res[2] /\ reps' = res[3] /\ prog' = res[4]
                                 /\ blk' = [blk EXCEPT !.ops = blk.ops \o ops, !.tr = TrAll(blk.tr, ops), !.want = @ - 1]
                  ELSE UNCHANGED <<env, reps, prog, blk>>
        /\ step' = step + 1 /\ UNCHANGED <<env2, inp>>
Done(b) == b.cls # "" /\ b.ops # << >> /\ DepL(b, NL(b)) /\ (b.cls \in {"mul", "dot", "lif", "bil"} => b.want = 0)
           /\ \A i \in DOMAIN b.ops : b.ops[i].o # "un" \/ b.ops[i].f \notin {"stop"}
EmitA == /\ step = Depth + BlockLen
         /\ IF Done(blk)
            THEN \E outs \in {TLCEval(Outs(blk))} :
                 CSVWrite("%1$s", << ToJson([inp |-> inp, prog |-> prog, env |-> env, reps |-> reps,
                                             blk |-> [blk EXCEPT !.want = Len(prog) - Len(blk.ops)], outs |-> outs, anns |-> Anns(blk, outs)]) >>, IOEnv.GEN_OUT)
            ELSE TRUE
         /\ step' = step + 1 /\ UNCHANGED <<env, env2, reps, prog, inp, blk>>
NextA == IF step = 0 THEN Start /\ blk' = NoBlk ELSE Prefix \/ Open \/ Body \/ EmitA
SpecA == InitA /\ [][NextA]_<<vars, blk>>
gKindsA == <<"un", "un", "un", "bin", "bin", "bin", "sum", "reshape", "transpose", "slice", "bcast", "concat", "take", "dslice", "dot", "select", "rev">>
gUnA == gUn \ {"stop", "sign", "floor"}
gShapesA == { << <<6>> >>, << <<2, 3>> >>, << <<3, 2>> >>, << <<3, 3>> >>, << <<2, 2>> >>, << <<5>> >>, << <<3>> >>,
              << <<2>>, <<2, 2>> >>, << <<3>>, <<3>> >>, << << >>, <<3>> >>, << <<2, 1, 3>> >>, << <<2, 3>>, <<3>> >>,
              << <<2, 1>>, <<2>> >>, << <<1, 4>> >>, << <<2, 2, 2>> >>, << <<1, 2, 3>> >>, << <<2>>, <<2>>, <<2>> >> }
=============================================================================
