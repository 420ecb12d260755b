-------------------------------- MODULE GenT --------------------------------
(***************************************************************************)
(* Array programs behind arbitrary pytrees: the inputs arrive in nested    *)
(* containers, some constants arrive as keyword arguments and the outputs  *)
(* are returned in a nested container that may repeat values, contain      *)
(* constants, integers and booleans, or be empty.                          *)
(* A layout is [t, i, c]: "leaf" refers to environment position i, the     *)
(* containers tuple/list/dict/named/none have children c.                  *)
(***************************************************************************)
EXTENDS GenR
Conts == {"tuple", "list", "dict", "named"}
Leaf(i) == [t |-> "leaf", i |-> i, c |-> << >>]
NoneT == [t |-> "none", i |-> 0, c |-> << >>]
\* a container whose leaves, in order, are lo..hi
RECURSIVE RTree(_, _, _)
RTree(lo, hi, d) ==
  IF lo > hi THEN Rnd(1..2, LAMBDA h : IF h = 1 THEN NoneT ELSE [t |-> "tuple", i |-> 0, c |-> << >>])
  ELSE IF lo = hi /\ (d = 0 \/ RandomElement(1..2) = 1) THEN Leaf(lo)
  ELSE Rnd(Conts, LAMBDA k : Rnd(lo..(IF d = 0 THEN lo ELSE hi), LAMBDA m :
         IF d = 0 THEN [t |-> k, i |-> 0, c |-> TLCEval([j \in 1..(hi - lo + 1) |-> Leaf(lo + j - 1)])]
         ELSE [t |-> k, i |-> 0, c |-> TLCEval(<< RTree(lo, m, d - 1), RTree(m + 1, hi, d - 1) >>)]))
\* an output layout over environment positions 1..n
RECURSIVE OTree(_, _)
OTree(n, d) ==
  IF d = 0 THEN Leaf(RandomElement(1..n))
  ELSE Rnd(Conts \cup {"leaf", "none"}, LAMBDA k :
         CASE k = "none" -> NoneT
           [] k = "leaf" -> Leaf(RandomElement(1..n))
           [] OTHER -> [t |-> k, i |-> 0, c |-> TLCEval([j \in 1..RandomElement(1..3) |-> OTree(n, d - 1)])])
\* the positional arguments: consecutive groups of inputs, each in its own layout
Groups(n) == Rnd({TLCEval([i \in 1..n |-> RandomElement({0, 1})])}, LAMBDA cut :
  LET starts == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ cut[i] = 1)
  IN  TLCEval([g \in DOMAIN starts |->
        RTree(starts[g], IF g = Len(starts) THEN n ELSE starts[g + 1] - 1, RandomElement(0..2))]))
EmitT(e, p, r) ==
  \E tin \in {Groups(Len(inp.shs))} :
  \E tout \in {TLCEval(<< OTree(Len(e), 3), OTree(Len(e), 2) >>)} :
  \E kw \in {TLCEval({q \in DOMAIN p : p[q].o = "const" /\ p[q].f # "lit" /\ RandomElement(1..3) > 1})} :
    CSVWrite("%1$s", << ToJson([inp |-> inp, prog |-> p, env |-> e, tin |-> tin, tout |-> tout, kw |-> Asc(kw)]) >>, IOEnv.GEN_OUT)
ExecT == /\ step < Depth
         /\ \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
            \E ops \in {TLCEval(Make(kind))} :
            \E res \in {TLCEval(IF ops = None THEN <<FALSE, env, reps, prog>> ELSE Run(ops, env, reps, prog))} :
              /\ IF res[1] THEN env' = res[2] /\ reps' = res[3] /\ prog' = res[4] ELSE UNCHANGED <<env, reps, prog>>
              /\ UNCHANGED <<env2, inp>>
              /\ step' = step + 1
              /\ (step' = Depth => EmitT(env', prog', reps'))
NextT == IF step = 0 THEN Start ELSE ExecT
SpecT == Init /\ [][NextT]_vars
gUnT == gUn \cup {"gt0", "toint"}
gKindsT == gKinds \o <<"cmp", "cmp", "logic", "logic", "logic", "arg", "arg", "arg", "cmp">>
gShapesT == { << <<2>>, <<2, 2>> >>, << <<3>>, <<3>> >>, << << >>, <<3>> >>, << <<2, 1, 3>> >>, << <<2>>, <<2>>, <<2>> >>,
              << <<2, 2>>, << >>, <<1>> >>, << <<2>>, <<1>>, << >>, <<2>> >>, << <<4>> >>, << <<1>>, <<1>>, <<2, 2>>, << >>, <<3>> >> }
=============================================================================
