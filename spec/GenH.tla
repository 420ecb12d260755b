-------------------------------- MODULE GenH --------------------------------
(* GenC with complex inputs: holomorphic programs, derivatives with respect to complex inputs.  *)
EXTENDS GenC
gKindsHol == <<"un", "un", "un", "un", "un", "bin", "bin", "bin", "bin", "bin", "bin", "ipow", "sum", "sum", "prod", "cumsum",
               "reshape", "transpose", "rev", "slice", "bcast", "concat", "take", "dot", "dot">>
gUnHol == gUn \ {"stop"}
CEnv(s, vals) == LET e == InputEnv(s, vals, [i \in DOMAIN s |-> C1]) IN [i \in DOMAIN e |-> [e[i] EXCEPT !.dt = "c"]]
StartH == \E shs \in {RandomElement(InputShapes)} :
          \E vals \in {TLCEval([i \in 1..NTotal(shs) |-> CNumV(RVal(i))])} :
          /\ env' = CEnv(shs, vals)
          /\ env2' = << >>
          /\ reps' = InputReps(shs)
          /\ inp' = [shs |-> shs, vals |-> vals, vals2 |-> vals, ws |-> [i \in DOMAIN shs |-> C1]]
          /\ prog' = << >> /\ step' = 1
NextH == IF step = 0 THEN StartH ELSE Exec
SpecH == Init /\ [][NextH]_vars
=============================================================================
