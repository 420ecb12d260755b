------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded programs.  The harness records what a function   *)
(* written in ordinary JAX executes at a point -- the list of operations   *)
(* of its trace, written as operation records of FwdLapl -- together with  *)
(* the inputs.  Here every recorded operation must be a transition of the  *)
(* specification; the state after the last one says what value, Jacobian   *)
(* and Laplacian the outputs of the function must have.                    *)
(***************************************************************************)
EXTENDS FwdLapl, Json, IOUtils, CSV
VARIABLES id, pc, env

Progs == JsonDeserialize(IOEnv.TRACE_IN)
P == Progs[id]
Put(st, out) == CSVWrite("%1$s", << ToJson([id |-> id, at |-> st, out |-> out]) >>, IOEnv.TRACE_OUT)

Init == /\ id \in DOMAIN Progs
        /\ pc = 0
        /\ env = InputEnv(Progs[id].inp.shs, Progs[id].inp.vals, Progs[id].inp.ws)

Step == /\ pc < Len(P.prog)
        /\ LET op == P.prog[pc + 1] IN
           IF op.o = "const"
           THEN env' = TLCEval(env \o Apply(op, env)) /\ pc' = pc + 1
           ELSE IF \/ \E i \in DOMAIN op.a : op.a[i] \notin DOMAIN env
                   \/ ~Enabled(op, env)
           THEN Put(pc + 1, << >>) /\ env' = << >> /\ pc' = Len(P.prog) + 1
           ELSE env' = TLCEval(env \o Apply(op, env)) /\ pc' = pc + 1
        /\ id' = id
Done == /\ pc = Len(P.prog)
        /\ Put(0, [i \in DOMAIN P.outs |-> env[P.outs[i]]])
        /\ pc' = pc + 1 /\ env' = << >> /\ id' = id
Next == Step \/ Done
Spec == Init /\ [][Next]_<<id, pc, env>>
View == <<id, pc>>
NMax == 400
=============================================================================
