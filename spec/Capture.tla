------------------------------ MODULE Capture ------------------------------
(***************************************************************************)
(* Memory estimates in several threads and inside of one another, while     *)
(* other code prints.  An estimate is named by its thread and its depth;    *)
(* the standard output is global.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Threads, MaxDepth, Depth, MaxSaid, Algo
VARIABLES depth,    \* thread -> estimates it is inside of
          exc,      \* thread -> an exception is on its way out
          out,      \* the standard output: Orig or the buffer of an estimate
          saved, buf,   \* of the estimates: what they found, what was printed into their buffer
          printed,  \* what has reached the real output
          said,     \* number of messages printed so far
          result,   \* of the last step: << >> or <<the estimate, the number returned>>
          hist
vars == <<depth, exc, out, saved, buf, printed, said, result, hist>>
Orig == <<0, 0>>
Op(t, d) == <<t, d>>
Ops == {Op(t, d) : t \in Threads, d \in 1..MaxDepth}
\* the bytes of an argument and of a result of its size
Num(o) == 16 * (10 * o[1] + o[2])

Init == /\ depth = [t \in Threads |-> 0] /\ exc = [t \in Threads |-> FALSE] /\ out = Orig
        /\ saved = [o \in Ops |-> Orig] /\ buf = [o \in Ops |-> << >>] /\ printed = << >> /\ said = 0 /\ result = << >> /\ hist = << >>

\* ------------------------------------------------------------ algorithms
\* "own": the number is handed over privately
\* "swap": the standard output is replaced during the estimate and the last line read is the number
PutIn(x, where, b) == IF where = Orig THEN b ELSE [b EXCEPT ![where] = Append(@, x)]
Begin(t) ==
  LET o == Op(t, depth[t] + 1) IN
  /\ ~exc[t] /\ depth[t] < MaxDepth /\ depth' = [depth EXCEPT ![t] = @ + 1] /\ result' = << >>
  /\ IF Algo = "swap" THEN out' = o /\ saved' = [saved EXCEPT ![o] = out] /\ buf' = [buf EXCEPT ![o] = << >>]
     ELSE UNCHANGED <<out, saved, buf>>
  /\ UNCHANGED <<exc, printed, said>>
  /\ hist' = Append(hist, [a |-> "enter", t |-> t, o |-> o, n |-> 0])
Say(t) ==
  /\ ~exc[t] /\ said < MaxSaid /\ said' = said + 1 /\ result' = << >>
  /\ buf' = PutIn(said + 1, out, buf)
  /\ printed' = IF out = Orig THEN Append(printed, said + 1) ELSE printed
  /\ UNCHANGED <<depth, exc, out, saved>>
  /\ hist' = Append(hist, [a |-> "warn", t |-> t, o |-> Op(t, depth[t]), n |-> said + 1])
EndSwap(o, b) ==
  /\ out' = saved[o] /\ saved' = saved
  \* the rest is passed on
  /\ LET rest == IF b[o] = << >> THEN << >> ELSE SubSeq(b[o], 1, Len(b[o]) - 1) IN
     IF saved[o] = Orig THEN printed' = printed \o rest /\ buf' = b
     ELSE printed' = printed /\ buf' = [b EXCEPT ![saved[o]] = @ \o rest]
Finish(t) ==
  LET o == Op(t, depth[t]) IN
  /\ ~exc[t] /\ depth[t] > 0 /\ depth' = [depth EXCEPT ![t] = @ - 1]
  /\ IF Algo = "swap"
     THEN LET b == PutIn(1000 + Num(o), out, buf) IN
          /\ EndSwap(o, b)
          /\ result' = <<o, IF b[o] = << >> THEN 0 ELSE b[o][Len(b[o])] - 1000>>
     ELSE result' = <<o, Num(o)>> /\ UNCHANGED <<out, saved, buf, printed>>
  /\ UNCHANGED <<exc, said>>
  /\ hist' = Append(hist, [a |-> "leave", t |-> t, o |-> o, n |-> Num(o)])
Fail(t) ==
  LET o == Op(t, depth[t]) IN
  /\ depth[t] > 0 /\ depth' = [depth EXCEPT ![t] = @ - 1] /\ exc' = [exc EXCEPT ![t] = depth[t] > 1] /\ result' = << >>
  /\ IF Algo = "swap" THEN out' = saved[o] ELSE out' = out
  /\ UNCHANGED <<saved, buf, printed, said>>
  /\ hist' = Append(hist, [a |-> "fail", t |-> t, o |-> o, n |-> 0])
Catch(t) ==
  /\ exc[t] /\ exc' = [exc EXCEPT ![t] = FALSE] /\ result' = << >>
  /\ UNCHANGED <<depth, out, saved, buf, printed, said>>
  /\ hist' = Append(hist, [a |-> "catch", t |-> t, o |-> Op(t, depth[t]), n |-> 0])
Act(t) == Begin(t) \/ Say(t) \/ Finish(t) \/ Fail(t) \/ Catch(t)
Next == \E t \in Threads : Act(t)
Spec == Init /\ [][Next]_vars
NoHist == <<depth, exc, out, saved, buf, printed, said, result>>

\* ------------------------------------------------------------ properties
Idle == \A t \in Threads : depth[t] = 0
Right == result # << >> => result[2] = Num(result[1])
Restored == Idle => out = Orig
Kept == Idle => printed = [i \in 1..said |-> i]

\* ------------------------------------------------------------ simulation
Closing == Len(hist) > Depth
Emit == CSVWrite("%1$s", << ToJson([hist |-> hist']) >>, IOEnv.GEN_OUT)
SimStep ==
  /\ \/ /\ ~Closing
        /\ \E t \in {RandomElement(Threads)} : \E c \in {RandomElement(1..10)} :
             CASE exc[t] -> IF c < 6 THEN Fail(t) ELSE Catch(t)
               [] depth[t] = 0 -> IF c = 1 THEN Say(t) ELSE Begin(t)
               [] c \in 1..4 /\ depth[t] < MaxDepth -> Begin(t)
               [] c \in 5..6 -> Say(t)
               [] c = 7 -> Fail(t)
               [] OTHER -> Finish(t)
     \/ /\ Closing /\ ~Idle
        /\ \E t \in {RandomElement({u \in Threads : depth[u] > 0})} :
             IF exc[t] THEN (IF RandomElement(1..2) = 1 THEN Fail(t) ELSE Catch(t)) ELSE (IF RandomElement(1..4) = 1 THEN Fail(t) ELSE Finish(t))
  /\ (Len(hist') > Depth /\ Idle' => Emit)
SpecSim == Init /\ [][SimStep]_vars
=============================================================================
