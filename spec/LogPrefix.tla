----------------------------- MODULE LogPrefix -----------------------------
(***************************************************************************)
(* Prefixes of log messages while transformations run in several threads.   *)
(* Each thread works on a stack of operations (an operation may transform   *)
(* another program itself); the configuration of the logger is global.      *)
(* An operation is named by its thread and its depth.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Threads, MaxDepth, Depth, Algo
VARIABLES depth,     \* thread -> number of operations it is inside of
          exc,       \* thread -> an exception is on its way out
          active,    \* the operations entered and not yet left, in the order of entering
          handlers,  \* what the root logger is configured to: "orig" or the operation whose prefix it adds
          saved,     \* what is to be restored (algorithm)
          emitted, hist
vars == <<depth, exc, active, handlers, saved, emitted, hist>>
Orig == <<0, 0>>
Op(t, d) == <<t, d>>
Top(s) == s[Len(s)]
Without(s, o) == SelectSeq(s, LAMBDA p : p # o)

Init == /\ depth = [t \in Threads |-> 0] /\ exc = [t \in Threads |-> FALSE]
        /\ active = << >> /\ handlers = Orig /\ saved = << >> /\ emitted = << >> /\ hist = << >>

\* ------------------------------------------------------------ algorithms
\* "shared": one common stack, the first saves and the last restores
\* "nested": every operation saves what it finds and puts it back
EnterAlg(o) ==
  /\ handlers' = o
  /\ saved' = IF Algo = "nested" THEN Append(saved, [o |-> o, h |-> handlers])
              ELSE IF active = << >> THEN <<[o |-> Orig, h |-> handlers]>> ELSE saved
LeaveAlg(o) ==
  IF Algo = "nested"
  THEN LET i == CHOOSE j \in DOMAIN saved : saved[j].o = o IN
       /\ handlers' = saved[i].h /\ saved' = SelectSeq(saved, LAMBDA e : e.o # o)
  ELSE LET rest == Without(active, o) IN
       IF rest = << >> THEN handlers' = saved[1].h /\ saved' = << >>
       ELSE handlers' = Top(rest) /\ saved' = saved

\* --------------------------------------------------------------- actions
Log(h) == hist' = Append(hist, h)
Enter(t) ==
  LET o == Op(t, depth[t] + 1) IN
  /\ ~exc[t] /\ depth[t] < MaxDepth
  /\ depth' = [depth EXCEPT ![t] = @ + 1] /\ active' = Append(active, o)
  /\ EnterAlg(o) /\ emitted' = << >> /\ UNCHANGED exc
  /\ Log([a |-> "enter", t |-> t, o |-> o, pre |-> << >>, act |-> active'])
Warn(t) ==
  /\ ~exc[t] /\ depth[t] > 0 /\ emitted' = <<handlers>>
  /\ UNCHANGED <<depth, exc, active, handlers, saved>>
  /\ Log([a |-> "warn", t |-> t, o |-> Op(t, depth[t]), pre |-> <<Top(active)>>, act |-> active])
\* a constant operation that cannot be evaluated ahead of time: it is reported with
\* the prefix of its own and nothing else happens
Report(t) ==
  LET o == Op(t, depth[t] + 1) IN
  /\ ~exc[t] /\ depth[t] < MaxDepth /\ emitted' = <<o>>
  /\ UNCHANGED <<depth, exc, active, handlers, saved>>
  /\ Log([a |-> "report", t |-> t, o |-> o, pre |-> <<o>>, act |-> active])
Leave(t) ==
  LET o == Op(t, depth[t]) IN
  /\ ~exc[t] /\ depth[t] > 0 /\ depth' = [depth EXCEPT ![t] = @ - 1] /\ active' = Without(active, o)
  /\ LeaveAlg(o) /\ emitted' = << >> /\ UNCHANGED exc
  /\ Log([a |-> "leave", t |-> t, o |-> o, pre |-> << >>, act |-> active'])
\* The operation fails; the enclosing operation or the caller gets the exception.
\* Reports of it carry the latest prefix or the one of the failing operation.
Fail(t) ==
  LET o == Op(t, depth[t]) IN
  /\ depth[t] > 0 /\ depth' = [depth EXCEPT ![t] = @ - 1] /\ active' = Without(active, o)
  /\ LeaveAlg(o) /\ emitted' = <<handlers>> /\ exc' = [exc EXCEPT ![t] = depth[t] > 1]
  /\ Log([a |-> "fail", t |-> t, o |-> o, pre |-> <<Top(active), o>>, act |-> active'])
\* an enclosing operation recovers
Catch(t) ==
  /\ exc[t] /\ exc' = [exc EXCEPT ![t] = FALSE] /\ emitted' = << >>
  /\ UNCHANGED <<depth, active, handlers, saved>>
  /\ Log([a |-> "catch", t |-> t, o |-> Op(t, depth[t]), pre |-> << >>, act |-> active])

Act(t) == Enter(t) \/ Report(t) \/ Warn(t) \/ Leave(t) \/ Fail(t) \/ Catch(t)
Next == \E t \in Threads : Act(t)
Spec == Init /\ [][Next]_vars
NoHist == <<depth, exc, active, handlers, saved, emitted>>

\* ------------------------------------------------------------ properties
Ops == {Op(t, d) : t \in Threads, d \in 1..MaxDepth}
TypeOK == /\ \A i \in DOMAIN active : active[i] \in Ops
          /\ Len(active) = Cardinality({active[i] : i \in DOMAIN active})
          /\ {active[i] : i \in DOMAIN active} = {o \in Ops : o[2] <= depth[o[1]]}
\* the order of entering agrees with every thread's nesting
Nested == \A i, j \in DOMAIN active : active[i][1] = active[j][1] /\ i < j => active[i][2] < active[j][2]
Restored == active = << >> => handlers = Orig /\ saved = << >>
Latest == active # << >> => handlers = Top(active)
\* whatever is emitted carries the prefix of an operation that is being processed
Truthful == [][\A i \in DOMAIN emitted' : emitted'[i] \in {active[j] : j \in {Len(active)} \cap DOMAIN active} \cup {Op(t, depth[t] + 1) : t \in Threads}]_vars

\* ------------------------------------------------------------ simulation
Emit == CSVWrite("%1$s", << ToJson([hist |-> hist']) >>, IOEnv.GEN_OUT)
\* weighted choice; towards the end everything is left
Closing == Len(hist) > Depth
SimStep ==
  /\ \/ /\ ~Closing
        /\ \E t \in {RandomElement(Threads)} : \E c \in {RandomElement(1..10)} :
             CASE exc[t] -> IF c < 6 THEN Fail(t) ELSE Catch(t)
               [] depth[t] = 0 -> IF c = 1 THEN Report(t) ELSE Enter(t)
               [] c = 10 /\ depth[t] < MaxDepth -> Report(t)
               [] c \in 1..4 /\ depth[t] < MaxDepth -> Enter(t)
               [] c \in 5..6 -> Warn(t)
               [] c \in 7..8 -> Leave(t)
               [] c = 9 -> Fail(t)
               [] OTHER -> Warn(t)
     \/ /\ Closing /\ active # << >>
        /\ \E t \in {RandomElement({u \in Threads : depth[u] > 0})} :
             IF exc[t] THEN (IF RandomElement(1..2) = 1 THEN Fail(t) ELSE Catch(t)) ELSE (IF RandomElement(1..4) = 1 THEN Fail(t) ELSE Leave(t))
  /\ (Len(hist') > Depth /\ active' = << >> => Emit)
SpecSim == Init /\ [][SimStep]_vars
=============================================================================
