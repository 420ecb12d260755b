------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of custom rules and what a transformation makes of it.     *)
(* Names are names of compiled functions (fa, fb, fc) or of a primitive    *)
(* (neg).  A program is a sequence of nodes applied one after the other:   *)
(*   [k |-> "fn",  n |-> name, b |-> program]  call of a compiled function *)
(*   [k |-> "scan", ...]                       a loop of two iterations    *)
(*   [k |-> "const", ...]                      the same on constant data   *)
(* Every function multiplies its argument by a factor of its own after     *)
(* executing its body; a rule r replaces the whole call by a factor of r.  *)
(* The meaning of a program is the multiset of factors of its result.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Names, RuleIds, Depth, ProgDepth
VARIABLES reg, last, hist
vars == <<reg, last, hist>>
NoRule == "none"
\* primitives come with a rule of their own, which multiplies by their factor as well
BuiltIn == "builtin"
Prims == {"neg"}

\* number of times each factor occurs in the result
Factors == Names \cup RuleIds
Unit == [f \in Factors |-> 0]
Plus(a, b) == [f \in Factors |-> a[f] + b[f]]
One(f) == [Unit EXCEPT ![f] = 1]
RECURSIVE Meaning(_, _, _)
Meaning(p, rg, dep) ==
  IF p = << >> THEN Unit
  ELSE LET h == Head(p)
           rest == Meaning(Tail(p), rg, dep)
       IN Plus(rest,
            CASE h.k = "scan"  -> Plus(Meaning(h.b, rg, dep), Meaning(h.b, rg, dep))
              [] h.k = "const" -> Unit      \* a constant, multiplied by a constant value of one
              \* rules act on calls with dependent arguments
              [] h.k = "fn"    -> IF dep /\ rg[h.n] \in RuleIds THEN One(rg[h.n])
                                  ELSE Plus(One(h.n), Meaning(h.b, rg, dep)))
\* Rules that act on a whole array (r2, and a primitive without any rule) make every
\* element depend on all inputs; loops refuse to change the pattern of what they carry.
RECURSIVE Widens(_, _, _)
Widens(p, rg, inloop) ==
  IF p = << >> THEN FALSE
  ELSE LET h == Head(p) IN
       Widens(Tail(p), rg, inloop) \/
       CASE h.k = "scan"  -> Widens(h.b, rg, TRUE)
         [] h.k = "const" -> FALSE
         [] h.k = "fn"    -> IF rg[h.n] \in RuleIds THEN inloop /\ rg[h.n] = "r2"
                             ELSE (inloop /\ h.n \in Prims /\ rg[h.n] = NoRule) \/ Widens(h.b, rg, inloop)
RECURSIVE NamesOf(_)
NamesOf(p) == IF p = << >> THEN {} ELSE ({Head(p).n} \ {""}) \cup NamesOf(Head(p).b) \cup NamesOf(Tail(p))

NoRules == [n \in Names |-> IF n \in Prims THEN BuiltIn ELSE NoRule]
Init == reg = NoRules /\ last = reg /\ hist = << >>
Log(h) == hist' = Append(hist, h)
Register(n, r) == /\ reg' = [reg EXCEPT ![n] = r] /\ last' = [last EXCEPT ![n] = r]
                  /\ Log([op |-> "register", n |-> n, r |-> r, ok |-> TRUE])
\* removing what is not there is an error and changes nothing
Deregister(n) == /\ reg' = [reg EXCEPT ![n] = NoRule] /\ last' = [last EXCEPT ![n] = NoRule]
                 /\ Log([op |-> "deregister", n |-> n, r |-> NoRule, ok |-> reg[n] # NoRule])
Query(n) == /\ UNCHANGED <<reg, last>> /\ Log([op |-> "query", n |-> n, r |-> reg[n], ok |-> reg[n] # NoRule])
Transform(p) == /\ UNCHANGED <<reg, last>>
                /\ Log([op |-> "transform", p |-> p, ok |-> TRUE, r |-> NoRule, n |-> "", m |-> Meaning(p, reg, TRUE), widens |-> Widens(p, reg, FALSE)])

\* random programs for simulation
RECURSIVE RProg(_, _)
RNode(d) == CHOOSE x \in {LET k == RandomElement(1..8) IN
              CASE k = 1 /\ d > 0 -> [k |-> "scan", n |-> "", b |-> TLCEval(RProg(d - 1, RandomElement(1..2)))]
                [] k = 2 -> [k |-> "const", n |-> "", b |-> TLCEval(RProg(0, 1))]
                [] OTHER -> LET n == RandomElement(Names) IN
                            [k |-> "fn", n |-> n, b |-> IF d = 0 \/ n \in Prims THEN << >> ELSE TLCEval(RProg(d - 1, RandomElement(0..2)))]} : TRUE
RProg(d, len) == [i \in 1..len |-> RNode(d)]

\* programs transformed before are transformed again later on
Used == {hist[i].p : i \in {j \in DOMAIN hist : hist[j].op = "transform"}}
Emit == CSVWrite("%1$s", << ToJson([hist |-> hist', reg |-> reg']) >>, IOEnv.GEN_OUT)
Step == /\ Len(hist) < Depth
        /\ \E c \in {RandomElement(1..10)} :
             CASE c \in 1..3 -> \E n \in {RandomElement(Names)} : \E r \in {RandomElement(RuleIds)} : Register(n, r)
               [] c \in 4..5 -> \E n \in {RandomElement(Names)} : Deregister(n)
               [] c = 6      -> \E n \in {RandomElement(Names)} : Query(n)
               [] c \in 7..8 /\ Used # {} -> \E p \in {RandomElement(Used)} : Transform(p)
               [] OTHER      -> \E p \in {TLCEval(RProg(ProgDepth, RandomElement(1..3)))} : Transform(p)
        /\ (Len(hist') = Depth => Emit)
SpecSim == Init /\ [][Step]_vars

----------------------------------------------------------------------------
(* Exhaustive exploration: all histories of Register and Deregister; the    *)
(* meanings of a fixed family of nested programs in every reachable state.  *)
Fn(n, b) == [k |-> "fn", n |-> n, b |-> b]
Scan(b) == [k |-> "scan", n |-> "", b |-> b]
Probes == {<<Fn(n, << >>)>> : n \in Names}
          \cup {<<Fn(n, <<Fn(m, << >>)>>)>> : n \in Names, m \in Names}
          \cup {<<Scan(<<Fn(n, <<Fn(m, << >>), Fn("fa", << >>)>>)>>), Fn(m, << >>)>> : n \in Names, m \in Names}
Next == \E n \in Names : Deregister(n) \/ \E r \in RuleIds : Register(n, r)
Spec == Init /\ [][Next]_vars
NoHist == <<reg, last>>
LatestRule == reg = last
\* only names that occur in a program matter to it
Local == \A p \in Probes : Meaning(p, reg, TRUE) = Meaning(p, [n \in Names |-> IF n \in NamesOf(p) THEN reg[n] ELSE NoRules[n]], TRUE)
\* without rules for its names a program means what it means without any rule
Restored == \A p \in Probes : (\A n \in NamesOf(p) : reg[n] \notin RuleIds) => Meaning(p, reg, TRUE) = Meaning(p, NoRules, TRUE)
\* a rule shadows exactly the calls of its name, at any depth
Shadow == \A p \in Probes : \A n \in Names : reg[n] \in RuleIds => Meaning(p, reg, TRUE)[n] = 0
\* registering and removing again is undetectable
Undo == \A p \in Probes : \A n \in Names : \A r \in RuleIds :
          reg[n] \notin RuleIds => Meaning(p, [[reg EXCEPT ![n] = r] EXCEPT ![n] = NoRule], TRUE) = Meaning(p, reg, TRUE)
TypeOK == reg \in [Names -> RuleIds \cup {NoRule, BuiltIn}]
=============================================================================
