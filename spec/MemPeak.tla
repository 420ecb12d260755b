------------------------------ MODULE MemPeak ------------------------------
(* Programs and the declarative memory estimate `Peak`; see MemEst.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, CSV
Rng(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a >= b THEN a ELSE b
SumF(S, F(_)) == LET s == SetToSeq(S) IN FoldLeft(LAMBDA x, v : x + F(v), 0, s)

Width == [bool |-> 1, int8 |-> 1, uint16 |-> 2, int32 |-> 4, float16 |-> 2, bfloat16 |-> 2, float32 |-> 4, int64 |-> 8,
          float64 |-> 8, complex64 |-> 8, complex128 |-> 16, key |-> 8, int4 |-> 1]
DTs == DOMAIN Width
Bytes(t) == FoldLeft(LAMBDA x, y : x * y, IF t.dt \in DTs THEN Width[t.dt] ELSE t.w, t.sh)
LitT == [sh |-> << >>, dt |-> "float64"]

\* ----------------------------------------------------------------- types
\* result variable 0 is a literal, of the type in `lt`
RECURSIVE Types(_)
OutT(P, T, i) == IF P.outs[i] = 0 THEN P.lt[i] ELSE T[P.outs[i]]
OutTypes(q) ==
  CASE "ts" \in DOMAIN q -> q.ts  \* operations; extracted programs carry the types everywhere
    [] q.k = "call" -> LET T == Types(q.sub) IN [i \in DOMAIN q.sub.outs |-> OutT(q.sub, T, i)]
    [] q.k = "scan" -> LET T == Types(q.sub) IN
         [i \in DOMAIN q.sub.outs |-> IF i <= q.nk THEN OutT(q.sub, T, i)
                                      ELSE [OutT(q.sub, T, i) EXCEPT !.sh = <<q.len>> \o @]]
Types(P) == P.ps \o FlattenSeq([i \in DOMAIN P.body |-> OutTypes(P.body[i])])
\* equations that create the variables (0: parameter)
Makers(P) == [i \in DOMAIN P.ps |-> 0] \o FlattenSeq([i \in DOMAIN P.body |-> [j \in DOMAIN OutTypes(P.body[i]) |-> i]])

\* ------------------------------------------------ the declarative estimate
Maximum(S) == CHOOSE x \in S : \A y \in S : y <= x
UsedAt(P, v) == {i \in DOMAIN P.body : v \in Rng(P.body[i].a)}
LastUse(P, v) == IF v <= Len(P.ps) \/ v \in Rng(P.outs) THEN Len(P.body) ELSE Maximum({0} \cup UsedAt(P, v))
\* parameters and results are kept; an intermediate exists from its creation to
\* its last use; results of equations that nobody reads are not counted
RECURSIVE Peak(_)
PeakOf(P, T, mk, last) ==
  FoldLeft(LAMBDA x, i : Max2(x, FoldLeft(LAMBDA y, v : IF mk[v] <= i /\ i <= last[v] THEN y + Bytes(T[v]) ELSE y, 0, [v \in DOMAIN T |-> v])
                                 + (IF P.body[i].k = "op" THEN 0 ELSE Peak(P.body[i].sub))),
           0, [i \in DOMAIN P.body |-> i])
Peak(P) == CHOOSE x \in {PeakOf(P, T, mk, last) : T \in {TLCEval(Types(P))}, mk \in {TLCEval(Makers(P))},
                                                  last \in {TLCEval([v \in 1..Len(Types(P)) |-> LastUse(P, v)])}} : TRUE
=============================================================================
