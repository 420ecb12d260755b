----------------------------- MODULE AutoBatch -----------------------------
(***************************************************************************)
(* Choosing the chunk size from the memory a device reports.  c1 and c2 are *)
(* the estimates for chunks of one and two elements, lim the reported limit *)
(* (-1: nothing is reported), num/den the fraction that may be used, nb the *)
(* number of elements.  `Best` says which size is right; the machine         *)
(* queries the device, estimates, chooses and executes the chunks.           *)
(***************************************************************************)
EXTENDS MemPeak
CONSTANTS MaxCost, MaxLim, MaxB
VARIABLES phase, c, size, left, used
vars == <<phase, c, size, left, used>>
None == -1
All == 1000000000
Slope(d) == d.c2 - d.c1
Cost(d, n) == d.c1 + (n - 1) * Slope(d)
Fits(d, n) == d.den * Cost(d, n) <= d.lim * d.num

\* --------------------------------------------------------- what is right
\* the largest size that fits and at least one; without statistics one;
\* everything at once if more elements do not cost more
Right(d, n) ==
  IF d.lim = None THEN n = 1
  ELSE IF Slope(d) = 0 THEN n = All
  ELSE n >= 1 /\ (n > 1 => Fits(d, n)) /\ ~Fits(d, n + 1)

\* ------------------------------------------------------------ the machine
Query == /\ phase = "query" /\ UNCHANGED <<c, left, used>>
         /\ IF c.lim = None THEN size' = 1 /\ phase' = "run" ELSE size' = 0 /\ phase' = "choose"
\* the limit without the fixed cost, divided among the elements
Floor(d) == (d.num * d.lim - d.den * (d.c1 - Slope(d))) \div (d.den * Slope(d))
Choose == /\ phase = "choose" /\ phase' = "run" /\ UNCHANGED <<c, left, used>>
          /\ size' = IF Slope(c) = 0 THEN All ELSE Max2(Floor(c), 1)
Chunk == /\ phase = "run" /\ left > 0
         /\ LET n == IF left < size THEN left ELSE size IN left' = left - n /\ used' = Max2(used, n)
         /\ UNCHANGED <<phase, c, size>>
Next == Query \/ Choose \/ Chunk
Done == phase = "run" /\ left = 0

Chosen == phase = "run" => Right(c, size)
\* what is executed at once fits unless a single element does not fit
Within == phase = "run" /\ c.lim # None /\ used > 1 /\ Slope(c) > 0 => Fits(c, used)
NoLess == Done /\ c.lim # None /\ Slope(c) > 0 /\ used < c.nb => ~Fits(c, used + 1)
Terminates == <>Done

Init == /\ phase = "query" /\ size = 0 /\ used = 0
        /\ \E c1 \in 0..MaxCost, e \in 0..3, l \in -1..MaxLim, f \in {<<1, 1>>, <<3, 4>>, <<1, 2>>}, b \in 0..MaxB :
             c = [c1 |-> c1, c2 |-> c1 + e, lim |-> l, num |-> f[1], den |-> f[2], nb |-> b]
        /\ left = c.nb
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ----------------------------------- observed runs of the implementation
Given == JsonDeserialize(IOEnv.MEM_IN)
InitGiven == /\ phase = "query" /\ size = 0 /\ used = 0
             /\ \E i \in DOMAIN Given :
                  c = [c1 |-> Peak(Given[i].p1), c2 |-> Peak(Given[i].p2), lim |-> Given[i].lim, num |-> Given[i].num, den |-> Given[i].den,
                       nb |-> Given[i].nb, i |-> i]
             /\ left = c.nb
Emit == CSVWrite("%1$s", << ToJson([i |-> c.i, c1 |-> c.c1, c2 |-> c.c2, used |-> used']) >>, IOEnv.GEN_OUT)
NextGiven == Query \/ Choose \/ (Chunk /\ (left' = 0 => Emit))
SpecGiven == InitGiven /\ [][NextGiven]_vars
\* decreasing costs are not constrained
ChosenGiven == Slope(c) >= 0 => Chosen
=============================================================================
