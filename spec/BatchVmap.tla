----------------------------- MODULE BatchVmap -----------------------------
(***************************************************************************)
(* Vectorisation in chunks.  A configuration has a batch size B, a maximum  *)
(* chunk size M, argument and result trees whose leaves are mapped along an *)
(* axis or not mapped, and a function that is applied to every element.     *)
(* `Plain` is vectorisation at once: the element results, stacked.          *)
(* The chunked execution is a state machine that applies the function to    *)
(* one chunk after the other.                                               *)
(***************************************************************************)
EXTENDS Shapes, Json, IOUtils, CSV
CONSTANTS MaxB, MaxM, MC
VARIABLES phase, B, M, cfg,
          done,     \* elements computed so far, in the order of execution
          out,      \* elements in the order of the result
          sizes     \* sizes of the chunks
vars == <<phase, B, M, cfg, done, out, sizes>>
NoAx == 99      \* not mapped
Desc == 98      \* axes are given for the children

Rnd(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE

\* ------------------------------------------------------------ the chunks
\* the shorter rest comes first, the other chunks are full
Rem == B % M
NChunks == B \div M
SmallBatch == B <= M

InitS == /\ phase = "pick" /\ B = 0 /\ M = 1 /\ cfg = << >> /\ done = << >> /\ out = << >> /\ sizes = << >>
Pick == /\ phase = "pick" /\ \E b \in 0..MaxB, m \in 1..MaxM : B' = b /\ M' = m
        /\ phase' = "run" /\ UNCHANGED <<cfg, done, out, sizes>>
\* all at once
Once == /\ phase = "run" /\ SmallBatch /\ done' = [i \in 1..B |-> i] /\ out' = done' /\ sizes' = <<B>>
        /\ phase' = "done" /\ UNCHANGED <<B, M, cfg>>
\* a full chunk
Chunk == /\ phase = "run" /\ ~SmallBatch /\ Len(done) < NChunks * M
         /\ done' = done \o [i \in 1..M |-> Rem + Len(done) + i]
         /\ out' = done' /\ sizes' = Append(sizes, M) /\ UNCHANGED <<phase, B, M, cfg>>
\* the rest goes in front of the result
Rest == /\ phase = "run" /\ ~SmallBatch /\ Len(done) = NChunks * M
        /\ done' = done \o [i \in 1..Rem |-> i]
        /\ out' = [i \in 1..Rem |-> i] \o out
        /\ sizes' = IF Rem > 0 THEN Append(sizes, Rem) ELSE sizes
        /\ phase' = "done" /\ UNCHANGED <<B, M, cfg>>
Spec == InitS /\ [][Pick \/ Once \/ Chunk \/ Rest]_vars
Bounded == \A i \in DOMAIN sizes : sizes[i] <= M
InOrder == phase = "done" => out = [i \in 1..B |-> i]
EachOnce == phase = "done" => Len(done) = B /\ Rng(done) = 1..B
Total == phase = "done" => SumSeq(sizes) = B

\* ------------------------------------------------- functions on elements
\* A leaf holds an array of shape sh (with the mapped axis ax in it, if any).
Axis(l) == IF l.ax < 0 THEN l.ax + Len(l.esh) + 1 ELSE l.ax
InsertAx(esh, a, n) == SubSeq(esh, 1, a) \o <<n>> \o SubSeq(esh, a + 1, Len(esh))
FullShape(l, n) == IF l.ax = NoAx THEN l.esh ELSE InsertAx(l.esh, Axis(l), n)
\* position in the full array of entry j of element b
PosOf(l, n, b, j) ==
  IF l.ax = NoAx THEN j
  ELSE LET ix == Unflat(l.esh, Strides(l.esh), j)
       IN  Flat(Strides(FullShape(l, n)), InsertAx(ix, Axis(l), b - 1))
\* weighted sum of the entries of an element: tells the entries apart
Reduce(l, n, b) == SumSeq([j \in 1..Size(l.esh) |-> j * l.d[PosOf(l, n, b, j)]])
\* entry j of result o for element b
OutAt(c, o, b, j) ==
  SumSeq([q \in DOMAIN c.leaves |-> c.outs[o].w[q] * Reduce(c.leaves[q], c.B, b)]) + j * c.kw + o
OutFull(c, o) ==
  LET l == c.outs[o]
      sh == FullShape(l, c.B)
      st == Strides(sh)
  IN [sh |-> sh,
      d |-> [p \in 1..Size(sh) |->
        LET ix == Unflat(sh, st, p)
            a == Axis(l)
            b == IF l.ax = NoAx THEN 1 ELSE ix[a + 1] + 1
            eix == IF l.ax = NoAx THEN ix ELSE SubSeq(ix, 1, a) \o SubSeq(ix, a + 2, Len(ix))
        IN OutAt(c, o, b, Flat(Strides(l.esh), eix))]]

\* --------------------------------------------------------- configurations
EShapes == << << >>, <<2>>, <<1>>, <<3>>, <<2, 3>>, <<1, 2>>, <<2, 2, 2>> >>
Need(a) == IF a = NoAx THEN 0 ELSE IF a < 0 THEN -a - 1 ELSE a
EShapeFor(a) == RandomElement({EShapes[i] : i \in {k \in DOMAIN EShapes : Len(EShapes[k]) >= Need(a)}})
AxSet == {0, 0, 1, -1, -2, 2, NoAx}
\* trees with axes; leaves are numbered from i on.  Returns <<tree, leaves>>
RECURSIVE ATree(_, _, _, _)
RECURSIVE AChildren(_, _, _, _)
AChildren(i, k, d, ax) ==
  IF k = 0 THEN << << >>, << >> >>
  ELSE Rnd({0}, LAMBDA z : LET x == TLCEval(ATree(i, d, ax, 0)) IN
             LET r == TLCEval(AChildren(i + Len(x[2]), k - 1, d, ax)) IN << <<x[1]>> \o r[1], x[2] \o r[2] >>)
\* ax: the axis that was already given for the subtree, or Desc
ATree(i, d, ax, min) ==
  Rnd(1..6, LAMBDA h :
    LET cont == d > 0 /\ h <= 3
        own == IF ax # Desc THEN ax ELSE IF cont /\ RandomElement(1..2) = 1 THEN Desc ELSE RandomElement(AxSet)
    IN Rnd({own}, LAMBDA a :
         IF cont
         THEN Rnd({TLCEval(AChildren(i, RandomElement(min..3), d - 1, a))}, LAMBDA r :
                << [t |-> RandomElement({"tuple", "list", "dict"}), i |-> 0, c |-> r[1], ax |-> IF ax = Desc THEN a ELSE Desc], r[2] >>)
         ELSE Rnd({TLCEval(EShapeFor(a))}, LAMBDA e :
                << [t |-> "leaf", i |-> i, c |-> << >>, ax |-> IF ax = Desc THEN a ELSE Desc], << [esh |-> e, ax |-> a] >> >>)))
Data(l, n) == [p \in 1..Size(FullShape(l, n)) |-> RandomElement(-3..3)]

Config(z) ==
  LET n == RandomElement((0 * z)..MaxB)
      g == RandomElement(1..(2 + z))                       \* one axis for all arguments?
      gax == RandomElement({0 * z, 1, -1})
      args == AChildren(z, RandomElement(1..3), RandomElement(0..2), IF g = 1 THEN gax ELSE Desc)
  IN Rnd({TLCEval(n)}, LAMBDA nn : Rnd({TLCEval(<<g, gax, args>>)}, LAMBDA s : LET ls == s[3][2] IN
     Rnd({TLCEval([q \in DOMAIN ls |-> [esh |-> ls[q].esh, ax |-> ls[q].ax, int |-> RandomElement({0, 0, 1}), d |-> Data(ls[q], nn)]])}, LAMBDA leaves :
     Rnd({TLCEval(RandomElement(1..3))}, LAMBDA og : Rnd({TLCEval(RandomElement({0, 0, 1, -1}))}, LAMBDA ogax :
     Rnd({TLCEval(ATree(1, 2, IF og = 1 THEN ogax ELSE Desc, 1))}, LAMBDA ot :
     LET los == ot[2] IN
     Rnd({TLCEval([o \in DOMAIN los |-> [esh |-> los[o].esh, ax |-> los[o].ax,
                   w |-> [q \in DOMAIN leaves |-> IF los[o].ax = NoAx /\ leaves[q].ax # NoAx THEN 0 ELSE RandomElement(-2..2)]]])}, LAMBDA outs :
       [B |-> nn, M |-> RandomElement(1..MaxM), kw |-> RandomElement(0..2), gax |-> IF s[1] = 1 THEN s[2] ELSE Desc,
        args |-> s[3][1], leaves |-> leaves, ogax |-> IF og = 1 THEN ogax ELSE Desc, out |-> ot[1], outs |-> outs])))))))
Ok(c) == /\ \E q \in DOMAIN c.leaves : c.leaves[q].ax # NoAx
         /\ c.B > 0 \/ \A o \in DOMAIN c.outs : c.outs[o].ax # NoAx
Gen == /\ phase = "pick" /\ \E c \in {TLCEval(Config(M))} :
            /\ cfg' = c /\ B' = c.B /\ M' = c.M
            /\ (Ok(c) => CSVWrite("%1$s", << ToJson([c |-> c, in |-> [q \in DOMAIN c.leaves |-> FullShape(c.leaves[q], c.B)],
                                                     exp |-> [o \in DOMAIN c.outs |-> OutFull(c, o)]]) >>, IOEnv.GEN_OUT))
       /\ phase' = "done" /\ UNCHANGED <<done, out, sizes>>
SpecSim == InitS /\ [][Gen]_vars
=============================================================================
