------------------------------ MODULE CallHist ------------------------------
(***************************************************************************)
(* Histories of calls.  Two transformed functions and one operator are     *)
(* made from the same user function and called again and again with other  *)
(* numbers, sizes, containers, precisions, weights and modes of evaluation. *)
(* What a call returns (`Result`, `Store`) is a function of that call.      *)
(* The machine that serves the calls does have a memory: compiled programs *)
(* kept per call signature; the invariants say that it never shows.        *)
(*                                                                         *)
(* The user function concatenates all arrays to v, cuts v into rows of     *)
(* length G (an error if that is impossible), and returns                   *)
(*   rows[r] = s * SUM_j j * v[r,j]^2,  pair[r] = v[r,1] * v[r,G] and        *)
(*   total = SUM_r rows[r].                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxCalls, MaxN, MC
VARIABLES c, hist, memo, out
vars == <<c, hist, memo, out>>

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f(n)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))

\* a call: obj (1, 2 transformed functions, 3 operator), args (one sequence of array sizes per argument), x (numbers), w (weight of
\* every array), s (keyword argument)
Sizes(q) == Flat(q.args)
N(q) == SumTo(LAMBDA i : Sizes(q)[i], Len(Sizes(q)))
\* the array an input belongs to
Owner(q, k) == CHOOSE i \in DOMAIN Sizes(q) : SumTo(LAMBDA j : Sizes(q)[j], i - 1) < k /\ k <= SumTo(LAMBDA j : Sizes(q)[j], i)
W(q, k) == q.w[Owner(q, k)]
Fails(d, q) == N(q) % d.G # 0
Rows(d, q) == N(q) \div d.G
At(d, r, j) == (r - 1) * d.G + j

\* ------------------------------------------------------------ the results
RowV(d, q, r) == q.s * SumTo(LAMBDA j : j * q.x[At(d, r, j)] * q.x[At(d, r, j)], d.G)
RowL(d, q, r) == q.s * SumTo(LAMBDA j : 2 * j * W(q, At(d, r, j)) * W(q, At(d, r, j)), d.G)
RowJ(d, q, r, k) == IF k \in At(d, r, 1)..At(d, r, d.G) THEN q.s * 2 * (k - At(d, r, 0)) * q.x[k] * W(q, k) ELSE 0
PairJ(d, q, r, k) == IF d.G = 1 THEN (IF k = r THEN 2 * q.x[k] * W(q, k) ELSE 0)
                     ELSE IF k = At(d, r, 1) THEN q.x[At(d, r, d.G)] * W(q, k)
                     ELSE IF k = At(d, r, d.G) THEN q.x[At(d, r, 1)] * W(q, k) ELSE 0
PairL(d, q, r) == IF d.G = 1 THEN 2 * W(q, r) * W(q, r) ELSE 0
Result(d, q) ==
  LET m == Rows(d, q)  ks == [k \in 1..N(q) |-> k] IN
  [rows  |-> [r \in 1..m |-> [v |-> RowV(d, q, r), l |-> RowL(d, q, r), g |-> [k \in 1..N(q) |-> RowJ(d, q, r, k)]]],
   pair  |-> [r \in 1..m |-> [v |-> q.x[At(d, r, 1)] * q.x[At(d, r, d.G)], l |-> PairL(d, q, r), g |-> [k \in 1..N(q) |-> PairJ(d, q, r, k)]]],
   total |-> << [v |-> SumTo(LAMBDA r : RowV(d, q, r), m), l |-> SumTo(LAMBDA r : RowL(d, q, r), m),
                 g |-> [k \in 1..N(q) |-> SumTo(LAMBDA r : RowJ(d, q, r, k), m)]] >>]

\* ------------------------------------------------------------- the storage
\* a threshold is an absolute number or a fraction num/den of the number of inputs of this call
Resolve(t, n) == IF t.den = 1 THEN t.num ELSE (t.num * n) \div t.den
\* number of columns, 0: dense
Store(d, q) ==
  LET T == Resolve(d.thr[q.obj], N(q))
      S(w) == IF T > 0 /\ w <= T THEN w ELSE 0
        E(w) == IF T > 0 THEN w ELSE 0   \* elementwise operations stay sparse
  IN [rows |-> S(d.G), pair |-> E(IF d.G = 1 THEN 1 ELSE 2), total |-> IF S(d.G) = 0 THEN 0 ELSE S(N(q))]

\* ------------------------------------------------- the machine with memory
\* everything a compiled program depends on
Sig(q) == <<q.obj, q.args, q.f4, q.wform, q.mode>>
\* what is fixed when a program is compiled
Compile(d, q) == [T |-> Resolve(d.thr[q.obj], N(q)), n |-> N(q)]
Known(q) == Sig(q) \in DOMAIN memo
Serve(d, q) == IF Known(q) THEN memo[Sig(q)] ELSE Compile(d, q)
Call(q) == /\ Len(hist) < MaxCalls
           /\ hist' = Append(hist, q)
           /\ c' = c
           /\ IF Fails(c, q)
              THEN memo' = memo /\ out' = [fails |-> TRUE, T |-> 0, n |-> N(q)]
              ELSE /\ memo' = IF Known(q) \/ q.mode = "eager" THEN memo ELSE memo @@ (Sig(q) :> Compile(c, q))
                   /\ out' = [fails |-> FALSE, T |-> Serve(c, q).T, n |-> Serve(c, q).n]
\* a call is served as if it were the first one
NoHistory == hist # << >> =>
  LET q == hist[Len(hist)] IN out = [fails |-> Fails(c, q), T |-> IF Fails(c, q) THEN 0 ELSE Resolve(c.thr[q.obj], N(q)), n |-> N(q)]
\* a failing call leaves nothing behind
OnlyGood == \A k \in DOMAIN memo : \E i \in DOMAIN hist : Sig(hist[i]) = k /\ ~Fails(c, hist[i])
\* the results are linear in s and quadratic in the weights
Laws == \A i \in {Len(hist)} \ {0} : ~Fails(c, hist[i]) =>
  LET q == hist[i]  r == Result(c, q)  r0 == Result(c, [q EXCEPT !.w = [j \in DOMAIN q.w |-> 2 * q.w[j]]])  r1 == Result(c, [q EXCEPT !.s = 3 * q.s]) IN
  /\ r0.total[1].l = 4 * r.total[1].l /\ r0.total[1].v = r.total[1].v
  /\ \A k \in 1..N(q) : r0.total[1].g[k] = 2 * r.total[1].g[k] /\ r1.total[1].g[k] = 3 * r.total[1].g[k]
  /\ \A p \in DOMAIN r.rows : Cardinality({k \in 1..N(q) : r.rows[p].g[k] # 0}) <= c.G /\ Cardinality({k \in 1..N(q) : r.pair[p].g[k] # 0}) <= 2

\* ------------------------------------------------------------ exploration
Thr(a, b) == [num |-> a, den |-> b]
Start0 == /\ hist = << >> /\ memo = [x \in {} |-> 0] /\ out = [fails |-> TRUE, T |-> 0, n |-> 0]
InitMC == /\ Start0
          /\ c \in [G : 1..2, thr : {<<a, b, b>> : a \in {Thr(0, 1), Thr(1, 2), Thr(3, 4)}, b \in {Thr(2, 1), Thr(1, 4)}}]
ArgsMC == { << <<n>> >> : n \in 1..MaxN } \cup { << <<a>>, <<b>> >> : a \in 1..1, b \in 1..2 } \cup { << <<1, 2>> >> }
NextMC == \E obj \in 1..2, a \in ArgsMC, f4 \in {0, 1}, m \in {"direct", "eager"} :
            LET n == SumTo(LAMBDA i : Flat(a)[i], Len(Flat(a))) IN
            Call([obj |-> obj, args |-> a, f4 |-> f4, wform |-> "none", mode |-> m, s |-> 1 + (n % 2),
                  x |-> [k \in 1..n |-> k - 2], w |-> [k \in DOMAIN Flat(a) |-> k]])
SpecMC == InitMC /\ [][NextMC]_vars

\* ------------------------------------------------------- random histories
Thrs == {Thr(0, 1), Thr(1, 1), Thr(2, 1), Thr(3, 1), Thr(5, 1), Thr(9, 1), Thr(1, 2), Thr(1, 4), Thr(3, 4), Thr(1, 8), Thr(7, 8), Thr(5, 8)}
InitSim == /\ Start0 /\ c = [G |-> 0, thr |-> << >>]
Pick(S) == RandomElement(S)
ChooseC == c' = [G |-> Pick(1..3), thr |-> TLCEval([i \in 1..3 |-> Pick(Thrs)])] /\ UNCHANGED <<hist, memo, out>>
\* sizes that add up to n, grouped
RArgs(n) ==
  LET h == Pick(1..5)  k == Pick(0..n)  k2 == Pick(0..(n - k)) IN
  TLCEval(CASE h = 1 -> << <<n>> >> [] h = 2 -> << <<k>>, <<n - k>> >> [] h = 3 -> << <<k, n - k>> >>
            [] h = 4 -> << <<k>>, <<k2, n - k - k2>> >> [] h = 5 -> << <<k>>, <<k2>>, <<n - k - k2>> >>)
Modes == {"direct", "direct", "jit", "vmap"}
\* most calls repeat part of an earlier one
RCall(h) ==
  LET o == IF Pick(1..9) = 1 THEN 3 ELSE Pick(1..2)
      old == IF h = << >> THEN << >> ELSE <<h[Pick(DOMAIN h)]>>
      again == old # << >> /\ Pick(1..3) = 1
      n == IF again THEN N(old[1]) ELSE IF Pick(1..8) = 1 THEN Pick(1..MaxN) ELSE c.G * Pick(1..(MaxN \div c.G))
      args == IF o = 3 THEN << <<n>> >> ELSE IF again /\ Pick(1..2) = 1 THEN old[1].args ELSE RArgs(n)
      wf == IF o = 3 THEN "none" ELSE Pick({"none", "num", "arg", "leaf", "tree"})
      nl == Len(Flat(args))
      own == [i \in 1..nl |-> CHOOSE a \in DOMAIN args : Len(Flat(SubSeq(args, 1, a - 1))) < i /\ i <= Len(Flat(SubSeq(args, 1, a)))]
      aw == TLCEval([a \in DOMAIN args |-> Pick({-2, -1, 0, 1, 2, 3})])
      w1 == Pick({-2, 2, 3, 1})
  IN [obj |-> o, args |-> args, x |-> TLCEval([k \in 1..n |-> Pick((-3)..4)]), x2 |-> TLCEval([k \in 1..n |-> Pick((-3)..4)]),
      f4 |-> IF Pick(1..4) = 1 THEN Pick(1..3) ELSE 0, s |-> Pick(1..3), wform |-> wf, mode |-> IF o = 3 THEN "direct" ELSE Pick(Modes),
      cont |-> Pick(0..2),
      w |-> TLCEval([i \in 1..nl |-> IF wf = "none" THEN 1 ELSE IF wf = "num" THEN w1 ELSE IF wf = "arg" THEN aw[own[i]] ELSE Pick({-2, -1, 0, 1, 2, 3})])]
Exp(q) == IF Fails(c, q) THEN [fails |-> TRUE]
          ELSE [fails |-> FALSE, res |-> Result(c, q), res2 |-> Result(c, [q EXCEPT !.x = q.x2]), st |-> Store(c, q)]
EmitH == CSVWrite("%1$s", << ToJson([c |-> c, calls |-> hist', exp |-> [i \in DOMAIN hist' |-> Exp(hist'[i])]]) >>, IOEnv.GEN_OUT)
NextSim == IF c.G = 0 THEN ChooseC
           ELSE \E q \in {TLCEval(RCall(hist))} : Call(q) /\ (Len(hist') = MaxCalls => EmitH)
SpecSim == InitSim /\ [][NextSim]_vars
=============================================================================
