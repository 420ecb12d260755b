------------------------------ MODULE SparseJac ------------------------------
(***************************************************************************)
(* Jacobian containers.  A container holds k rows of m entries.  Dense: row  *)
(* r belongs to input r (rows for the last inputs may be missing).  Sparse:   *)
(* entry e of row r belongs to input idx[r][e], -1 is padding; an input may   *)
(* occur several times.  Numbers are Gaussian integers <<re, im>>.            *)
(* `Full` reads a container as an N x m matrix; the state machine applies     *)
(* operations to a pool of containers the way the representation does it,     *)
(* and every operation has to commute with `Full`.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, CSV
CONSTANTS N, Ms, MaxK, MaxOps, MaxQ
VARIABLES phase, pool, ops
vars == <<phase, pool, ops>>
Rng(s) == {s[i] : i \in DOMAIN s}
Rnd(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
Max2(a, b) == IF a >= b THEN a ELSE b
Z == <<0, 0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
SumC(s) == FoldLeft(Plus, Z, s)

\* ---------------------------------------------------------- reading
Full(j) == [n \in 1..N |-> [e \in 1..j.m |->
  IF j.dense THEN IF n <= j.k THEN j.d[n][e] ELSE Z
  ELSE SumC([r \in 1..j.k |-> IF j.idx[r][e] = n - 1 THEN j.d[r][e] ELSE Z])]]
Map(A, F(_)) == [n \in DOMAIN A |-> [e \in DOMAIN A[n] |-> F(A[n][e])]]
AddM(A, B) == [n \in DOMAIN A |-> [e \in DOMAIN A[n] |-> Plus(A[n][e], B[n][e])]]
\* rows of a matrix for a list of inputs per entry
Rows(A, L) == [q \in DOMAIN L |-> [e \in DOMAIN L[q] |-> IF L[q][e] = -1 THEN Z ELSE A[L[q][e] + 1][e]]]

\* ------------------------------------------------- the representation
\* position of an index in the list of entry e; 0 if it is not there
Pos(L, e, i) == LET Q == {q \in DOMAIN L : L[q][e] = i} IN IF Q = {} THEN 0 ELSE CHOOSE q \in Q : \A p \in Q : q <= p
\* every stored entry is added to the row of its position
Gather(j, L) == IF j.dense
  THEN [q \in DOMAIN L |-> [e \in 1..j.m |-> IF L[q][e] \in 0..(j.k - 1) THEN j.d[L[q][e] + 1][e] ELSE Z]]
  ELSE [q \in DOMAIN L |-> [e \in 1..j.m |-> SumC([r \in 1..j.k |-> IF Pos(L, e, j.idx[r][e]) = q THEN j.d[r][e] ELSE Z])]]
MaxIdx(j) == LET S == {j.idx[r][e] : r \in 1..j.k, e \in 1..j.m} IN CHOOSE x \in S : \A y \in S : y <= x
Dense(j) == IF j.dense THEN j
  ELSE LET n == MaxIdx(j) IN
    [j EXCEPT !.dense = TRUE, !.k = Max2(n + 1, 1), !.idx = << >>,
              !.d = IF n = -1 THEN <<[e \in 1..j.m |-> Z]>> ELSE Gather(j, [q \in 1..(n + 1) |-> [e \in 1..j.m |-> q - 1]])]
Pad(j, k) == [r \in 1..k |-> IF r <= j.k THEN j.d[r] ELSE [e \in 1..j.m |-> Z]]
Add(a, b) ==
  IF a.dense \/ b.dense
  THEN LET x == Dense(a)
           y == Dense(b)
           k == Max2(x.k, y.k)
       IN [x EXCEPT !.k = k, !.cx = a.cx \/ b.cx, !.d = AddM(Pad(x, k), Pad(y, k))]
  ELSE IF a.idx = b.idx THEN [a EXCEPT !.d = AddM(a.d, b.d), !.cx = a.cx \/ b.cx]
  ELSE [a EXCEPT !.k = a.k + b.k, !.idx = a.idx \o b.idx, !.d = a.d \o b.d, !.cx = a.cx \/ b.cx]
Re(x) == <<x[1], 0>>
Im(x) == <<x[2], 0>>
Cj(x) == <<x[1], -x[2]>>
Un(j, f) == CASE f = "real" -> [j EXCEPT !.d = Map(j.d, Re), !.cx = FALSE]
              [] f = "imag" -> [j EXCEPT !.d = Map(j.d, Im), !.cx = FALSE]
              [] f = "conj" -> [j EXCEPT !.d = Map(j.d, Cj)]
              [] f = "complex" -> [j EXCEPT !.cx = TRUE]
              [] f = "single" -> j
              [] f = "dense" -> Dense(j)
Fs == {"real", "imag", "conj", "complex", "single", "dense"}
MapFull(A, f) == CASE f = "real" -> Map(A, Re) [] f = "imag" -> Map(A, Im) [] f = "conj" -> Map(A, Cj) [] OTHER -> A

\* ------------------------------------------------------ well-formedness
Well(j) == /\ Len(j.d) = j.k /\ \A r \in 1..j.k : Len(j.d[r]) = j.m
           /\ j.dense => j.k \in 1..N
           /\ ~j.dense => Len(j.idx) = j.k /\ \A r \in 1..j.k : \A e \in 1..j.m : j.idx[r][e] \in -1..(N - 1) /\ (j.idx[r][e] = -1 => j.d[r][e] = Z)
WellFormed == \A i \in DOMAIN pool : Well(pool[i])
\* the last operation commutes with reading
Commutes == ops # << >> => LET o == ops[Len(ops)]
                               r == pool[Len(pool)] IN
  CASE o.o = "add" -> Full(r) = AddM(Full(pool[o.a]), Full(pool[o.b]))
    [] o.o = "un"  -> Full(r) = MapFull(Full(pool[o.a]), o.f)
    [] o.o = "rows" -> Gather(pool[o.a], o.l) = Rows(Full(pool[o.a]), o.l)
Lists(m) == {L \in UNION {[1..q -> [1..m -> -1..(N - 1)]] : q \in 1..MaxQ} :
                \A e \in 1..m : \A p, q \in DOMAIN L : L[p][e] = L[q][e] /\ L[p][e] # -1 => p = q}

\* ------------------------------------------------------------- exhaustive
Num(r, e, s) == <<2 ^ (2 * r + e) + s, r - 2 * e>>
Sparse(m, s) == UNION {{[dense |-> FALSE, cx |-> TRUE, k |-> k, m |-> m, idx |-> x,
                         d |-> [r \in 1..k |-> [e \in 1..m |-> IF x[r][e] = -1 THEN Z ELSE Num(r, e, s)]]] : x \in [1..k -> [1..m -> -1..(N - 1)]]} : k \in 1..MaxK}
Denses(m, s) == {[dense |-> TRUE, cx |-> TRUE, k |-> k, m |-> m, idx |-> << >>, d |-> [r \in 1..k |-> [e \in 1..m |-> Num(r, e, s)]]] : k \in 1..N}
InitMC == /\ phase = "go" /\ ops = << >>
          /\ \E m \in Ms : \E a \in Sparse(m, 0) \cup Denses(m, 0), b \in Sparse(m, 1) \cup Denses(m, 1) : pool = <<a, b>>
DoAdd(a, b) == pool' = Append(pool, Add(pool[a], pool[b])) /\ ops' = Append(ops, [o |-> "add", a |-> a, b |-> b])
DoUn(a, f) == pool' = Append(pool, Un(pool[a], f)) /\ ops' = Append(ops, [o |-> "un", a |-> a, f |-> f])
DoRows(a, L) == pool' = Append(pool, pool[a]) /\ ops' = Append(ops, [o |-> "rows", a |-> a, l |-> L])
NextMC == /\ Len(ops) < MaxOps /\ UNCHANGED phase
          /\ \/ \E a, b \in DOMAIN pool : DoAdd(a, b)
             \/ \E a \in DOMAIN pool, f \in Fs : DoUn(a, f)
             \/ ops = << >> /\ \E a \in DOMAIN pool : \E L \in Lists(pool[a].m) : DoRows(a, L)
SpecMC == InitMC /\ [][NextMC]_vars

\* -------------------------------------------------------------- simulation
RNum(z) == <<RandomElement((-9 + z)..9), RandomElement((-9 + z)..9)>>
\* patterns: the same in all entries, anything, each input at most once, mostly padding
RCol(k, h) == CASE h = 1 -> TLCEval([r \in 1..k |-> RandomElement(-1..(N - 1))])
                [] h = 2 -> TLCEval(LET p == RandomElement({0, 1, 2}) IN [r \in 1..k |-> IF r + p - 1 < N THEN r + p - 1 ELSE -1])
                [] OTHER -> TLCEval([r \in 1..k |-> IF RandomElement(1..3) = 1 THEN RandomElement(0..(N - 1)) ELSE -1])
RJac(m, z) ==
  Rnd(1..3, LAMBDA h : Rnd({TLCEval(RandomElement({TRUE, FALSE}))}, LAMBDA cx :
  Rnd({TLCEval(IF h = 1 THEN RandomElement(1..N) ELSE RandomElement((1 + z)..MaxK))}, LAMBDA k :
  Rnd({TLCEval([r \in 1..k |-> [e \in 1..m |-> LET x == RNum(z) IN IF cx THEN x ELSE <<x[1], 0>>]])}, LAMBDA d :
  IF h = 1 THEN [dense |-> TRUE, cx |-> cx, k |-> k, m |-> m, idx |-> << >>, d |-> d]
  ELSE Rnd({TLCEval(RandomElement(1..4))}, LAMBDA p :
       Rnd({TLCEval(LET c == TLCEval([e \in 1..m |-> RCol(k, p)]) IN [r \in 1..k |-> [e \in 1..m |-> IF p = 4 THEN c[1][r] ELSE c[e][r]]])}, LAMBDA x :
       [dense |-> FALSE, cx |-> cx, k |-> k, m |-> m, idx |-> x, d |-> [r \in 1..k |-> [e \in 1..m |-> IF x[r][e] = -1 THEN Z ELSE d[r][e]]]]))))))
\* a list of distinct inputs and padding for every entry; dense containers take one list for all entries
RList(m, z, dense) ==
  Rnd({TLCEval(RandomElement((1 + z)..MaxQ))}, LAMBDA q : Rnd({TLCEval(IF dense THEN 1 ELSE RandomElement(1..2))}, LAMBDA same :
  Rnd({TLCEval([e \in 1..m |-> LET p == RandomElement({s \in [1..N -> 0..(N - 1)] : \A i, k \in 1..N : s[i] = s[k] => i = k}) IN
                                [i \in 1..q |-> IF i > N \/ RandomElement(1..4) = 1 THEN -1 ELSE p[i]]])}, LAMBDA c :
     [i \in 1..q |-> [e \in 1..m |-> IF same = 1 THEN c[1][i] ELSE c[e][i]]])))
InitSim == phase = "pick" /\ pool = << >> /\ ops = << >>
Pick == /\ phase = "pick" /\ phase' = "go" /\ UNCHANGED ops
        /\ \E m \in {RandomElement(Ms)} : \E p \in {TLCEval([i \in 1..3 |-> RJac(m, Len(ops))])} : pool' = p
Emit == CSVWrite("%1$s", << ToJson([pool |-> pool', ops |-> ops', full |-> [i \in DOMAIN pool' |-> Full(pool'[i])],
                                    got |-> [i \in DOMAIN ops' |-> IF ops'[i].o = "rows" THEN Rows(Full(pool'[ops'[i].a]), ops'[i].l) ELSE << >>]]) >>, IOEnv.GEN_OUT)
Op == /\ phase = "go" /\ Len(ops) < MaxOps
      /\ \E h \in {RandomElement(1..3)}, a \in {RandomElement(DOMAIN pool)}, b \in {RandomElement(DOMAIN pool)} :
           CASE h = 1 -> DoAdd(a, b)
             [] h = 2 -> \E f \in {RandomElement(Fs)} : DoUn(a, f)
             [] h = 3 -> \E L \in {TLCEval(RList(pool[a].m, 0 * Len(ops), pool[a].dense))} : DoRows(a, L)
      /\ IF Len(ops') = MaxOps THEN phase' = "done" /\ Emit ELSE phase' = "go"
NextSim == Pick \/ Op
SpecSim == InitSim /\ [][NextSim]_vars
=============================================================================
