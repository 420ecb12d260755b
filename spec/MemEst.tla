------------------------------- MODULE MemEst -------------------------------
(***************************************************************************)
(* The memory estimate.  A program is [ps, body, outs]: types of parameters, *)
(* equations and result variables (variables are numbered parameters first). *)
(* A type is [sh, dt].  Equations:                                            *)
(*   [k |-> "op", a, ts]              an operation with results of types ts   *)
(*   [k |-> "call", a, sub]           a call of a program                     *)
(*   [k |-> "scan", a, nc, nk, len, sub]  a loop: nc constants, nk carried    *)
(*                                    values, the rest is scanned over        *)
(* Operand 0 is a literal.  `Peak` is the declarative estimate; the state     *)
(* machine is the accounting evaluator (reference counts, running total).     *)
(***************************************************************************)
EXTENDS MemPeak
CONSTANTS MaxIn, MaxEqn, MaxOut, MaxArgs, SimDepth
VARIABLES phase, main, stack, peak
vars == <<phase, main, stack, peak>>
Inf == 1000000
Top(s) == s[Len(s)]
Rnd(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE

\* ------------------------------------------------ the accounting evaluator
Occ(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
RECURSIVE Uses(_, _, _)
Uses(P, v, i) == IF i > Len(P.body) THEN 0 ELSE Occ(P.body[i].a, v) + Uses(P, v, i + 1)
Count0(P, v) == IF v \in Rng(P.outs) THEN Inf ELSE Uses(P, v, 1) + (IF v <= Len(P.ps) THEN 1 ELSE 0)
Frame(P) == LET T == Types(P) IN
  [P |-> P, T |-> T, mk |-> Makers(P), last |-> [v \in DOMAIN T |-> LastUse(P, v)], pc |-> 1, cnt |-> [v \in DOMAIN T |-> Count0(P, v)],
   mem |-> SumF({v \in 1..Len(P.ps) : Count0(P, v) > 0}, LAMBDA v : Bytes(T[v])), peak |-> 0]
\* results of equation pc come into being, the total is compared, dead operands go
Account(f, sub) ==
  LET T == f.T
      q == f.P.body[f.pc]
      cnt == [v \in DOMAIN T |-> IF f.cnt[v] = Inf THEN Inf ELSE f.cnt[v] - Occ(q.a, v)]
      new == {v \in DOMAIN T : f.mk[v] = f.pc /\ f.cnt[v] > 0}
      mem == f.mem + SumF(new, LAMBDA v : Bytes(T[v]))
      dead == {v \in Rng(q.a) \ {0} : cnt[v] = 0}
  IN [f EXCEPT !.cnt = cnt, !.peak = Max2(@, mem + sub), !.mem = mem - SumF(dead, LAMBDA v : Bytes(T[v])), !.pc = @ + 1]
More == LET f == Top(stack) IN f.pc <= Len(f.P.body)
Step == /\ phase = "run" /\ UNCHANGED main
        /\ LET f == Top(stack) IN
           IF More
           THEN LET q == f.P.body[f.pc] IN
                /\ UNCHANGED <<phase, peak>>
                /\ stack' = IF q.k = "op" THEN [stack EXCEPT ![Len(stack)] = Account(f, 0)] ELSE Append(stack, Frame(q.sub))
           ELSE IF Len(stack) = 1 THEN phase' = "done" /\ peak' = f.peak /\ stack' = << >>
           ELSE /\ UNCHANGED <<phase, peak>>
                /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Account(stack[Len(stack) - 1], f.peak))
Agrees == phase = "done" => peak = Peak(main)
\* what is accounted for is what exists
Exact == phase = "run" => \A i \in DOMAIN stack : LET f == stack[i] IN
   f.mem = SumF({v \in DOMAIN f.T : f.mk[v] < f.pc /\ (f.last[v] >= f.pc \/ v <= Len(f.P.ps) \/ v \in Rng(f.P.outs))},
                LAMBDA v : Bytes(f.T[v]))
\* never less than all results and parameters together, never more than everything together
Bounds == phase = "done" /\ main.body # << >> => LET T == Types(main) IN
   peak >= SumF({v \in DOMAIN T : v <= Len(main.ps) \/ v \in Rng(main.outs)}, LAMBDA v : Bytes(T[v]))

\* ------------------------------------------------------------- exhaustive
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
T1 == [sh |-> <<3>>, dt |-> "float32"]
T2 == [sh |-> <<2>>, dt |-> "float64"]
Subs == { [ps |-> <<T1, T1>>, body |-> <<[k |-> "op", a |-> <<1, 1>>, ts |-> <<T2, T2>>], [k |-> "op", a |-> <<3>>, ts |-> <<T1>>]>>, outs |-> <<5, 1>>],
          [ps |-> <<T1, T1>>, body |-> << >>, outs |-> <<2>>] }
NV(P) == Len(Types(P))
Build == /\ phase = "build" /\ UNCHANGED <<stack, peak>>
         /\ \/ /\ Len(main.body) < MaxEqn
               /\ \/ \E a \in SeqsUpTo(1..NV(main), MaxArgs), m \in 1..MaxOut :
                       main' = [main EXCEPT !.body = Append(@, [k |-> "op", a |-> a, ts |-> [i \in 1..m |-> IF i = 1 THEN T1 ELSE T2]])]
                  \/ \E a \in [1..2 -> {v \in 1..NV(main) : Types(main)[v] = T1}], s \in Subs :
                       main' = [main EXCEPT !.body = Append(@, [k |-> "call", a |-> a, sub |-> s])]
               /\ phase' = "build"
            \/ /\ \E o \in SeqsUpTo(1..NV(main), 2) : main' = [main EXCEPT !.outs = o]
               /\ phase' = "begin"
Begin == phase = "begin" /\ phase' = "run" /\ stack' = <<Frame(main)>> /\ UNCHANGED <<main, peak>>
Init == /\ phase = "build" /\ \E n \in 1..MaxIn : main = [ps |-> [i \in 1..n |-> T1], body |-> << >>, outs |-> << >>]
        /\ stack = << >> /\ peak = 0
Spec == Init /\ [][Build \/ Begin \/ Step]_vars

\* -------------------------------------------------------------- simulation
Shs == {<< >>, <<3>>, <<5, 7>>, <<2, 3, 4>>, <<40>>, <<0>>, <<3, 11>>}
RType(z) == [sh |-> RandomElement(IF z = 0 THEN Shs ELSE {}), dt |-> RandomElement(IF z = 0 THEN DTs ELSE {})]
RVar(n) == Rnd(1..10, LAMBDA h : IF h = 1 THEN 0 ELSE IF h <= 5 THEN RandomElement((IF n > 3 THEN n - 2 ELSE 1)..n) ELSE RandomElement(1..n))
RArgs(n, k) == Rnd({TLCEval([i \in 1..k |-> RVar(n)])}, LAMBDA a : IF \A i \in DOMAIN a : a[i] = 0 THEN [a EXCEPT ![1] = RandomElement(1..n)] ELSE a)
TypeOf(ts, v) == IF v = 0 THEN LitT ELSE ts[v]
RECURSIVE RProg(_, _, _, _)
RECURSIVE RBody(_, _, _)
\* variables that can be scanned over with length n
Scannable(ts, n) == {v \in DOMAIN ts : ts[v].sh # << >> /\ ts[v].sh[1] = n}
RScan(ts, d) ==
  Rnd({0, 3, 3, 3, 5, 2, 40}, LAMBDA len :
  Rnd({TLCEval([i \in 1..RandomElement(0..2) |-> RandomElement(DOMAIN ts)])}, LAMBDA cs :
  Rnd({TLCEval([i \in 1..RandomElement(0..2) |-> RandomElement(DOMAIN ts)])}, LAMBDA ks :
  Rnd({TLCEval(LET S == Scannable(ts, len) IN [i \in 1..(IF S = {} THEN 0 ELSE RandomElement(0..2)) |-> RandomElement(S)])}, LAMBDA xs :
  Rnd({TLCEval([i \in DOMAIN cs |-> ts[cs[i]]] \o [i \in DOMAIN ks |-> ts[ks[i]]] \o [i \in DOMAIN xs |-> [ts[xs[i]] EXCEPT !.sh = Tail(@)]])}, LAMBDA ps :
  IF Len(ps) = 0 \/ (Len(ks) = 0 /\ Len(xs) = 0) THEN << >>
  ELSE Rnd({TLCEval(RProg(ps, RandomElement(0..3), d - 1, Len(cs)))}, LAMBDA P :
       \* a last operation produces the carried values, some are handed on as they are
       Rnd({TLCEval(Types(P))}, LAMBDA T : Rnd({TLCEval([i \in DOMAIN ks |-> RandomElement({0, 1})])}, LAMBDA fwd :
       LET kts == [i \in DOMAIN ks |-> ts[ks[i]]]
           n == Len(T)
           Q == IF Len(ks) = 0 THEN P
                ELSE [P EXCEPT !.body = Append(@, [k |-> "op", a |-> <<RandomElement(1..n)>>, ts |-> kts]),
                               !.outs = [i \in DOMAIN ks |-> IF fwd[i] = 1 THEN Len(cs) + i ELSE n + i] \o @, !.lt = [i \in DOMAIN ks |-> LitT] \o @]
       IN << [k |-> "scan", a |-> cs \o ks \o xs, nc |-> Len(cs), nk |-> Len(ks), len |-> len, sub |-> Q] >>))))))))
RBody(ts, k, d) ==
  IF k = 0 THEN << >>
  ELSE Rnd(1..10, LAMBDA h :
       Rnd({TLCEval(
         LET op == << [k |-> "op", a |-> TLCEval(RArgs(Len(ts), RandomElement(1..3))), ts |-> TLCEval([i \in 1..RandomElement({1, 1, 2, 3}) |-> RType(0)])] >>
         IN IF d > 0 /\ h <= 2
            THEN Rnd({TLCEval([i \in 1..RandomElement(1..3) |-> RVar(Len(ts))])}, LAMBDA a :
                 << [k |-> "call", a |-> a, sub |-> TLCEval(RProg([i \in DOMAIN a |-> TypeOf(ts, a[i])], RandomElement(0..4), d - 1, 0))] >>)
            ELSE IF d > 0 /\ h <= 5 THEN Rnd({TLCEval(RScan(ts, d))}, LAMBDA s : IF s = << >> THEN op ELSE s) ELSE op)}, LAMBDA q :
       Rnd({TLCEval(OutTypes(q[1]))}, LAMBDA o : q \o RBody(ts \o o, k - 1, d))))
RProg(ps, k, d, z) == Rnd({TLCEval(RBody(ps, k, d))}, LAMBDA b :
  Rnd({TLCEval(Len(Types([ps |-> ps, body |-> b, outs |-> << >>])))}, LAMBDA n :
    [ps |-> ps, body |-> b, outs |-> TLCEval([i \in 1..RandomElement(0..3) |-> IF RandomElement(1..8) = 1 THEN 0 ELSE RandomElement(1..n)]),
     lt |-> <<LitT, LitT, LitT>>]))
InitSim == /\ phase = "pick" /\ main = [ps |-> << >>, body |-> << >>, outs |-> << >>] /\ stack = << >> /\ peak = 0
PickSim == /\ phase = "pick" /\ UNCHANGED peak
           /\ \E ps \in {TLCEval([i \in 1..RandomElement((1 + peak)..MaxIn) |-> RType(peak)])} :
              \E P \in {TLCEval(RProg(ps, RandomElement((1 + peak)..MaxEqn), SimDepth, 0))} :
                /\ main' = P /\ stack' = <<Frame(P)>> /\ phase' = "run"
Emit == CSVWrite("%1$s", << ToJson([main |-> main, peak |-> peak']) >>, IOEnv.GEN_OUT)
NextSim == PickSim \/ (Step /\ (phase' = "done" => Emit))
\* ------------------------------- programs extracted from the implementation
Given == JsonDeserialize(IOEnv.MEM_IN)
EmitAt(i) == CSVWrite("%1$s", << ToJson([i |-> i, peak |-> peak']) >>, IOEnv.GEN_OUT)
\* element widths of extracted programs come with their types
InitGiven == /\ phase = "run" /\ peak = 0 /\ \E i \in DOMAIN Given : main = Given[i] /\ stack = <<Frame(Given[i])>>
NextGiven == Step /\ (phase' = "done" => EmitAt(main.id))
SpecGiven == InitGiven /\ [][NextGiven]_vars
SpecSim == InitSim /\ [][NextSim]_vars
=============================================================================
