------------------------------- MODULE RefEnv -------------------------------
(***************************************************************************)
(* Lifetimes of intermediates.  A program is [p, body, outs]: p parameters,  *)
(* equations reading variables (0 is a literal) and writing new ones, and    *)
(* result variables.  An equation is an operation or a call of a program.    *)
(* The evaluator keeps a stack of frames with reference counted              *)
(* environments.  Values are numbered; `lin` gives every value as a linear    *)
(* combination of the inputs (operations add and subtract their operands).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils, CSV
CONSTANTS MaxIn, MaxEqn, MaxOut, MaxArgs, Calls, SimDepth
VARIABLES phase, main, stack, vals, obs, res
vars == <<phase, main, stack, vals, obs, res>>
Inf == 1000000
Absent == 0
Rng(s) == {s[i] : i \in DOMAIN s}
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Rnd(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE

\* ------------------------------------------------------------- programs
NOuts(q) == IF q.k = "op" THEN q.m ELSE Len(q.sub.outs)
RECURSIVE NVarsUpto(_, _)
\* number of variables before equation i
NVarsUpto(P, i) == IF i = 1 THEN P.p ELSE NVarsUpto(P, i - 1) + NOuts(P.body[i - 1])
NVars(P) == NVarsUpto(P, Len(P.body) + 1)
Occ(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
RECURSIVE Uses(_, _, _)
\* occurrences of variable v in equations i, i+1, ...
Uses(P, v, i) == IF i > Len(P.body) THEN 0 ELSE Occ(P.body[i].a, v) + Uses(P, v, i + 1)
Count0(P, v) == IF v \in Rng(P.outs) THEN Inf ELSE Uses(P, v, 1) + (IF v <= P.p THEN 1 ELSE 0)
Frame(P, args) == [P |-> P, pc |-> 1, held |-> << >>, last |-> << >>,
                   env |-> [v \in 1..NVars(P) |-> IF v <= P.p /\ Count0(P, v) > 0 THEN args[v] ELSE Absent],
                   cnt |-> [v \in 1..NVars(P) |-> Count0(P, v)]]

\* ------------------------------------------------------------ evaluation
RECURSIVE Read(_, _, _)
\* reading the variables a[i..]: <<environment, counters>>
Read(f, a, i) ==
  IF i > Len(a) THEN f
  ELSE IF a[i] = 0 THEN Read(f, a, i + 1)
  ELSE LET c == f.cnt[a[i]] - 1
       IN  Read([f EXCEPT !.cnt[a[i]] = c, !.env[a[i]] = IF c = 0 THEN Absent ELSE @], a, i + 1)
RECURSIVE Operands(_, _, _)
Operands(f, a, i) == IF i > Len(a) THEN << >> ELSE << IF a[i] = 0 THEN 0 ELSE f.env[a[i]] >> \o Operands(f, a, i + 1)
Write(f, out) ==
  LET n == NVarsUpto(f.P, f.pc) IN
  [f EXCEPT !.env = [v \in DOMAIN f.env |-> IF v > n /\ v <= n + Len(out) /\ f.cnt[v] > 0 THEN out[v - n] ELSE f.env[v]],
            !.pc = @ + 1, !.last = out, !.held = << >>]
Alive(st) == UNION {Rng(st[i].env) : i \in DOMAIN st} \ {Absent}
Slack(st) == UNION {Rng(st[i].held) \cup Rng(st[i].last) : i \in DOMAIN st} \ {0}

Eqn == LET f == Top(stack) IN f.P.body[f.pc]
More == LET f == Top(stack) IN f.pc <= Len(f.P.body)
Sign(i, j) == IF (i + j) % 3 = 0 THEN -1 ELSE 1
RECURSIVE LinSum(_, _, _, _)
LinSum(a, j, i, n) == IF i > Len(a) THEN [q \in 1..(n + 1) |-> 0]
  ELSE LET r == LinSum(a, j, i + 1, n)
           s == Sign(i, j)
       IN [q \in 1..(n + 1) |-> r[q] + s * (IF a[i] = 0 THEN (IF q = n + 1 THEN 1 ELSE 0) ELSE vals[a[i]][q])]
Begin(P) == /\ main' = P /\ vals' = [i \in 1..P.p |-> [q \in 1..(P.p + 1) |-> IF q = i THEN 1 ELSE 0]]
            /\ stack' = << Frame(P, [i \in 1..P.p |-> i]) >> /\ phase' = "run" /\ obs' = << >> /\ res' = << >>
DoOp == LET f == Top(stack)
            q == Eqn
            a == Operands(f, q.a, 1)
            g == [Read(f, q.a, 1) EXCEPT !.held = a]
            new == [j \in 1..q.m |-> LinSum(a, j, 1, main.p)]
            ids == [j \in 1..q.m |-> Len(vals) + j]
            st == Append(Pop(stack), g)
        IN /\ More /\ q.k = "op"
           \* what must and what may exist while the operation is executed
           /\ obs' = Append(obs, [must |-> Alive(st) \cup (Rng(a) \ {0}), may |-> Alive(st) \cup Slack(st) \cup (1..main.p), a |-> a])
           /\ vals' = vals \o new
           /\ stack' = Append(Pop(stack), Write(g, ids)) /\ UNCHANGED <<phase, main, res>>
DoCall == LET f == Top(stack)
              q == Eqn
              a == Operands(f, q.a, 1)
              g == [Read(f, q.a, 1) EXCEPT !.held = a]
          IN /\ More /\ q.k = "call" /\ stack' = Pop(stack) \o << g, Frame(q.sub, a) >>
             /\ UNCHANGED <<phase, main, vals, obs, res>>
Return == LET f == Top(stack)
              out == Operands(f, f.P.outs, 1)
          IN /\ ~More
             /\ IF Len(stack) = 1 THEN phase' = "done" /\ res' = out /\ stack' = << >>
                ELSE /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Write(stack[Len(stack) - 1], out))
                     /\ UNCHANGED <<phase, res>>
             /\ UNCHANGED <<main, vals, obs>>
Run == phase = "run" /\ (DoOp \/ DoCall \/ Return)

\* ------------------------------------------------------------ properties
\* no equation reads a value that is gone
NoMissing == phase = "run" => \A i \in DOMAIN stack : LET f == stack[i] IN
   /\ (i = Len(stack) /\ More => \A v \in Rng(Eqn.a) \ {0} : f.env[v] # Absent)
   /\ (i = Len(stack) /\ ~More => \A v \in Rng(f.P.outs) : f.env[v] # Absent)
\* what is kept is what a later equation reads, a result or a parameter
Exact == phase = "run" => \A i \in DOMAIN stack : LET f == stack[i] IN
   \A v \in DOMAIN f.env :
      LET pc == IF i = Len(stack) THEN f.pc ELSE f.pc + 1
          written == v <= NVarsUpto(f.P, f.pc)
          needed == v \in Rng(f.P.outs) \/ Uses(f.P, v, pc) > 0
      IN  /\ (written /\ needed => f.env[v] # Absent)
          /\ (f.env[v] # Absent => written /\ (needed \/ v <= f.P.p))
\* results exist
Final == phase = "done" => \A i \in DOMAIN res : res[i] \in 1..Len(vals)
CountsOk == phase = "run" => \A i \in DOMAIN stack : \A v \in DOMAIN stack[i].cnt : stack[i].cnt[v] >= 0

\* --------------------------------------- exhaustive: all small programs
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 1..n}
Op(a, m) == [k |-> "op", a |-> a, m |-> m, sub |-> [p |-> 0, body |-> << >>, outs |-> << >>]]
Call(a, P) == [k |-> "call", a |-> a, m |-> 0, sub |-> P]
\* called programs: unused and repeated parameters, parameters as results, dead equations
Subs == { [p |-> 2, body |-> << >>, outs |-> <<2, 1>>], [p |-> 2, body |-> <<Op(<<1>>, 1)>>, outs |-> <<3>>],
          [p |-> 2, body |-> <<Op(<<2, 2>>, 2), Op(<<3>>, 1)>>, outs |-> <<3, 3>>] }
Build == /\ phase = "build" /\ UNCHANGED <<stack, vals, obs, res>>
         /\ \/ /\ Len(main.body) < MaxEqn
               /\ \/ \E a \in SeqsUpTo(1..NVars(main), MaxArgs), m \in 1..MaxOut : main' = [main EXCEPT !.body = Append(@, Op(a, m))]
                  \/ Calls /\ \E a \in [1..2 -> 1..NVars(main)], s \in Subs : main' = [main EXCEPT !.body = Append(@, Call(a, s))]
               /\ phase' = "build"
            \/ /\ main.body # << >> /\ \E o \in SeqsUpTo(1..NVars(main), 2) : main' = [main EXCEPT !.outs = o]
               /\ phase' = "begin"
Init == /\ phase = "build" /\ \E n \in 1..MaxIn : main = [p |-> n, body |-> << >>, outs |-> << >>]
        /\ stack = << >> /\ vals = << >> /\ obs = << >> /\ res = << >>
Spec == Init /\ [][Build \/ (phase = "begin" /\ Begin(main)) \/ Run]_vars
View == <<phase, main, stack, res>>

\* -------------------------------------------------------------- simulation
\* mostly recent variables, sometimes literals; calls are nested up to depth d
RVar(n) == Rnd(1..10, LAMBDA h : IF h = 1 THEN 0 ELSE IF h <= 5 THEN RandomElement((IF n > 3 THEN n - 2 ELSE 1)..n) ELSE RandomElement(1..n))
RECURSIVE RProg(_, _, _)
RECURSIVE RBody(_, _, _)
RArgs(n, k) == Rnd({TLCEval([i \in 1..k |-> RVar(n)])}, LAMBDA a : IF \A i \in DOMAIN a : a[i] = 0 THEN [a EXCEPT ![1] = RandomElement(1..n)] ELSE a)
RBody(n, k, d) ==
  IF k = 0 THEN << >>
  ELSE Rnd(1..10, LAMBDA h :
       Rnd({TLCEval(IF d > 0 /\ h <= 3
                    THEN Rnd({TLCEval(RProg(RandomElement(1..3), RandomElement(0..4), d - 1))}, LAMBDA P :
                           Call(TLCEval([i \in 1..P.p |-> RandomElement(1..n)]), P))
                    ELSE Op(TLCEval(RArgs(n, RandomElement(1..3))), RandomElement({1, 1, 2, 3})))}, LAMBDA q :
         <<q>> \o RBody(n + NOuts(q), k - 1, d)))
RProg(p, k, d) == Rnd({TLCEval(p)}, LAMBDA pp : Rnd({TLCEval(RBody(pp, k, d))}, LAMBDA b :
  LET n == NVars([p |-> pp, body |-> b, outs |-> << >>])
  IN  [p |-> pp, body |-> b, outs |-> TLCEval([i \in 1..RandomElement(1..3) |-> RandomElement(1..n)])]))
InitSim == /\ phase = "pick" /\ main = [p |-> 1, body |-> << >>, outs |-> << >>] /\ stack = << >> /\ vals = << >> /\ obs = << >> /\ res = << >>
PickSim == phase = "pick" /\ \E P \in {TLCEval(RProg(RandomElement(main.p..MaxIn), RandomElement(main.p..MaxEqn), SimDepth))} : Begin(P)
Emit == CSVWrite("%1$s", << ToJson([main |-> main, obs |-> obs', res |-> res', vals |-> vals']) >>, IOEnv.GEN_OUT)
NextSim == PickSim \/ (Run /\ (phase' = "done" => Emit))
SpecSim == InitSim /\ [][NextSim]_vars
=============================================================================
