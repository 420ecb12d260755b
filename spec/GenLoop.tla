------------------------------ MODULE GenLoop ------------------------------
(***************************************************************************)
(* Array programs with loops and sub-functions.  Entering a body pushes    *)
(* the current frame; operations then extend the body (evaluated on the    *)
(* values of its first iteration); leaving it turns the recorded body into *)
(* one operation of the enclosing program:                                 *)
(*   scan  a = consts \o carries \o (xs?), b = body,                       *)
(*         k = <<  <<nconst, ncarry, length, reverse, xkind>>,             *)
(*                 carry-out positions, stacked positions, xs shape >>     *)
(*         xkind 0: none, 1: constant array c, 2: an environment value     *)
(*   call  a = arguments, b = body, k = << result positions >>             *)
(* whose meaning is the unrolled / inlined program.                        *)
(***************************************************************************)
EXTENDS GenR
CONSTANTS Enter      \* <<e, n>>: in e of n steps a body is entered or left
VARIABLES stack, ctl
varsL == <<vars, stack, ctl>>

OB(o, f, a, k, c, b) == [o |-> o, f |-> f, a |-> a, k |-> k, c |-> c, b |-> b]
NoBody(op) == op.o \notin {"scan", "call"}
Pick2(S, lo, hi) == Rnd(lo..hi, LAMBDA n : TLCEval([i \in 1..n |-> RandomElement(S)]))

\* slice number t of a stacked array
RowOf(x, t) == LET m == Size(Tail(x.sh)) IN Tensor(Tail(x.sh), SubSeq(x.e, (t - 1) * m + 1, t * m), x.dep, x.dt)
ConstRow(op, t, n) == LET m == Size(op.k[4]) IN Tensor(op.k[4], [i \in 1..m |-> ConstJet(n, op.c[(t - 1) * m + i])], FALSE, "f")
Stack(ts) == Tensor(<<Len(ts)>> \o ts[1].sh, FoldLeft(LAMBDA a, t : a \o t.e, << >>, ts), ts[1].dep, ts[1].dt)

RECURSIVE RunOps(_, _)
RECURSIVE Exec1(_, _)
RECURSIVE Iter(_, _, _, _)
\* env after all operations, << >> if one of them is not enabled
RunOps(p, e) == IF p = << >> THEN e
                ELSE LET out == Exec1(Head(p), e) IN
                     IF out = << >> THEN << >> ELSE RunOps(Tail(p), TLCEval(e \o out))
\* iterations t..length; acc = [carry, ys] (ys in order of execution)
Iter(op, e, t, acc) ==
  LET h == op.k[1] IN
  IF t > h[3] THEN acc
  ELSE LET row == IF h[4] = 1 THEN h[3] + 1 - t ELSE t
           consts == [i \in 1..h[1] |-> e[op.a[i]]]
           x == IF h[5] = 1 THEN << ConstRow(op, row, NVars(e)) >>
                ELSE IF h[5] = 2 THEN << RowOf(e[op.a[Len(op.a)]], row) >> ELSE << >>
           r == TLCEval(RunOps(op.b, consts \o acc.carry \o x))
       IN IF r = << >> THEN [carry |-> << >>, ys |-> << >>]
          ELSE LET ys == [j \in DOMAIN op.k[3] |-> r[op.k[3][j]]]
               IN  Iter(op, e, t + 1, TLCEval([carry |-> [j \in DOMAIN op.k[2] |-> r[op.k[2][j]]],
                        ys |-> IF h[4] = 1 THEN <<ys>> \o acc.ys ELSE Append(acc.ys, ys)]))
\* the tensors one operation appends, << >> if it is not enabled
Exec1(op, e) ==
  CASE op.o = "scan" ->
         LET h == op.k[1]
             c0 == [i \in 1..h[2] |-> e[op.a[h[1] + i]]]
             r == TLCEval(Iter(op, e, 1, [carry |-> c0, ys |-> << >>]))
         IN  IF r.ys = << >> /\ r.carry = << >> THEN << >>
             ELSE r.carry \o [j \in DOMAIN op.k[3] |-> Stack([t \in 1..h[3] |-> r.ys[t][j]])]
    [] op.o = "call" ->
         LET r == TLCEval(RunOps(op.b, [i \in DOMAIN op.a |-> e[op.a[i]]])) IN
         IF r = << >> THEN << >> ELSE [j \in DOMAIN op.k[1] |-> r[op.k[1][j]]]
    [] op.o = "const" -> Apply(op, e)
    [] OTHER -> IF \A i \in DOMAIN op.a : op.a[i] \in DOMAIN e
                THEN IF Enabled(op, e) /\ (op.o \in DynOps => InRange(op, e)) THEN Apply(op, e) ELSE << >>
                ELSE << >>

\* Elementwise operations of one argument keep every sparsity pattern, so a loop whose carries only go
\* through them has a fixed pattern and must be accepted whatever the threshold.
RECURSIVE Keeps(_, _, _, _)
Keeps(p, base, pos, from) ==    \* pos is `from` or an elementwise image of it; p's results start after base
  \/ pos = from
  \/ /\ pos > base
     /\ \A q \in DOMAIN p : NoBody(p[q]) /\ p[q].o # "slogdet"
     /\ LET op == p[pos - base] IN op.o \in {"un", "ipow"} /\ op.f \notin CoarseUn /\ Keeps(p, base, op.a[1], from)

EnterScan ==
  Rnd({i \in Pick : env[i].dt = "f"}, LAMBDA a : Rnd(0..2, LAMBDA nc : Rnd(IF nc = 0 THEN 1..2 ELSE 0..2, LAMBDA nk : Rnd(1..3, LAMBDA len : Rnd({0, 1}, LAMBDA rev : Rnd(0..7, LAMBDA x0 :
    LET fl == {i \in 1..L : env[i].dt = "f"}
        xk == IF x0 < 4 THEN 0 ELSE IF x0 < 7 THEN 1 ELSE 2
        xs == {i \in fl : Rank(i) >= 1 /\ Sh(i)[1] = len}
    IN Rnd({TLCEval([i \in 1..nc |-> IF i = 1 /\ nk = 0 THEN a ELSE RandomElement(fl)])}, LAMBDA cs : Rnd({TLCEval([i \in 1..nk |-> IF i = 1 THEN a ELSE RandomElement(fl)])}, LAMBDA ks :
       Rnd({TLCEval(RandomElement({<< >>, <<2>>, Sh(a)}))}, LAMBDA xsh :
       Rnd({TLCEval([i \in 1..(len * Size(xsh)) |-> NumV(RVal(i))])}, LAMBDA xc :
       Rnd(IF xs = {} THEN {0} ELSE xs, LAMBDA xd :
         LET k == IF xk = 2 /\ xd = 0 THEN 0 ELSE xk IN
         OB("scan", "", cs \o ks \o (IF k = 2 THEN <<xd>> ELSE << >>), << <<nc, nk, len, rev, k>>, << >>, << >>, xsh >>, IF k = 1 THEN xc ELSE << >>, << >>))))))))))))
EnterCall == Rnd({"jit", "jit", "remat", "cond", "named"}, LAMBDA f : Rnd({TLCEval(Pick2({i \in Pick : env[i].dt = "f"}, 1, 1))}, LAMBDA x : Rnd({TLCEval(Pick2({i \in 1..L : env[i].dt \in {"f"}}, 0, 2))}, LAMBDA y :
               OB("call", f, x \o y, << << >> >>, << >>, << >>))))
BodyEnv(h, e) ==
  IF h.o = "call" THEN [i \in DOMAIN h.a |-> e[h.a[i]]]
  ELSE LET k == h.k[1]
           row == IF k[4] = 1 THEN k[3] ELSE 1
       IN [i \in 1..(k[1] + k[2]) |-> e[h.a[i]]]
          \o (IF k[5] = 1 THEN << ConstRow(h, row, NVars(e)) >> ELSE IF k[5] = 2 THEN << RowOf(e[h.a[Len(h.a)]], row) >> ELSE << >>)
EnterBody(h) == /\ stack' = Append(stack, [env |-> env, prog |-> prog, h |-> h])
                /\ env' = BodyEnv(h, env) /\ prog' = << >>

\* a position of the body to become the new value of carry number j
OutFor(h, j) == LET c == h.k[1][1] + j
                    S == {p \in 1..L : env[p].sh = Sh(c) /\ env[p].dt = "f" /\ env[p].dep = env[c].dep}
                    late == {p \in S : p > Len(h.a)}
                IN IF late # {} THEN SetMax(late) ELSE RandomElement(S)
Finish(h) ==
  IF h.o = "scan"
  THEN Rnd({TLCEval([j \in 1..h.k[1][2] |-> OutFor(h, j)])}, LAMBDA co : Rnd({TLCEval(Pick2({p \in 1..L : env[p].dt \in {"f", "b", "i"}}, IF h.k[1][2] = 0 THEN 1 ELSE 0, 2))}, LAMBDA ys :
         [h EXCEPT !.k = << @[1], co, ys, @[4] >>, !.b = prog]))
  ELSE Rnd({TLCEval(Pick2((Len(h.a)..L) \cup {L}, 1, 2))}, LAMBDA outs : [h EXCEPT !.k = << outs >>, !.b = prog])
Stable(op, e) ==  \* must folx accept it: 2 at every threshold, 1 without sparsity, 0 it may refuse
  IF op.o # "scan" THEN (IF op.f \in {"remat", "cond"} THEN 2 ELSE 2)
  ELSE LET k == op.k[1]
           base == Len(BodyEnv(op, e))
           r == RunOps(op.b, BodyEnv(op, e))
       IN IF k[5] = 2 /\ e[op.a[Len(op.a)]].dep THEN 0
          ELSE IF \E j \in 1..k[2] : e[op.a[k[1] + j]].dep # r[op.k[2][j]].dep THEN 0
          ELSE IF \A j \in 1..k[2] : Keeps(op.b, base, op.k[2][j], k[1] + j) THEN 2 ELSE 1
Leave == LET fr == stack[Len(stack)] IN
         \E op \in {TLCEval(Finish(fr.h))} :
         \E out \in {TLCEval(IF prog = << >> \/ ~(\E i \in DOMAIN env : env[i].dep) THEN << >> ELSE Exec1(op, fr.env))} :
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
           /\ IF out = << >> \/ (\E i \in DOMAIN out : Size(out[i].sh) > MaxSize)
              THEN env' = fr.env /\ prog' = fr.prog /\ ctl' = ctl
              ELSE /\ env' = fr.env \o out
                   /\ prog' = Append(fr.prog, op)
                   /\ ctl' = Append(ctl, [n |-> op.o, s |-> Stable(op, fr.env), d |-> Len(stack)])

ExecL == \E kind \in {Kinds[RandomElement(1..Len(Kinds))]} :
         \E ops \in {TLCEval(Make(kind))} :
         \E res \in {TLCEval(IF ops = None \/ \E i \in DOMAIN ops : ops[i].o = "where" THEN << >> ELSE RunOps(ops, env))} :
           /\ IF res # << >> /\ \A i \in DOMAIN res : Size(res[i].sh) <= MaxSize
              THEN env' = res /\ prog' = prog \o ops ELSE UNCHANGED <<env, prog>>
           /\ UNCHANGED <<stack, ctl>>
EmitL == CSVWrite("%1$s", << ToJson([inp |-> inp, prog |-> prog, env |-> env, ctl |-> ctl]) >>, IOEnv.GEN_OUT)
StepL ==
  /\ UNCHANGED <<env2, reps, inp>>
  /\ IF step >= Depth /\ stack = << >>
     THEN step < 1000 /\ step' = 1000 /\ EmitL /\ UNCHANGED <<env, prog, stack, ctl>>
     ELSE /\ step' = IF step < Depth THEN step + 1 ELSE step
          /\ IF step >= Depth THEN Leave
             ELSE \E r \in {RandomElement(1..Enter[2])} :
               IF r <= Enter[1]
               THEN IF stack # << >> /\ Len(prog) >= 2 /\ RandomElement(1..3) > 1 THEN Leave
                    ELSE IF Len(stack) < 2
                    THEN \E h \in {TLCEval(IF RandomElement(1..3) > 1 THEN EnterScan ELSE EnterCall)} : EnterBody(h) /\ ctl' = ctl
                    ELSE ExecL
               ELSE ExecL
InitL == Init /\ stack = << >> /\ ctl = << >>
NextL == IF step = 0 THEN Start /\ UNCHANGED <<stack, ctl>> ELSE StepL
SpecL == InitL /\ [][NextL]_varsL
gEnter == <<3, 10>>
=============================================================================
