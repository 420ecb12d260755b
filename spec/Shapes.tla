------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* Shapes and index maps of row-major arrays.  A shape is a sequence of    *)
(* naturals; element positions are 1-based in sequences, multi-indices and *)
(* axes are 0-based as in JAX.  An index map says for every output         *)
(* position where it comes from: <<arg, pos>> (argument number, position)  *)
(* or <<0, 0>> for a filled-in constant.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Product(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
SumSeq(s)  == FoldLeft(LAMBDA x, y : x + y, 0, s)
Size(sh)   == Product(sh)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Rng(s)   == { s[i] : i \in DOMAIN s }
SetMax(S)  == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S)  == CHOOSE x \in S : \A y \in S : x <= y
Asc(S)     == SetToSortSeq(S, LAMBDA x, y : x < y)

Strides(sh) == [d \in 1..Len(sh) |-> Product(SubSeq(sh, d + 1, Len(sh)))]
\* multi-index (0-based) of 1-based position k
Unflat(sh, st, k) == [d \in 1..Len(sh) |-> ((k - 1) \div st[d]) % sh[d]]
Flat(st, ix) == LET f[d \in 0..Len(st)] == IF d = 0 THEN 1 ELSE f[d-1] + ix[d] * st[d]
                IN  f[Len(st)]

\* keep / drop axes (0-based set A)
DropAxes(sh, A) == LET keep == SelectSeq([d \in 1..Len(sh) |-> d], LAMBDA d : (d-1) \notin A)
                   IN  [i \in 1..Len(keep) |-> sh[keep[i]]]
KeptAxes(n, A) == SelectSeq([d \in 1..n |-> d], LAMBDA d : (d-1) \notin A)

IdMap(n) == [j \in 1..n |-> <<1, j>>]

TransposeShape(sh, perm) == [d \in 1..Len(sh) |-> sh[perm[d] + 1]]
TransposeMap(sh, perm) ==
  LET osh == TransposeShape(sh, perm)
      ost == Strides(osh)
      ist == Strides(sh)
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
            i == [d \in 1..Len(sh) |-> o[CHOOSE q \in 1..Len(sh) : perm[q] = d - 1]]
        IN  <<1, Flat(ist, i)>>]

RevMap(sh, A) ==
  LET st == Strides(sh)
  IN  [j \in 1..Size(sh) |->
        LET o == Unflat(sh, st, j)
        IN  <<1, Flat(st, [d \in 1..Len(sh) |-> IF (d-1) \in A THEN sh[d] - 1 - o[d] ELSE o[d]])>>]

\* lax.slice with start (inclusive), limit (exclusive), stride per axis
SliceShape(sh, b, e, s) == [d \in 1..Len(sh) |-> (e[d] - b[d] + s[d] - 1) \div s[d]]
SliceMap(sh, b, e, s) ==
  LET osh == SliceShape(sh, b, e, s)
      ost == Strides(osh)
      ist == Strides(sh)
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
        IN  <<1, Flat(ist, [d \in 1..Len(sh) |-> b[d] + s[d] * o[d]])>>]

\* lax.broadcast_in_dim(x, osh, bd)
BcastMap(sh, osh, bd) ==
  LET ost == Strides(osh)
      ist == Strides(sh)
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
        IN  <<1, Flat(ist, [d \in 1..Len(sh) |-> IF sh[d] = 1 THEN 0 ELSE o[bd[d] + 1]])>>]

\* concatenate arrays of shapes shs along axis ax
ConcatShape(shs, ax) == [shs[1] EXCEPT ![ax + 1] = SumSeq([i \in 1..Len(shs) |-> shs[i][ax + 1]])]
ConcatMap(shs, ax) ==
  LET osh == ConcatShape(shs, ax)
      ost == Strides(osh)
      sts == [i \in 1..Len(shs) |-> Strides(shs[i])]
      off[i \in 0..Len(shs)] == IF i = 0 THEN 0 ELSE off[i-1] + shs[i][ax + 1]
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
            i == CHOOSE q \in 1..Len(shs) : off[q-1] <= o[ax+1] /\ o[ax+1] < off[q]
        IN  <<i, Flat(sts[i], [o EXCEPT ![ax + 1] = @ - off[i-1]])>>]

\* take(x, ids, axis): ids a sequence of 0-based indices (clipped to range)
TakeShape(sh, ids, ax) == [sh EXCEPT ![ax + 1] = Len(ids)]
TakeMap(sh, ids, ax) ==
  LET osh == TakeShape(sh, ids, ax)
      ost == Strides(osh)
      ist == Strides(sh)
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
            c == ids[o[ax + 1] + 1]
        IN  <<1, Flat(ist, [o EXCEPT ![ax + 1] = Max2(0, Min2(c, sh[ax+1] - 1))])>>]

\* dynamic_slice: starts are clamped so that the window fits
Clamp(s, lo, hi) == Max2(lo, Min2(s, hi))
DSliceMap(sh, starts, sizes) ==
  LET b == [d \in 1..Len(sh) |-> Clamp(starts[d], 0, sh[d] - sizes[d])]
  IN  SliceMap(sh, b, [d \in 1..Len(sh) |-> b[d] + sizes[d]], [d \in 1..Len(sh) |-> 1])

\* dynamic_update_slice(x, u, starts)
DUSMap(sh, ush, starts) ==
  LET b  == [d \in 1..Len(sh) |-> Clamp(starts[d], 0, sh[d] - ush[d])]
      st == Strides(sh)
      us == Strides(ush)
  IN  [j \in 1..Size(sh) |->
        LET o == Unflat(sh, st, j)
        IN  IF \A d \in 1..Len(sh) : b[d] <= o[d] /\ o[d] < b[d] + ush[d]
            THEN <<2, Flat(us, [d \in 1..Len(sh) |-> o[d] - b[d]])>>
            ELSE <<1, j>>]

\* lax.pad without interior padding and with non-negative edges
PadShape(sh, lo, hi) == [d \in 1..Len(sh) |-> lo[d] + sh[d] + hi[d]]
PadMap(sh, lo, hi) ==
  LET osh == PadShape(sh, lo, hi)
      ost == Strides(osh)
      ist == Strides(sh)
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
        IN  IF \A d \in 1..Len(sh) : lo[d] <= o[d] /\ o[d] < lo[d] + sh[d]
            THEN <<1, Flat(ist, [d \in 1..Len(sh) |-> o[d] - lo[d]])>>
            ELSE <<0, 0>>]

\* rows of a reduction over the axes in A: output position -> sequence of
\* input positions (row-major within the window)
ReduceShape(sh, A) == DropAxes(sh, A)
Windows(sh, A) ==
  LET st   == Strides(sh)
      kept == KeptAxes(Len(sh), A)
      osh  == ReduceShape(sh, A)
      ost  == Strides(osh)
      out(j) == LET ix == Unflat(sh, st, j)
                IN  Flat(ost, [i \in 1..Len(kept) |-> ix[kept[i]]])
      outs == [j \in 1..Size(sh) |-> out(j)]
  IN  [o \in 1..Size(osh) |-> SelectSeq([j \in 1..Size(sh) |-> j], LAMBDA j : outs[j] = o)]

\* cumulative windows along ax: position -> sequence of positions summed
CumWindows(sh, ax, reverse) ==
  LET st == Strides(sh)
  IN  [j \in 1..Size(sh) |->
        LET o == Unflat(sh, st, j)
            lo == IF reverse THEN o[ax+1] ELSE 0
            hi == IF reverse THEN sh[ax+1] - 1 ELSE o[ax+1]
        IN  [q \in 1..(hi - lo + 1) |-> Flat(st, [o EXCEPT ![ax+1] = lo + q - 1])]]

\* dot_general: contracting lc/rc, batch lb/rb (sequences of 0-based axes).
\* result: per output position a sequence of <<lhs pos, rhs pos>>
Free(n, c, b) == SelectSeq([d \in 1..n |-> d - 1], LAMBDA d : d \notin Rng(c) /\ d \notin Rng(b))
DotShape(ls, rs, lc, rc, lb, rb) ==
  LET lf == Free(Len(ls), lc, lb)
      rf == Free(Len(rs), rc, rb)
  IN  [i \in 1..Len(lb) |-> ls[lb[i] + 1]]
      \o [i \in 1..Len(lf) |-> ls[lf[i] + 1]]
      \o [i \in 1..Len(rf) |-> rs[rf[i] + 1]]
DotTerms(ls, rs, lc, rc, lb, rb) ==
  LET lf == Free(Len(ls), lc, lb)
      rf == Free(Len(rs), rc, rb)
      osh == DotShape(ls, rs, lc, rc, lb, rb)
      ost == Strides(osh)
      csh == [i \in 1..Len(lc) |-> ls[lc[i] + 1]]
      cst == Strides(csh)
      lst == Strides(ls)
      rst == Strides(rs)
      nb == Len(lb)
      nl == Len(lf)
      Pos(s, v) == CHOOSE q \in 1..Len(s) : s[q] = v
  IN  [j \in 1..Size(osh) |->
        LET o == Unflat(osh, ost, j)
        IN  [q \in 1..Size(csh) |->
              LET c  == Unflat(csh, cst, q)
                  li == [d \in 1..Len(ls) |->
                          IF (d-1) \in Rng(lb) THEN o[Pos(lb, d-1)]
                          ELSE IF (d-1) \in Rng(lc) THEN c[Pos(lc, d-1)]
                          ELSE o[nb + Pos(lf, d-1)]]
                  ri == [d \in 1..Len(rs) |->
                          IF (d-1) \in Rng(rb) THEN o[Pos(rb, d-1)]
                          ELSE IF (d-1) \in Rng(rc) THEN c[Pos(rc, d-1)]
                          ELSE o[nb + nl + Pos(rf, d-1)]]
              IN  <<Flat(lst, li), Flat(rst, ri)>>]]
=============================================================================
