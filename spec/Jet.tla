-------------------------------- MODULE Jet --------------------------------
(***************************************************************************)
(* The forward-Laplacian triplet of one array element:                     *)
(*   v   its value,                                                        *)
(*   g   its derivative with respect to each of the N (weighted) inputs,   *)
(*   l   its (weighted) Laplacian,                                         *)
(* and the propagation rules of the forward Laplacian                      *)
(*   g' = f1 g          l' = f1 l + f2 <g, g>                              *)
(* (one argument; two arguments analogously with the mixed term).  With    *)
(* Full the whole Hessian  h' = f1 h + f2 g g'  is carried instead of its  *)
(* trace; that the traces agree is checked as an invariant in MCJet.  The  *)
(* number system is a parameter: integers for exhaustive checking, doubles *)
(* and complex doubles for conformance with the implementation.            *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS NZero, NOne, NTwo, NAdd(_,_), NMul(_,_),
          Full     \* TRUE: l is the whole (weighted) Hessian instead of its trace

GDot(a, b) == LET s[i \in 0..Len(a)] ==
                    IF i = 0 THEN NZero ELSE NAdd(s[i-1], NMul(a[i], b[i]))
              IN  s[Len(a)]

\* the second-order part: zero, linear combinations, and the products of two gradients
LZero(n) == IF Full THEN [i \in 1..n |-> [j \in 1..n |-> NZero]] ELSE NZero
LAdd(a, b) == IF Full THEN [i \in DOMAIN a |-> [j \in DOMAIN a |-> NAdd(a[i][j], b[i][j])]] ELSE NAdd(a, b)
LScale(s, a) == IF Full THEN [i \in DOMAIN a |-> [j \in DOMAIN a |-> NMul(s, a[i][j])]] ELSE NMul(s, a)
LMap(F(_), a) == IF Full THEN [i \in DOMAIN a |-> [j \in DOMAIN a |-> F(a[i][j])]] ELSE F(a)
\* s a a'
LSq(s, a) == IF Full THEN [i \in DOMAIN a |-> [j \in DOMAIN a |-> NMul(s, NMul(a[i], a[j]))]] ELSE NMul(s, GDot(a, a))
\* s (a b' + b a')
LMix(s, a, b) == IF Full THEN [i \in DOMAIN a |-> [j \in DOMAIN a |-> NMul(s, NAdd(NMul(a[i], b[j]), NMul(b[i], a[j])))]]
                 ELSE NMul(NTwo, NMul(s, GDot(a, b)))
LTrace(a) == LET r[i \in 0..Len(a)] == IF i = 0 THEN NZero ELSE NAdd(r[i-1], a[i][i]) IN r[Len(a)]

JConst(n, x)    == [v |-> x, g |-> [i \in 1..n |-> NZero], l |-> LZero(n)]
\* input number k of n with value x and weight w
JInput(n, k, x, w) == [v |-> x, g |-> [i \in 1..n |-> IF i = k THEN w ELSE NZero], l |-> LZero(n)]

\* t = <<f, f', f''>> at a.v
JUn(t, a) == [v |-> t[1],
              g |-> [i \in DOMAIN a.g |-> NMul(t[2], a.g[i])],
              l |-> LAdd(LScale(t[2], a.l), LSq(t[3], a.g))]

\* t = <<f, fa, fb, faa, fab, fbb>> at (a.v, b.v)
JBin(t, a, b) ==
  [v |-> t[1],
   g |-> [i \in DOMAIN a.g |-> NAdd(NMul(t[2], a.g[i]), NMul(t[3], b.g[i]))],
   l |-> LAdd(LAdd(LScale(t[2], a.l), LScale(t[3], b.l)),
              LAdd(LAdd(LSq(t[4], a.g), LSq(t[6], b.g)), LMix(t[5], a.g, b.g)))]

JAdd(a, b) == [v |-> NAdd(a.v, b.v),
               g |-> [i \in DOMAIN a.g |-> NAdd(a.g[i], b.g[i])],
               l |-> LAdd(a.l, b.l)]
JMul(a, b) == [v |-> NMul(a.v, b.v),
               g |-> [i \in DOMAIN a.g |-> NAdd(NMul(a.v, b.g[i]), NMul(b.v, a.g[i]))],
               l |-> LAdd(LAdd(LScale(a.v, b.l), LScale(b.v, a.l)), LMix(NOne, a.g, b.g))]
\* linear map applied to all three parts (conj, re, im, scaling)
JLin(F(_), a) == [v |-> F(a.v), g |-> [i \in DOMAIN a.g |-> F(a.g[i])], l |-> LMap(F, a.l)]
=============================================================================
