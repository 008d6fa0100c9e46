----------------------------- MODULE SharingSpec -----------------------------
(* Threshold sharing of a key: polynomials over the scalars, their images in the group, interpolation
   at zero, and the conversions between threshold and additive shares. *)
EXTENDS Curves, FiniteSets, FiniteSetsExt, SequencesExt

\* sum of a[k] * x^(k-1)
PolyEval(C, a, x) == SSumSeq(C, [k \in 1..Len(a) |-> SMul(C, a[k], BNPowMod(x, BNOfInt(k - 1), C.q))])
\* the same over points
PolyEvalPt(C, P, x) == ESumSeq(C, [k \in 1..Len(P) |-> EMul(C, P[k], BNPowMod(x, BNOfInt(k - 1), C.q))])
RECURSIVE SProdSeq(_, _)
SProdSeq(C, s) == IF s = <<>> THEN BNOne ELSE SMul(C, Head(s), SProdSeq(C, Tail(s)))
\* Lagrange coefficient at zero of the place x among the places s (a sequence without repetitions)
Lagrange(C, s, x) == LET o == SelectSeq(s, LAMBDA y : y # x) IN
  SProdSeq(C, [k \in 1..Len(o) |-> SMul(C, o[k], SInv(C, SSub(C, o[k], x)))])
\* what the values v at the places s interpolate to at zero
Join(C, s, v) == SSumSeq(C, [k \in 1..Len(s) |-> SMul(C, v[k], Lagrange(C, s, s[k]))])
JoinPt(C, s, P) == ESumSeq(C, [k \in 1..Len(s) |-> EMul(C, P[k], Lagrange(C, s, s[k]))])

\* all subsequences
Subseqs(s) == {SelectSeq(s, LAMBDA x : x \in X) : X \in SUBSET {s[k] : k \in 1..Len(s)}}
\* maps are written as sequences of pairs
Keys(m) == [k \in 1..Len(m) |-> m[k][1]]
Vals(m) == [k \in 1..Len(m) |-> m[k][2]]
KeySet(m) == {m[k][1] : k \in 1..Len(m)}
At(m, key) == LET k == CHOOSE k \in 1..Len(m) : m[k][1] = key IN m[k][2]
InOrder(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
=============================================================================
