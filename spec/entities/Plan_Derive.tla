----------------------------- MODULE Plan_Derive -----------------------------
EXTENDS SharingSpec, PlanKit
CONSTANTS Deep, Curvs
Idx == {BNZero, BNOne, BNOfInt(255), BNOfInt(256), BNOfInt(65536), BNSub(BNPow2(31), BNOne)}
S(i, h) == [i |-> i, hard |-> h]
Soft == {S(i, FALSE) : i \in Idx}
Short == UNION {[1..n -> Soft] : n \in 0..2}
Long == {[k \in 1..n |-> S(BNOfInt(7 * k + n), FALSE)] : n \in 3..(IF Deep THEN 12 ELSE 6)} \cup {[k \in 1..4 |-> S(BNZero, FALSE)]}
\* one hardened step at every position
Hard == {[k \in 1..n |-> S(BNOfInt(k % 2), k = h)] : n \in 1..4, h \in 1..4} \ {[k \in 1..n |-> S(BNOfInt(k % 2), FALSE)] : n \in 1..4}
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<3, 4>>}
Case(p, s, a, path) == [op |-> "derive", params |-> p, t |-> s[1], n |-> s[2], ids |-> [k \in 1..s[2] |-> 10 * k + 3], key |-> "given", secret |-> a, path |-> path]
Secrets(p) == {BNOne, BNOfInt(5), BNSub(CurveOf(p).q, BNOne), BNDiv(CurveOf(p).q, BNOfInt(3))}
Cases(p) == {Case(p, s, BNDiv(CurveOf(p).q, BNOfInt(3)), path) : s \in Shapes, path \in Long \cup Hard \cup UNION {[1..n -> Soft] : n \in 0..1}}
            \cup {Case(p, <<2, 3>>, a, path) : a \in Secrets(p), path \in Short}
ASSUME WritePlan(<<UNION {Cases(p) : p \in Curvs}>>)
=============================================================================
