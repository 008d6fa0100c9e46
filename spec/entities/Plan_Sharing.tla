---------------------------- MODULE Plan_Sharing ----------------------------
EXTENDS SharingSpec, PlanKit
CONSTANTS Deep, Part, Curvs
Base == [params |-> "test", op |-> "", coeffs |-> <<>>, x |-> <<>>, ids |-> <<>>, places |-> <<>>, n |-> 0, t |-> 0, key |-> "random", secret |-> <<>>]
C(p) == CurveOf(p)
Edge(p) == {BNZero, BNOne, BNTwo, BNSub(C(p).q, BNOne), BNDiv(C(p).q, BNTwo)}
Nz(p) == Edge(p) \ {BNZero}
Num(k) == BNOfInt(k)
\* polynomials given by their coefficients, evaluated in the group
Lists == {<<a, b>> : a \in {"0", "1", "m"}, b \in {"0", "1", "m"}}
El(p, c) == CASE c = "0" -> BNZero [] c = "1" -> BNOne [] c = "m" -> BNSub(C(p).q, BNOne) [] c = "h" -> BNDiv(C(p).q, BNTwo) [] OTHER -> BNOfInt(7)
Coeffs(p) == {[k \in 1..n |-> El(p, f[k])] : f \in [1..4 -> {"0", "1", "m", "7"}], n \in 1..4}
             \cup {[k \in 1..7 |-> BNOfInt(k * k + s)] : s \in 0..2}
Pubs == UNION {{[Base EXCEPT !.params = p, !.op = "pub_eval", !.coeffs = a, !.x = x] :
                a \in (IF Deep \/ p = "test" THEN Coeffs(p) ELSE {[k \in 1..n |-> BNSub(C(p).q, BNOfInt(k))] : n \in 1..5}),
                x \in {Num(1), Num(2), Num(5), BNSub(C(p).q, BNOne)}} : p \in Curvs}
\* interpolation coefficients
Places(p) == {<<Num(1)>>, <<Num(1), Num(2)>>, <<Num(1), Num(2), Num(3)>>, <<Num(2), Num(3), Num(5)>>, <<Num(1), BNSub(C(p).q, BNOne)>>,
              <<Num(1), Num(2), Num(3), Num(4), Num(5), Num(6), Num(7)>>, <<Num(3), Num(7), BNDiv(C(p).q, BNTwo), BNSub(C(p).q, BNTwo)>>}
Coefs == UNION {UNION {{[Base EXCEPT !.params = p, !.op = "coeff", !.places = s, !.x = s[k]] : k \in 1..Len(s)} : s \in Places(p)} : p \in Curvs}
\* splitting and joining
Splits == UNION {{[Base EXCEPT !.params = p, !.op = "split", !.secret = s, !.t = t, !.n = n] : s \in Edge(p), t \in 1..4, n \in 1..5} : p \in Curvs}
Polys == UNION {{[Base EXCEPT !.params = p, !.op = "poly", !.secret = s, !.t = t] : s \in Edge(p), t \in 1..6} : p \in Curvs}
\* whole sharings; ids of the holders are in ascending order, as sets keep them
IdsOf(n, v) == [k \in 1..n |-> IF v = 0 THEN k ELSE IF v = 1 THEN 10 * k + 3 ELSE 1000 - 7 * (n - k)]
MaxN(p) == IF p = "test" THEN IF Deep THEN 6 ELSE 5 ELSE IF Deep THEN 5 ELSE 3
Centrals == UNION {UNION {{[Base EXCEPT !.params = p, !.op = "central", !.ids = IdsOf(n, n % 3), !.n = n, !.t = t, !.key = "given", !.secret = s] : s \in (IF n <= 3 THEN Nz(p) ELSE {BNSub(C(p).q, BNTwo)}), t \in 0..(n + 1)}
               \cup {[Base EXCEPT !.params = p, !.op = "central", !.ids = IdsOf(n, 1), !.n = n, !.t = t] : t \in 1..n} : n \in 1..MaxN(p)} : p \in Curvs}
Froms == UNION {UNION {{[Base EXCEPT !.params = p, !.op = "from", !.ids = IdsOf(n, v), !.n = n, !.key = "given", !.secret = s] : s \in Nz(p), v \in 0..2} : n \in 1..MaxN(p)} : p \in Curvs}
Subs == {[Base EXCEPT !.op = "subset", !.ids = IdsOf(n, 1), !.n = n] : n \in 1..4}
\* updates of additive shares: the named parties of the change
Updates == UNION {UNION {{[Base EXCEPT !.params = p, !.op = "update", !.ids = IdsOf(n, 1), !.n = n, !.t = o, !.key = w] : o \in 1..n, w \in {"same", "owner", "missing", "extra", "renamed", "zero"}} : n \in 1..4} : p \in Curvs}
All == CASE Part = "shares" -> <<Pubs, Coefs, Splits, Polys, Centrals, Froms, Subs>>
         [] Part = "update" -> <<Updates>>
ASSUME WritePlan(All)
=============================================================================
