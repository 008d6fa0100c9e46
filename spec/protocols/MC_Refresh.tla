----------------------------- MODULE MC_Refresh -----------------------------
(* Key refresh over a small field; a point is its discrete logarithm.  Party i makes changes x[i][j] for
   everybody, publishes them as points, and sends them to their owners.  Party 1 deviates: what it
   publishes need not sum to zero, and what it sends to party 2 need not be what it published.
   Checks: "zero" published changes sum to zero; "match" a received change fits the published one *)
EXTENDS Integers, FiniteSets
CONSTANTS Q, N, Checks
P == 1..N
F == 0..(Q - 1)
Sum3(f) == IF N = 2 THEN (f[1] + f[2]) % Q ELSE (f[1] + f[2] + f[3]) % Q
Rows == [P -> F]
ZeroRows == {r \in Rows : Sum3(r) = 0}
VARIABLES old, pub, sent, ok
Init == /\ old \in Rows
        /\ pub \in [P -> ZeroRows] \cup UNION {{[g EXCEPT ![1] = r] : g \in {[i \in P |-> z] : z \in ZeroRows}} : r \in Rows}
        /\ sent \in {pub[1][2], (pub[1][2] + 1) % Q}
        /\ ok = /\ "zero" \in Checks => \A i \in P : Sum3(pub[i]) = 0
                /\ "match" \in Checks => sent = pub[1][2]
Next == FALSE /\ UNCHANGED <<old, pub, sent, ok>>
Col(j) == [i \in P |-> IF i = 1 /\ j = 2 THEN sent ELSE pub[i][j]]
NewShare == [j \in P |-> (old[j] + Sum3(Col(j))) % Q]
NewPublic == [j \in P |-> (old[j] + Sum3([i \in P |-> pub[i][j]])) % Q]
SameKey == ok => Sum3(NewShare) = Sum3(old) /\ Sum3(NewPublic) = Sum3(old)
Fit == ok => NewShare = NewPublic
=============================================================================
