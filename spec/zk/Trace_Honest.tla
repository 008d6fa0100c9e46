----------------------------- MODULE Trace_Honest -----------------------------
EXTENDS HonestSpec, TraceCheck
CONSTANT Part
Judge == JudgeWith(LET c == Trace[i] IN IF Part = "c13" THEN Complete13(c) ELSE Complete13(c) /\ Hiding(c))
\* the masks of the whole trace
Wide == {"encelg", "affg", "fac", "affgstar", "dec"}
AllSamples == UNION {Samples(Trace[k]) : k \in {k \in 1..Len(Trace) : Trace[k].op \in Wide}}
AllResid(op) == FlattenSeq([k \in 1..Len(Trace) |-> IF Trace[k].op = op THEN Resid(Trace[k], 1) ELSE <<>>])
Spread(s) == Len(s) > 0 =>
          /\ Distinct([k \in 1..Len(s) |-> s[k].v])
          /\ \E k \in 1..Len(s) : BNLe(s[k].n, BNMul(BNTwo, s[k].v))
          /\ \E k \in 1..Len(s) : BNLe(BNMul(BNTwo, s[k].v), s[k].n)
Ops == {Trace[k].op : k \in 1..Len(Trace)}
Reached == \/ Part # "c30"
           \/ \E k \in 1..Len(Trace) : Trace[k].panic
           \/ /\ Covered(AllSamples) \/ (PrintT(<<"BAD", 1>>) /\ FALSE)
              /\ \A op \in Ops : Spread(AllResid(op)) \/ (PrintT(<<"BAD", CHOOSE k \in 1..Len(Trace) : Trace[k].op = op>>) /\ FALSE)
Accepted == AcceptedWith(Ops) /\ Reached
=============================================================================
