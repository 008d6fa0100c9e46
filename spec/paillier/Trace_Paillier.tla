---------------------------- MODULE Trace_Paillier ----------------------------
EXTENDS PaillierSpec, TraceCheck
CONSTANT Part
EventOK(e) ==
  CASE Part = "enc" -> EncAllowed(e)
    [] Part = "rp" -> IF e.op = "rp" THEN RPAllowed(e) ELSE CommitAllowed(e)
    [] Part = "keys" ->
        CASE e.op = "key" -> KeyAllowed(e)
          [] e.op = "unit" -> BNLt(e.x, e.n) /\ BNUnit(e.x, e.n)
          [] e.op = "nonsq" -> /\ BNLt(e.x, e.n) /\ BNUnit(e.x, e.n)
                               /\ BNJacobi(e.x, e.n) = -1
                               /\ Square(e.x, e.p) # Square(e.x, e.q)
          [] e.op = "xof" -> BNLt(e.x, e.n) /\ BNUnit(e.x, e.n) /\ e.again = e.x
          [] e.op = "rns" -> RnsAllowed(e)
Judge == JudgeWith(EventOK(Trace[i]))
Accepted == AcceptedWith({Trace[k].op : k \in 1..Len(Trace)})
=============================================================================
