----------------------------- MODULE Trace_Params -----------------------------
(* Events: op "shipped", a shipped set; op "check", a set with changed constants and what the
   library's own check says of it (ok); op "key", a key generated for a shipped set. *)
EXTENDS TraceCheck, ParamSpec

Curve(c) == IF c.name = "test" THEN Tiny32 ELSE Secp256k1
Good(j) == LET c == Trace[j] IN
  CASE c.op = "shipped" -> /\ Sound(c) /\ Balanced(c) /\ c.ok
                           /\ c.order = Curve(c).q
                           /\ c.sb = (CASE c.name = "test" -> 16 [] c.name = "p112" -> 112 [] c.name = "p128" -> 128)
                           /\ IF c.name = "test" THEN DevLevel(c) ELSE Level(c)
    [] c.op = "check" -> /\ (~Inequalities(c) \/ ~Fits(c) => ~c.ok)
                         /\ (Sound(c) /\ Balanced(c) /\ c.xwide > 2 * c.modulus + c.ell + c.eps => c.ok)
    [] c.op = "key" -> BNBits(c.n) = c.modulus /\ BNBits(c.p) = c.prime /\ BNBits(c.q) = c.prime /\ BNMul(c.p, c.q) = c.n
Judge == JudgeWith(Good(i))
Kind(e) == e.op \o ":" \o e.name
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)} \cup {"ok" : k \in {j \in 1..Len(Trace) : Trace[j].op = "check" /\ Trace[j].ok}}
              \cup {"no" : k \in {j \in 1..Len(Trace) : Trace[j].op = "check" /\ ~Trace[j].ok}})
===============================================================================
