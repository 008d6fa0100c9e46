------------------------------ MODULE Trace_Wire ------------------------------
(* Events with op "trip": before and after are views of a value (all its parts) before and after a
   round trip; forms, that both have the same serialized form; short, how each form of it without one
   of its fields was taken. *)
EXTENDS TraceCheck, WireSpec

Mentions(e) == \E k \in 1..Len(e.before) : e.before[k] # <<>>
Trip(e) ==
  /\ ~e.panic /\ e.some
  /\ e.before # <<>> /\ e.after = e.before /\ e.form_after = e.form_before
  /\ \A k \in 1..Len(e.short) : e.short[k] = "refused"
Good(j) == LET e == Trace[j] IN
  IF e.op = "trip" THEN Trip(e)
  ELSE /\ Reads(e, e.res)
       \* what was read is written and read again
       /\ e.res.some => /\ ~e.back.panic /\ e.back.some /\ e.back.r = e.res.r
Judge == JudgeWith(Good(i))
Kind(e) == IF e.op = "trip" THEN e.what ELSE e.op \o ":" \o (IF e.res.some THEN "read" ELSE "refused")
Accepted == AcceptedWith({Kind(Trace[k]) : k \in 1..Len(Trace)})
===============================================================================
